-------------------------------- MODULE Text --------------------------------
(* Printed form of generators, monomials and expressions, as sequences of    *)
(* character codes.                                                          *)
EXTENDS Gens

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
IntText(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

\* "a,b,c"
RECURSIVE CommaText(_, _)
CommaText(f, k) == IF k = 0 THEN <<>>
                   ELSE IF k = 1 THEN f[1]
                   ELSE CommaText(f, k - 1) \o <<44>> \o f[k]
\* an index: an integer or the characters of a string
CompText(c) == IF c[1] = 0 THEN IntText(c[2]) ELSE Tail(c)
IxText(i) == CommaText([k \in DOMAIN i |-> CompText(i[k])], Len(i))

\* C+(i), C(i), A+(i), A(i), S+(i), S-(i), Sz(i), S1+(i), S3/2z(i), g^7(i)
SpinText(m) == IF m = 2 THEN <<>>
               ELSE IF m % 2 = 0 THEN Digits(m - 1) \o <<47, 50>>
               ELSE Digits((m - 1) \div 2)
GenText(g) ==
  (CASE g.a = Fermion -> <<67>> \o (IF g.d = 1 THEN <<43>> ELSE <<>>)
     [] g.a = Boson -> <<65>> \o (IF g.d = 1 THEN <<43>> ELSE <<>>)
     [] g.a = Spin -> <<83>> \o SpinText(g.m) \o <<(CASE g.c = 0 -> 43 [] g.c = 1 -> 45 [] g.c = 2 -> 122)>>
     [] OTHER -> <<103, 94>> \o IntText(g.a))
  \o <<40>> \o IxText(g.i) \o <<41>>

\* repeated generators are printed as powers: "[A(1)]^2"
\* length of the run of equal elements that starts at position k
RECURSIVE RunLen(_, _)
RunLen(m, k) == IF k < Len(m) /\ m[k + 1] = m[k] THEN 1 + RunLen(m, k + 1) ELSE 1
RECURSIVE MonTextFrom(_, _, _)
MonTextFrom(T, m, k) ==
  IF k > Len(m) THEN <<>>
  ELSE LET n == RunLen(m, k)
       IN (IF n = 1 THEN T[m[k]]
           ELSE <<91>> \o T[m[k]] \o <<93, 94>> \o Digits(n))
          \o MonTextFrom(T, m, k + n)
\* T: texts of the generators of the universe
MonText(T, m) == MonTextFrom(T, m, 1)

\* ---- coefficients -----------------------------------------------------------
\* decimal fractions with at most six digits are printed exactly
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Frac(_, _)
Frac(n, d) == IF n = 0 THEN <<>> ELSE <<48 + (10 * n) \div d>> \o Frac((10 * n) % d, d)
Finite(d) == d \in {1, 2, 4, 8, 16, 32}
Short(n, d) == /\ Finite(d)
               /\ LET q == Abs(n) \div d
                      f == Frac((Abs(n) % d), d)
                  IN q < 100000 /\ Len(f) <= 5
                     /\ (IF q = 0 THEN 0 ELSE Len(Digits(q))) + Len(f) <= 6
Dec(n, d) == (IF n < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs(n) \div d)
             \o (IF (n % d) = 0 THEN <<>> ELSE <<46>> \o Frac((Abs(n) % d), d))
Floats == {"float", "double", "ldouble", "mpf"}
CFloats == {"cfloat", "cdouble"}
Ints == {"short", "ushort", "int", "unsigned", "long", "mpz"}
Ratios == {"rint", "rlong", "mpq"}
\* is the text of the coefficient c of type ty determined by this specification
Plain(ty, c) == CASE ty \in Floats -> c[2] = 0 /\ Short(c[1], c[3])
                  [] ty \in CFloats -> Short(c[1], c[3]) /\ Short(c[2], c[3])
                  [] ty \in Ints \cup Ratios -> c[2] = 0
                  [] OTHER -> FALSE
CoefText(ty, c) ==
  CASE ty \in Floats -> Dec(c[1], c[3])
    [] ty \in CFloats -> <<40>> \o Dec(c[1], c[3]) \o <<44>> \o Dec(c[2], c[3]) \o <<41>>
    [] ty \in Ints -> IntText(c[1])
    [] ty \in Ratios -> IntText(c[1]) \o (IF ty = "mpq" /\ c[3] = 1 THEN <<>>
                                          ELSE <<47>> \o Digits(c[3]))
ZeroText(ty) == CASE ty \in Floats -> <<48>>
                  [] ty \in CFloats -> <<40, 48, 44, 48, 41>>
                  [] ty \in Ratios \ {"mpq"} -> <<48, 47, 49>>
                  [] OTHER -> <<48>>

\* "c*M + c*M + c": terms is a sequence of <<coefficient, monomial>>
TermText(ty, T, t) == CoefText(ty, t[1])
                      \o (IF t[2] = <<>> THEN <<>> ELSE <<42>> \o MonText(T, t[2]))
RECURSIVE PlusText(_, _, _, _)
PlusText(ty, T, ts, k) ==
  IF k = 0 THEN <<>>
  ELSE PlusText(ty, T, ts, k - 1) \o (IF k = 1 THEN <<>> ELSE <<32, 43, 32>>)
       \o TermText(ty, T, ts[k])
ExprText(ty, T, ts) == IF ts = <<>> THEN ZeroText(ty) ELSE PlusText(ty, T, ts, Len(ts))

\* the sign of a floating point zero does not matter
NegZeroAt(s, k) == /\ s[k] = 45 /\ k + 2 <= Len(s) /\ s[k + 1] = 48 /\ s[k + 2] \in {44, 41}
                   /\ k > 1 /\ s[k - 1] \in {40, 44}
RECURSIVE Unsigned(_, _)
Unsigned(s, k) == IF k > Len(s) THEN <<>>
                  ELSE IF NegZeroAt(s, k) THEN Unsigned(s, k + 1)
                  ELSE <<s[k]>> \o Unsigned(s, k + 1)
=============================================================================
