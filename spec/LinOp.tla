-------------------------------- MODULE LinOp --------------------------------
(* Linear operators made from expressions, acting on states in a Hilbert     *)
(* space: the occupation number basis of the space, cut off at the           *)
(* dimensions of the elementary spaces.                                      *)
(* The basis is not normalised, so that amplitudes are rational:             *)
(*   a+|n) = |n+1)            a|n) = n|n-1)                 (bosons)         *)
(*   S+|j) = |j+1)            S-|j) = j(2S+1-j)|j-1)        (spins, j = m+S) *)
(* |n) has the norm n! (bosons), Prod_{k<=j} k(2S+1-k) (spins).              *)
(* c+, c carry the sign of the fermions in preceding spaces. A generator of  *)
(* a user's algebra changes the state of its space as its table says.        *)
EXTENDS Spaces, Num

CONSTANT Gns        \* descriptions of generators, see Gens
CONSTANT UserActs   \* generator -> table over states 0.. : <<state, re, im>>

NG == Len(Gns)
GenRank(g, k) ==    \* does generator g act in the elementary space k
  /\ Gns[g].a = ES[k].a
  /\ Gns[g].a = Spin => Gns[g].m = ES[k].m
  /\ IdxCmp(Gns[g].i, ES[k].i) = 0
Acts == TLCEval([g \in 1..NG |-> {k \in 1..NE : GenRank(g, k)}])

\* Positions of the generators' spaces among the spaces of S in order (0 = the
\* generator's space is not there), dimensions, kinds
Layout(S) ==
  LET o == TLCEval(InOrder(S))
  IN [o |-> o,
      pos |-> TLCEval([g \in 1..NG |->
                LET P == {q \in DOMAIN o : o[q] \in Acts[g]}
                IN IF P = {} THEN 0 ELSE CHOOSE q \in P : TRUE]),
      dim |-> TLCEval([q \in DOMAIN o |-> WInt(ES[o[q]].dim)]),
      ferm |-> TLCEval([q \in DOMAIN o |-> ES[o[q]].a = Fermion]),
      alg |-> TLCEval([q \in DOMAIN o |-> ES[o[q]].a])]

RECURSIVE FermBelow(_, _, _)
FermBelow(L, dg, q) ==
  IF q = 0 THEN 0
  ELSE (IF L.ferm[q] THEN dg[q] ELSE 0) + FermBelow(L, dg, q - 1)

\* x = <<occupation numbers, amplitude>>; amplitude 0: the state is lost
Lost(x) == <<x[1], CZero>>
To(x, q, n, c) == <<[x[1] EXCEPT ![q] = n], IF c = COne THEN x[2] ELSE CMul(x[2], c)>>
ApplyGen(L, x, g) ==
  LET q == L.pos[g]
      n == x[1][q]
      d == Gns[g]
  IN IF d.a = Fermion THEN
       IF n = d.d THEN Lost(x)
       ELSE To(x, q, d.d, IF FermBelow(L, x[1], q - 1) % 2 = 0 THEN COne ELSE <<-1, 0, 1>>)
     ELSE IF d.a = Boson THEN
       IF d.d = 1 THEN IF n + 1 >= L.dim[q] THEN Lost(x) ELSE To(x, q, n + 1, COne)
       ELSE IF n = 0 THEN Lost(x) ELSE To(x, q, n - 1, CInt(n))
     ELSE IF d.a = Spin THEN
       IF d.c = 0 THEN IF n + 1 = d.m THEN Lost(x) ELSE To(x, q, n + 1, COne)
       ELSE IF d.c = 1 THEN IF n = 0 THEN Lost(x) ELSE To(x, q, n - 1, CInt(n * (d.m - n)))
       ELSE IF 2*n = d.m - 1 THEN Lost(x) ELSE To(x, q, n, CQ(2*n - d.m + 1, 0, 2))
     ELSE LET a == UserActs[g][n + 1]
          IN IF a[2] = 0 /\ a[3] = 0 THEN Lost(x) ELSE To(x, q, a[1], <<a[2], a[3], 1>>)

\* the rightmost generator of a word acts first
RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(L, w, k, x) ==
  IF k = 0 \/ IsZ(x[2]) THEN x ELSE ApplyFrom(L, w, k - 1, TLCEval(ApplyGen(L, x, w[k])))
ApplyWord(L, w, x) == ApplyFrom(L, w, Len(w), x)

AddTo(v, dg, c) == (dg :> (IF dg \in DOMAIN v THEN CAdd(v[dg], c) ELSE c)) @@ v
\* polynomials and superpositions are sequences of terms <<coefficient, word>>
\* and <<occupation numbers, amplitude>>
RECURSIVE SumTerms(_, _, _, _, _)
SumTerms(L, p, k, st, v) ==
  IF k = 0 THEN v
  ELSE LET x == ApplyWord(L, p[k][2], <<st[1], CMul(p[k][1], st[2])>>)
       IN SumTerms(L, p, k - 1, st, IF IsZ(x[2]) THEN v ELSE TLCEval(AddTo(v, x[1], x[2])))
RECURSIVE SumStates(_, _, _, _, _)
SumStates(L, p, s, k, v) ==
  IF k = 0 THEN v
  ELSE SumStates(L, p, s, k - 1, SumTerms(L, p, Len(p), s[k], v))
\* the image of a superposition as a set of pairs with non-vanishing amplitudes
Nz(v) == {<<dg, v[dg]>> : dg \in {t \in DOMAIN v : ~IsZ(v[t])}}
Image(L, p, s) == Nz(SumStates(L, p, s, Len(s), <<>>))
SetToSeqOf(Z) == SetToSeq(Z)

-----------------------------------------------------------------------------
(* Which operators can be made. An operator supports a set of algebras.      *)
GensOf(p) == UNION {{p[k][2][j] : j \in DOMAIN p[k][2]} : k \in DOMAIN p}
Missing(L, A, w) == {w[j] : j \in {k \in DOMAIN w : Gns[w[k]].a \notin A \/ L.pos[w[k]] = 0}}
\* a power of a bosonic operator that gives zero on every state. What follows
\* such a power in the same term need not be looked at
RECURSIVE RunLen(_, _)
RunLen(w, j) == IF j > 1 /\ w[j - 1] = w[j] THEN 1 + RunLen(w, j - 1) ELSE 1
Hopeless(L, w) == \E j \in DOMAIN w : /\ Gns[w[j]].a = Boson
                                      /\ L.pos[w[j]] # 0
                                      /\ RunLen(w, j) >= L.dim[L.pos[w[j]]]
\* terms that take part in the action
Effective(L, A, p) == SelectSeq(p, LAMBDA t : ~Hopeless(L, t[2]))

-----------------------------------------------------------------------------
(* Parametric operators: coefficients are polynomials of two arguments, as   *)
(* sequences of terms <<factor, power of the first, power of the second>>    *)
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN COne ELSE CMul(a, CPow(a, n - 1))
RECURSIVE EvalFrom(_, _, _, _)
EvalFrom(c, k, x, y) ==
  IF k = 0 THEN CZero
  ELSE CAdd(CMul(c[k][1], CMul(CPow(x, c[k][2]), CPow(y, c[k][3]))), EvalFrom(c, k - 1, x, y))
Eval(c, x, y) == EvalFrom(c, Len(c), x, y)
\* the plain operator at given arguments
AtArgs(p, x, y) == [k \in DOMAIN p |-> <<Eval(p[k][1], x, y), p[k][2]>>]

-----------------------------------------------------------------------------
\* physical states as occupation numbers, norms
RECURSIVE DigitsFrom(_, _)
DigitsFrom(L, q) ==
  IF q > Len(L.dim) THEN {<<>>}
  ELSE LET R == DigitsFrom(L, q + 1)
       IN {<<n>> \o r : n \in 0..(L.dim[q] - 1), r \in R}
States(L) == DigitsFrom(L, 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE SpinNorm(_, _)
SpinNorm(m, j) == IF j = 0 THEN 1 ELSE j * (m - j) * SpinNorm(m, j - 1)
RECURSIVE NormFrom(_, _, _)
NormFrom(L, dg, q) ==
  IF q > Len(dg) THEN 1
  ELSE (IF L.alg[q] = Boson THEN Fact(dg[q])
        ELSE IF L.alg[q] = Spin THEN SpinNorm(L.dim[q], dg[q]) ELSE 1) * NormFrom(L, dg, q + 1)
Norm(L, dg) == NormFrom(L, dg, 1)
\* integer index of a state in a small space
IndexOf(L, dg) == IndexInt(L.o, dg, 1, 1)
=============================================================================
