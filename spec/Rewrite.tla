------------------------------ MODULE Rewrite -------------------------------
(* Normal ordering by rewriting, for any algebra given by its rule table.    *)
(*                                                                           *)
(* Rule(h, g), for a pair of neighbours h g in a product, is                 *)
(*   [t |-> "keep"]                    the pair is in order                  *)
(*   [t |-> "red",  k, l]              h g = k + sum l                       *)
(*   [t |-> "swap", c, k, l]           h g = c g h + k + sum l               *)
(* with k, c coefficients and l a sequence of <<coefficient, generator>>.    *)
(* Pow(g, p), p > 2: [t |-> "keep"] or [t |-> "red", k, l]: g^p = k + sum l  *)
(* MaxP(g): is there any p for which Pow(g, p) reduces.                      *)
EXTENDS Poly

CONSTANTS Rule(_, _), Pow(_, _), HasPow(_)

Front1(m) == SubSeq(m, 1, Len(m) - 1)

\* number of trailing occurrences of g in m
RECURSIVE Run(_, _)
Run(m, g) == IF m = <<>> \/ m[Len(m)] # g THEN 0 ELSE 1 + Run(Front1(m), g)

RECURSIVE RMul(_, _), PRMul(_, _), LinTail(_, _, _)
\* canonical polynomial P times generator g
PRMul(P, g) ==
  FoldSet(LAMBDA m, acc: PAdd(acc, PScale(P[m], RMul(m, g))), PZero, DOMAIN P)
\* m * (k + sum of l)
LinTail(m, k, l) ==
  FoldLeft(LAMBDA acc, t: PAdd(acc, PScale(t[1], RMul(m, t[2]))),
           PMono(k, m), l)
\* canonical monomial m times generator g
RMul(m, g) ==
  IF m = <<>> THEN <<g>> :> COne
  ELSE
    LET h == m[Len(m)]
        r == Rule(h, g)
        f == Front1(m)
    IN IF r.t = "keep" THEN
         IF g = h /\ HasPow(g) THEN
           LET n == 1 + Run(m, g)
               pw == IF n > 2 THEN Pow(g, n) ELSE [t |-> "keep"]
           IN IF pw.t = "keep" THEN Append(m, g) :> COne
              ELSE LinTail(SubSeq(m, 1, Len(m) - n + 1), pw.k, pw.l)
         ELSE Append(m, g) :> COne
       ELSE IF r.t = "red" THEN LinTail(f, r.k, r.l)
       ELSE PAdd(IF IsZ(r.c) THEN PZero ELSE PScale(r.c, PRMul(RMul(f, g), h)),
                 LinTail(f, r.k, r.l))

\* canonical polynomial P times a word
PWord(P, w) == FoldLeft(LAMBDA acc, g: PRMul(acc, g), P, w)
\* canonical form of a word
NO(w) == PWord(PConst(COne), w)
\* product of canonical polynomials
PMul(P, Q) ==
  FoldSet(LAMBDA m, acc: PAdd(acc, PScale(Q[m], PWord(P, m))), PZero, DOMAIN Q)
\* canonical form of an arbitrary polynomial
PNO(Q) == PMul(PConst(COne), Q)

\* is a monomial irreducible
Irreducible(m) ==
  /\ \A k \in 1..(Len(m) - 1) : Rule(m[k], m[k+1]).t = "keep"
  /\ \A k \in 1..Len(m) :
       HasPow(m[k]) =>
         LET n == Run(SubSeq(m, 1, k), m[k])
         IN n > 2 => Pow(m[k], n).t = "keep"
=============================================================================
