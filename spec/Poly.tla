-------------------------------- MODULE Poly --------------------------------
(* Polynomials: finite maps from monomials (sequences of generator numbers)  *)
(* to non-zero coefficients. The free associative algebra: no relations.     *)
(* TLCEval(v) = v; it only makes TLC evaluate functions eagerly.             *)
EXTENDS Num, FiniteSets, TLC, FiniteSetsExt, SequencesExt

PZero == <<>>
PMono(c, m) == IF IsZ(c) THEN PZero ELSE m :> c
PConst(c) == PMono(c, <<>>)

Prune(p) == LET D == {m \in DOMAIN p : ~IsZ(p[m])}
            IN IF D = DOMAIN p THEN p ELSE TLCEval([m \in D |-> p[m]])
PAdd(p, q) ==
  IF DOMAIN p = {} THEN q ELSE IF DOMAIN q = {} THEN p
  ELSE LET P == DOMAIN p
           Q == DOMAIN q
           I == P \cap Q
       IN IF I = {} THEN p @@ q
          ELSE LET s == TLCEval([m \in I |-> CAdd(p[m], q[m])])
               IN Prune(s @@ p @@ q)
PScale(c, p) == IF IsZ(c) THEN PZero ELSE IF c = COne THEN p
                ELSE TLCEval([m \in DOMAIN p |-> CMul(c, p[m])])
PNeg(p) == TLCEval([m \in DOMAIN p |-> CNeg(p[m])])
PSub(p, q) == PAdd(p, PNeg(q))

\* sum of F(m) over all elements m of a set / a sequence
PSumSet(F(_), S) == FoldSet(LAMBDA m, acc: PAdd(F(m), acc), PZero, S)
PSumSeq(F(_), s) == FoldLeft(LAMBDA acc, x: PAdd(acc, F(x)), PZero, s)

\* free product (concatenation)
PCat(p, q) ==
  PSumSet(LAMBDA a: PSumSet(LAMBDA b: PMono(CMul(p[a], q[b]), a \o b), DOMAIN q),
          DOMAIN p)

\* value of a logged expression: sequence of <<coefficient, monomial>>
PTerms(ts) == PSumSeq(LAMBDA t: PMono(t[1], t[2]), ts)

\* is a logged expression well-formed: valid non-zero coefficients
TermsValid(ts) == \A k \in DOMAIN ts : CValid(ts[k][1]) /\ ~IsZ(ts[k][1])
\* are the monomials of a logged expression sorted (strictly ascending, with
\* rk[g] the position of generator g in the documented order)
RECURSIVE RkLess(_, _, _, _)
RkLess(rk, s, t, k) ==
  IF k > Len(s) THEN FALSE
  ELSE IF rk[s[k]] # rk[t[k]] THEN rk[s[k]] < rk[t[k]]
  ELSE RkLess(rk, s, t, k + 1)
MonLess(rk, s, t) ==
  IF Len(s) # Len(t) THEN Len(s) < Len(t) ELSE RkLess(rk, s, t, 1)
TermsSorted(rk, ts) ==
  \A k \in 1..(Len(ts) - 1) : MonLess(rk, ts[k][2], ts[k+1][2])
=============================================================================
