---------------------------- MODULE UserAlgebra -----------------------------
(* Rule tables of user-defined algebras, taken from the header of a trace    *)
(* (the same declarations the generators of the real code answer with).      *)
(* Generators of different algebras commute; generators of the same          *)
(* user-defined algebra commute unless a rule says otherwise.                *)
EXTENDS Expr, TraceBase

IsUser(n) == U[n].a >= 0
FindIn(s, h, g) == {k \in DOMAIN s : s[k].h = h /\ s[k].g = g}
Pick(S) == CHOOSE k \in S : TRUE
UserRule(h, g) ==
  IF Rk[h] > Rk[g] THEN
    LET K == FindIn(Header.swaps, h, g)
    IN IF K = {} THEN Swap(COne, CZero, <<>>)
       ELSE LET r == Header.swaps[Pick(K)] IN Swap(r.c, r.k, r.l)
  ELSE
    LET K == FindIn(Header.reds, h, g)
    IN IF K = {} THEN Keep
       ELSE LET r == Header.reds[Pick(K)] IN Red(r.k, r.l)
UserTab == TLCEval([h \in 1..N |-> TLCEval([g \in 1..N |->
             IF IsUser(h) /\ IsUser(g) /\ U[h].a = U[g].a THEN UserRule(h, g)
             ELSE ARule(h, g)])])
URule(h, g) == UserTab[h][g]
UserPows == TLCEval([g \in 1..N |-> {k \in DOMAIN Header.pows : Header.pows[k].h = g}])
UHasPow(g) == IF IsUser(g) THEN UserPows[g] # {} ELSE AHasPow(g)
UPow(g, p) ==
  IF IsUser(g) THEN
    LET K == {k \in UserPows[g] : Header.pows[k].g = p}
    IN IF K = {} THEN Keep
       ELSE LET r == Header.pows[Pick(K)] IN Red(r.k, r.l)
  ELSE APow(g, p)

\* Types that cannot hold the constants of the rules may refuse products with the
\* generators these rules are about
Unrepresentable(ty) == IF ty \in {"schar", "short", "ushort", "int", "unsigned", "long", "mpz"}
                       THEN Header.fr \/ Header.fl
                       ELSE ty \in {"rint", "rlong", "mpq"} /\ Header.fl
UsesUser(W) == \E w \in W : \E k \in DOMAIN w : IsUser(w[k])

\* conjugate of a generator: a linear function
ConjLin(g) ==
  LET K == {k \in DOMAIN Header.conjs : Header.conjs[k].h = g}
  IN IF ~IsUser(g) THEN PMono(COne, <<ConjTab[g]>>)
     ELSE IF K = {} THEN PMono(COne, <<g>>)
     ELSE LET r == Header.conjs[Pick(K)]
          IN PAdd(PConst(r.k), PSumSeq(LAMBDA t: PMono(t[1], <<t[2]>>), r.l))
ConjLinTab == TLCEval([g \in 1..N |-> ConjLin(g)])
ConjWord(w) == FoldLeft(LAMBDA acc, g: PCat(ConjLinTab[g], acc), PConst(COne), w)
UConjPoly(p) == PSumSet(LAMBDA m: PScale(CConj(p[m]), ConjWord(m)), DOMAIN p)
=============================================================================
