------------------------------ MODULE Algebra -------------------------------
(* The predefined algebras as rule tables over a universe U of generators    *)
(* (sequence of descriptions, see Gens) and their Hermitian conjugation.     *)
EXTENDS Gens, Num

CONSTANT U

N == Len(U)
Rk == TLCEval(Ranks(U))
SameDof(g, h) == /\ g.a = h.a /\ g.i = h.i /\ g.m = h.m

\* number of the generator with component c of the same spin as U[n], or 0
SpinComp(n, c) ==
  LET S == {k \in 1..N : SameDof(U[k], U[n]) /\ U[k].c = c}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
Conjugate(n) ==
  LET S == {k \in 1..N : /\ SameDof(U[k], U[n])
                         /\ IF U[n].a = Spin
                            THEN U[k].c = <<1, 0, 2>>[U[n].c + 1]
                            ELSE U[k].d = 1 - U[n].d}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE

Keep == [t |-> "keep"]
Red(k, l) == [t |-> "red", k |-> k, l |-> l]
Swap(c, k, l) == [t |-> "swap", c |-> c, k |-> k, l |-> l]
Half == <<1, 0, 2>>
MHalf == <<-1, 0, 2>>
MOne == <<-1, 0, 1>>
Quarter == <<1, 0, 4>>

\* h g for two components of the same spin-1/2
SpinHalf(h, g) ==
  LET a == U[h].c
      b == U[g].c
      p == SpinComp(h, 0)
      m == SpinComp(h, 1)
      z == SpinComp(h, 2)
  IN CASE a = 0 /\ b = 0 -> Red(CZero, <<>>)
       [] a = 1 /\ b = 1 -> Red(CZero, <<>>)
       [] a = 2 /\ b = 2 -> Red(Quarter, <<>>)
       [] a = 0 /\ b = 1 -> Red(Half, <<<<COne, z>>>>)
       [] a = 1 /\ b = 0 -> Red(Half, <<<<MOne, z>>>>)
       [] a = 0 /\ b = 2 -> Red(CZero, <<<<MHalf, p>>>>)
       [] a = 2 /\ b = 0 -> Red(CZero, <<<<Half, p>>>>)
       [] a = 1 /\ b = 2 -> Red(CZero, <<<<Half, m>>>>)
       [] a = 2 /\ b = 1 -> Red(CZero, <<<<MHalf, m>>>>)

\* h g for two components of the same spin S > 1/2: commutation relations
SpinS(h, g) ==
  LET a == U[h].c
      b == U[g].c
  IN CASE a = 1 /\ b = 0 -> Swap(COne, CZero, <<<<<<-2, 0, 1>>, SpinComp(h, 2)>>>>)
       [] a = 2 /\ b = 0 -> Swap(COne, CZero, <<<<COne, g>>>>)
       [] a = 2 /\ b = 1 -> Swap(COne, CZero, <<<<MOne, g>>>>)
       [] OTHER -> Keep

PairRule(h, g) ==
  LET x == U[h]
      y == U[g]
  IN IF x.a # y.a THEN IF Rk[h] > Rk[g] THEN Swap(COne, CZero, <<>>) ELSE Keep
     ELSE IF x.a = Fermion THEN
       IF Rk[h] = Rk[g] THEN Red(CZero, <<>>)
       ELSE IF Rk[h] > Rk[g]
            THEN Swap(MOne, IF SameDof(x, y) THEN COne ELSE CZero, <<>>)
            ELSE Keep
     ELSE IF x.a = Boson THEN
       IF Rk[h] > Rk[g]
       THEN Swap(COne, IF SameDof(x, y) /\ x.d = 0 THEN COne ELSE CZero, <<>>)
       ELSE Keep
     ELSE IF SameDof(x, y) THEN
       IF x.m = 2 THEN SpinHalf(h, g) ELSE SpinS(h, g)
     ELSE IF Rk[h] > Rk[g] THEN Swap(COne, CZero, <<>>) ELSE Keep

RuleTab == TLCEval([h \in 1..N |-> TLCEval([g \in 1..N |-> PairRule(h, g)])])
ConjTab == TLCEval([h \in 1..N |-> Conjugate(h)])
ARule(h, g) == RuleTab[h][g]
AHasPow(g) == U[g].a = Spin /\ U[g].m > 2 /\ U[g].c # 2
\* (S+)^p = (S-)^p = 0 for p > 2S
APow(g, p) == IF p >= U[g].m THEN Red(CZero, <<>>) ELSE Keep

\* algebras for which the canonical form is unique
UniqueForm == \A k \in 1..N : U[k].a # Spin \/ U[k].m = 2

\* Hermitian conjugate of a monomial (in the free algebra)
ConjMon(m) == [k \in 1..Len(m) |-> ConjTab[m[Len(m) + 1 - k]]]
\* and of a polynomial
ConjPoly(p) ==
  LET C == {ConjMon(m) : m \in DOMAIN p}
  IN TLCEval([x \in C |-> CConj(p[ConjMon(x)])])
=============================================================================
