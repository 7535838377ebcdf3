---------------------------- MODULE MC_Factories ----------------------------
(* The definitions satisfy the defining relations of the operators: checked  *)
(* for all pairs of degrees of freedom of a universe, both by rewriting and  *)
(* on the occupation number space.                                           *)
EXTENDS Factories, MCU_Universes

VARIABLE pair
Init == pair = <<>> /\ regs = <<>>
\* degrees of freedom: representatives
Dofs(a) == {k \in 1..N : U[k].a = a /\ Rep[k] = k}
Next == /\ pair = <<>>
        /\ \E x, y \in {k \in 1..N : Rep[k] = k} : pair' = <<x, y>>
        /\ UNCHANGED regs
Spec == Init /\ [][Next]_<<pair, regs>>

Comm(p, q) == PSub(PMul(p, q), PMul(q, p))
Anti(p, q) == PAdd(PMul(p, q), PMul(q, p))
I1 == <<0, 1, 1>>
D(f, k) == FacDef(f, U[k].m, U[k].i)
Delta(x, y) == PConst(IF x = y THEN COne ELSE CZero)
If(x, y, p) == IF x = y THEN p ELSE PZero
FermiOK(x, y) ==
  /\ Anti(D("c", x), D("c_dag", y)) = Delta(x, y)
  /\ Anti(D("c", x), D("c", y)) = PZero
  /\ Anti(D("c_dag", x), D("c_dag", y)) = PZero
  /\ Comm(D("n", x), D("c_dag", y)) = If(x, y, D("c_dag", y))
  /\ Comm(D("n", x), D("c", y)) = If(x, y, PNeg(D("c", y)))
  /\ PMul(D("n", x), D("n", x)) = D("n", x)
  /\ PNO(ConjPoly(D("c", x))) = D("c_dag", x)
  /\ PNO(ConjPoly(D("n", x))) = D("n", x)
BoseOK(x, y) ==
  /\ Comm(D("a", x), D("a_dag", y)) = Delta(x, y)
  /\ Comm(D("a", x), D("a", y)) = PZero
  /\ Comm(D("a_dag", x), D("a_dag", y)) = PZero
  /\ PNO(ConjPoly(D("a", x))) = D("a_dag", x)
Casimir(x) == PAdd(PAdd(PMul(D("S_x", x), D("S_x", x)), PMul(D("S_y", x), D("S_y", x))),
                   PMul(D("S_z", x), D("S_z", x)))
SpinOK(x, y) ==
  /\ Comm(D("S_x", x), D("S_y", y)) = If(x, y, PScale(I1, D("S_z", x)))
  /\ Comm(D("S_y", x), D("S_z", y)) = If(x, y, PScale(I1, D("S_x", x)))
  /\ Comm(D("S_z", x), D("S_x", y)) = If(x, y, PScale(I1, D("S_y", x)))
  /\ Comm(D("S_p", x), D("S_m", y)) = If(x, y, PScale(<<2, 0, 1>>, D("S_z", x)))
  /\ PAdd(D("S_x", x), PScale(I1, D("S_y", x))) = D("S_p", x)
  /\ PSub(D("S_x", x), PScale(I1, D("S_y", x))) = D("S_m", x)
  /\ \A f \in {"S_x", "S_y", "S_z"} : PNO(ConjPoly(D(f, x))) = D(f, x)
  /\ SameOperator(Casimir(x), PConst(CRat((U[x].m - 1) * (U[x].m + 1), 4)))
Relations ==
  pair # <<>> =>
    LET x == pair[1]
        y == pair[2]
    IN IF U[x].a # U[y].a THEN TRUE
       ELSE IF U[x].a = Fermion THEN FermiOK(x, y)
       ELSE IF U[x].a = Boson THEN BoseOK(x, y) ELSE SpinOK(x, y)
=============================================================================
