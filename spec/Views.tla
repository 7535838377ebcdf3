-------------------------------- MODULE Views --------------------------------
(* Views of state vectors. A view covers a sequence of basis states `st`: the *)
(* state st[p + 1] is kept at position p of a storage. Storages are cells;    *)
(* a view refers to a cell that may be shared or owns one. Which states are   *)
(* covered is determined by the sector, the space or the mapping.             *)
(* Basis states are occupation numbers in the layout L of LinOp.              *)
EXTENDS LinOp

\* Pascal's triangle
RECURSIVE PascalRow(_, _)
PascalRow(r, k) == IF k > Len(r) THEN <<<<1>>>>
                   ELSE <<IF k = 1 THEN <<1>> ELSE WNorm(WAdd(r[k - 1], r[k]))>> \o PascalRow(r, k + 1)
RECURSIVE PascalFrom(_, _)
PascalFrom(r, n) == IF n > 64 THEN <<>> ELSE <<r>> \o PascalFrom(TLCEval(PascalRow(r, 1)), n + 1)
Pascal == TLCEval(PascalFrom(<<<<1>>>>, 0))
Binomial(n, k) == IF k > n \/ k < 0 THEN <<>> ELSE Pascal[n + 1][k + 1]

Fermions(L) == {q \in DOMAIN L.o : L.ferm[q]}
AllSpaces(L) == {L.o[q] : q \in DOMAIN L.o}
NumBits(L) == TotalBits(AllSpaces(L))
SparseL(L) == Sparse(AllSpaces(L))
RECURSIVE CountIn(_, _, _)
CountIn(dg, Q, q) == IF q = 0 THEN 0 ELSE (IF q \in Q THEN dg[q] ELSE 0) + CountIn(dg, Q, q - 1)
PhysicalD(L, dg) == Len(dg) = Len(L.dim) /\ \A q \in DOMAIN dg : dg[q] \in 0..(L.dim[q] - 1)

(* Sectors: sequences of [q |-> set of positions of fermions, n |-> number].  *)
(* The N-fermion sector is the multisector with one sector of all fermions.   *)
InSectors(L, secs, dg) == PhysicalD(L, dg)
                          /\ \A k \in DOMAIN secs : CountIn(dg, secs[k].q, Len(dg)) = secs[k].n
RECURSIVE ProdBinom(_, _)
ProdBinom(secs, k) == IF k = 0 THEN <<1>>
                      ELSE WMul(ProdBinom(secs, k - 1), Binomial(Cardinality(secs[k].q), secs[k].n))
RECURSIVE SumModes(_, _)
SumModes(secs, k) == IF k = 0 THEN 0 ELSE Cardinality(secs[k].q) + SumModes(secs, k - 1)
SectorSize(L, secs) ==
  IF NumBits(L) = 0 THEN <<>>
  ELSE WMul(ProdBinom(secs, Len(secs)), WPow2(NumBits(L) - SumModes(secs, Len(secs))))
Overfull(secs) == \E k \in DOMAIN secs : secs[k].n > Cardinality(secs[k].q)

\* basis states contributing to O_1^n1 ... O_M^nM |0>, n1 + ... + nM = N; the
\* rightmost operator is applied first
Vacuum(L) == <<<<[q \in DOMAIN L.o |-> 0], COne>>>>
RECURSIVE Reach(_, _, _, _, _)
Reach(L, ops, k, s, n) ==
  IF s = <<>> THEN {}
  ELSE IF n = 0 THEN {s[j][1] : j \in DOMAIN s}
  ELSE IF k = 0 THEN {}
  ELSE Reach(L, ops, k - 1, s, n)
       \cup Reach(L, ops, k, SetToSeqOf(Image(L, ops[k], s)), n - 1)
Compositions(L, ops, n) == Reach(L, ops, Len(ops), Vacuum(L), n)
Contributing(L, p) == {z[1] : z \in Image(L, p, Vacuum(L))}

-----------------------------------------------------------------------------
(* The machine                                                               *)
VARIABLES cell, view
wvars == <<cell, view>>
\* view: [c |-> cell, st |-> states, at |-> state -> position]
MkView(c, st) == [c |-> c, st |-> st,
                  at |-> TLCEval([s \in {st[k] : k \in DOMAIN st} |-> CHOOSE k \in DOMAIN st : st[k] = s])]
WInit == cell = <<>> /\ view = <<>>
NewCell(c, x) == cell' = (c :> x) @@ cell /\ UNCHANGED view
Write(c, p, x) == cell' = [cell EXCEPT ![c][p] = x] /\ UNCHANGED view
\* a view of cell c
NewView(v, c, st) == view' = (v :> MkView(c, st)) @@ view /\ UNCHANGED cell
\* a view that owns a copy of cell c in a new cell d
NewOwner(v, c, d, st) == view' = (v :> MkView(d, st)) @@ view /\ cell' = (d :> cell[c]) @@ cell
CopyView(v, a) == view' = (v :> view[a]) @@ view /\ UNCHANGED cell
CopyOwner(v, a, d) == view' = (v :> [view[a] EXCEPT !.c = d]) @@ view /\ cell' = (d :> cell[view[a].c]) @@ cell
UpdateV(v, s, x) == LET w == view[v]
                        p == w.at[s]
                    IN Write(w.c, p, CAdd(cell[w.c][p], x))
ZeroV(v) == cell' = [cell EXCEPT ![view[v].c] = [p \in DOMAIN cell[view[v].c] |-> CZero]] /\ UNCHANGED view
\* what views show
Read(v, s) == cell[view[v].c][view[v].at[s]]
ShownV(v) == LET w == view[v]
             IN {<<w.st[p], cell[w.c][p]>> : p \in {k \in DOMAIN w.st : ~IsZ(cell[w.c][k])}}

\* a view reads what has been written through any view of the same cell
Coherent == \A v \in DOMAIN view : /\ Len(cell[view[v].c]) = Len(view[v].st)
                                   /\ \A k \in DOMAIN view[v].st : view[v].at[view[v].st[k]] = k
=============================================================================
