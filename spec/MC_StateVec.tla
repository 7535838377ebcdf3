------------------------------ MODULE MC_StateVec ----------------------------
EXTENDS StateVec, Json, TLC
CONSTANTS MaxOps
VARIABLES hist, nOps
vars == <<vvars, hist, nOps>>
Vals == {CZero, COne, <<-1, 0, 1>>, <<2, 0, 1>>}
Op(A, name, args) == A /\ hist' = Append(hist, <<name, args>>)
Init == VInit /\ hist = <<>> /\ nOps = 0
Next == /\ nOps < MaxOps /\ nOps' = nOps + 1
        /\ \E r \in VRegs :
             \/ \E i \in Pos, c \in Vals : \/ Op(Update(r, i, c), "upd", <<r, i, c[1]>>)
                                           \/ Op(Assign(r, i, c), "set", <<r, i, c[1]>>)
             \/ \E i, j \in Pos : Op(UpdateRef(r, i, j), "ref", <<r, i, j>>)
             \/ \E i \in Pos : Op(Touch(r, i), "touch", <<r, i>>)
             \/ Op(SetZeros(r), "zero", <<r>>)
             \/ Op(Prune(r), "prune", <<r>>)
             \/ \E c \in Vals : Op(PruneIf(r, c), "prunep", <<r, c[1]>>)
             \/ \E a \in VRegs : a # r /\ (a \in SparseRegs) = (r \in SparseRegs) /\ Op(CopyV(r, a), "copy", <<r, a>>)
Spec == Init /\ [][Next]_vars
View == <<vvars, nOps>>
One(T) == {RandomElement(T)}
GNext == /\ nOps < MaxOps /\ nOps' = nOps + 1
         /\ \E k \in One(1..14), r \in One(VRegs), a \in One(VRegs), i \in One(Pos), j \in One(Pos), c \in One(Vals) :
              CASE k <= 5 -> Op(Update(r, i, c), "upd", <<r, i, c[1]>>)
                [] k = 6 -> \* cancels
                            Op(Update(r, i, CNeg(val[r][i])), "upd", <<r, i, -val[r][i][1]>>)
                [] k = 7 -> Op(Assign(r, i, c), "set", <<r, i, c[1]>>)
                [] k = 8 -> Op(UpdateRef(r, i, j), "ref", <<r, i, j>>)
                [] k = 9 -> Op(Touch(r, i), "touch", <<r, i>>)
                [] k = 10 -> Op(SetZeros(r), "zero", <<r>>)
                [] k = 11 /\ r \in SparseRegs -> Op(Prune(r), "prune", <<r>>)
                [] k = 12 /\ r \in SparseRegs -> Op(PruneIf(r, c), "prunep", <<r, c[1]>>)
                [] k = 13 /\ a # r /\ (a \in SparseRegs) = (r \in SparseRegs) -> Op(CopyV(r, a), "copy", <<r, a>>)
                [] OTHER -> Op(Update(r, j, c), "upd", <<r, j, c[1]>>)
GSpec == Init /\ [][GNext]_vars
Emit == nOps = MaxOps => PrintT("TRACE " \o ToJson(hist))
\* operations on a sparse register are the same as those on a dense one as far
\* as amplitudes are concerned; without operator[] stored = support
StoredExact == (\A k \in DOMAIN hist : hist[k][1] \notin {"set", "touch"})
               => \A r \in VRegs : stored[r] = Support(val[r])
Pruned == (hist # <<>> /\ hist[Len(hist)][1] = "prune")
          => LET r == hist[Len(hist)][2][1] IN stored[r] = Support(val[r])
=============================================================================
