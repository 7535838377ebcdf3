------------------------------- MODULE StateVec ------------------------------
(* State vectors as storage: registers of the same length, holding amplitudes *)
(* at the positions 0..N-1. A register is sparse or not. A sparse one knows   *)
(* its stored positions: those of non-zero amplitudes and those which have    *)
(* been accessed by operator[] (until they are updated or pruned).            *)
EXTENDS Num, FiniteSets

CONSTANTS VRegs, SparseRegs, Size
VARIABLES val, stored
vvars == <<val, stored>>
Pos == 0..(Size - 1)
Zeros == [i \in Pos |-> CZero]
Support(v) == {i \in Pos : ~IsZ(v[i])}
VInit == val = [r \in VRegs |-> Zeros] /\ stored = [r \in VRegs |-> {}]

Set(r, v, s) == val' = [val EXCEPT ![r] = v] /\ stored' = [stored EXCEPT ![r] = s]
Drop(r, v) == {i \in stored[r] : ~IsZ(v[i])}
\* update_add_element
Update(r, i, c) ==
  LET v == [val[r] EXCEPT ![i] = CAdd(val[r][i], c)]
      s == IF i \in stored[r] THEN IF IsZ(v[i]) THEN stored[r] \ {i} ELSE stored[r]
           ELSE IF IsZ(c) THEN stored[r] ELSE stored[r] \cup {i}
  IN Set(r, v, s)
\* a contribution within the tolerance of the scalar type is none
UpdateTiny(r, i) == Update(r, i, CZero)
\* the value added is a reference to an element of the same vector
UpdateRef(r, i, j) == Update(r, i, val[r][j])
\* v[i] = c, v[i]
Assign(r, i, c) == Set(r, [val[r] EXCEPT ![i] = c], stored[r] \cup {i})
Touch(r, i) == Set(r, val[r], stored[r] \cup {i})
SetZeros(r) == Set(r, Zeros, {})
\* removal of explicit zeros, of amplitudes equal to c
Prune(r) == r \in SparseRegs /\ Set(r, val[r], Drop(r, val[r]))
PruneIf(r, c) == /\ r \in SparseRegs
                 /\ Set(r, [i \in Pos |-> IF i \in stored[r] /\ val[r][i] = c THEN CZero ELSE val[r][i]],
                        {i \in stored[r] : val[r][i] # c})
\* between registers of the same kind
CopyV(t, a) == Set(t, val[a], stored[a])

\* what a register shows: all elements, those iterated over, their number
Shown(r) == IF r \in SparseRegs THEN stored[r] ELSE Support(val[r])
\* amplitudes outside of the stored positions vanish
StoredOk == \A r \in VRegs : Support(val[r]) \subseteq stored[r]
=============================================================================
