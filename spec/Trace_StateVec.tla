--------------------------- MODULE Trace_StateVec ----------------------------
(* Validation of histories recorded by drivers/svec.cpp                      *)
EXTENDS TraceBase, StateVec
TraceVRegs == 1..Len(Header.kinds)
TraceSparse == {r \in TraceVRegs : Header.kinds[r] = "sparse"}
TraceSize == Header.n
tvars == <<lineNo, vvars>>
Ev == Trace[lineNo]
\* the target after the operation: every element, the elements iterated over,
\* number of stored elements, length
Same(f, Z) == Len(f) = Cardinality(Z) /\ {<<f[k][1], f[k][2]>> : k \in DOMAIN f} = Z
Obs == (LET r == Ev.t
        IN /\ \A i \in Pos : Ev.g[i + 1] = val'[r][i]
           /\ Same(Ev.f, {<<i, val'[r][i]>> : i \in (IF r \in SparseRegs THEN stored'[r] ELSE Support(val'[r]))})
           /\ Ev.n = IF r \in SparseRegs THEN Cardinality(stored'[r]) ELSE Size
           /\ Ev.sz = Size
           /\ Ev.ok) = TRUE
Next == /\ More /\ Step
        /\ \/ Is("upd") /\ Update(Ev.t, Ev.i, Ev.c)
           \/ Is("tiny") /\ UpdateTiny(Ev.t, Ev.i)
           \/ Is("ref") /\ UpdateRef(Ev.t, Ev.i, Ev.j)
           \/ Is("set") /\ Assign(Ev.t, Ev.i, Ev.c)
           \/ Is("touch") /\ Touch(Ev.t, Ev.i)
           \/ Is("zero") /\ SetZeros(Ev.t)
           \/ Is("prune") /\ Prune(Ev.t)
           \/ Is("prunep") /\ PruneIf(Ev.t, Ev.c)
           \/ (Is("copy") \/ Is("move")) /\ CopyV(Ev.t, Ev.a)
           \/ Is("like") /\ UNCHANGED vvars
        /\ Obs
Init == LInit /\ VInit
Spec == Init /\ [][Next]_tvars
=============================================================================
