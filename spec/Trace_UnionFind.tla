--------------------------- MODULE Trace_UnionFind ---------------------------
(* Validation of histories recorded by drivers/ufind.cpp. After every step    *)
(* the representatives of all elements are read from a copy, so that the      *)
(* observation changes nothing.                                               *)
EXTENDS TraceBase, UnionFind
tvars == <<lineNo, uvars>>
Ev == Trace[lineNo]
Obs == (/\ Ev.q = root' /\ Ev.n = Cardinality({Ev.q[k] : k \in DOMAIN Ev.q})
        /\ Ev.sz = Len(root')) = TRUE
Next == /\ More /\ Step
        /\ \/ Is("new") /\ root' = [k \in 1..Ev.k |-> k - 1] /\ flat' = TRUE
           \/ Is("makes") /\ MakeSets(Ev.k) /\ Ev.r = (IF Ev.one THEN Len(root) ELSE -1)
           \/ Is("find") /\ Find(Ev.x, Ev.r)
           \/ Is("same") /\ InSame(Ev.x, Ev.y, Ev.r)
           \/ Is("union") /\ Union(Ev.x, Ev.y, Ev.r)
           \/ Is("compress") /\ Compress(Ev.q)
           \/ Is("normalize") /\ Normalize(Ev.q)
        /\ Obs
Init == LInit /\ root = <<>> /\ flat = TRUE
Spec == Init /\ [][Next]_tvars
=============================================================================
