----------------------------- MODULE Trace_Order -----------------------------
(* Validation of tables recorded by drivers/order.cpp: each comparison       *)
(* operator yields the value determined by the documented order.             *)
EXTENDS TraceBase, Gens

Ev == Trace[lineNo]
\* flags: 1 equal, 2 not equal, 4 less, 8 greater
Flags(c) == CASE c = 0 -> 1 [] c < 0 -> 6 [] c > 0 -> 10
Expand(w) == [k \in DOMAIN w |-> Header.g[w[k]]]
Items(k) == CASE k = "g" -> Header.g
              [] k = "s" -> Header.s
              [] k = "x" -> Header.x
              [] k = "m" -> Header.m
Cmp(k, a, b) == CASE k = "g" -> GenCmp(a, b)
                  [] k = "s" -> EsCmp(a, b)
                  [] k = "x" -> IdxCmp(a, b)
                  [] k = "m" -> MonCmp(Expand(a), Expand(b))
Row == /\ Is("row")
       /\ (LET it == Items(Ev.k)
           IN /\ Len(Ev.r) = Len(it)
              /\ \A j \in DOMAIN it : Ev.r[j] = Flags(Cmp(Ev.k, it[Ev.n], it[j]))) = TRUE
Ordered == /\ Is("ordered")
           /\ (LET m == Expand(Header.m[Ev.n])
               IN Ev.v = \A k \in 1..(Len(m) - 1) : GenCmp(m[k], m[k + 1]) <= 0) = TRUE
Init == LInit
Next == More /\ Step /\ (Row \/ Ordered)
Spec == Init /\ [][Next]_lineNo
=============================================================================
