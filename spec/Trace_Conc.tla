----------------------------- MODULE Trace_Conc -----------------------------
(* Validation of traces recorded by drivers/conc.cpp: events are beginnings  *)
(* and ends of calls with their results as texts                             *)
EXTENDS TraceBase, Conc

tvars == <<lineNo, pending, val>>
Ev == Trace[lineNo]

EWorld == Is("world") /\ NewObjects
EStart == Is("start") /\ StartCall(Ev.t, Ev.k)
ERet == Is("ret") /\ EndCall(Ev.t, Ev.k, Ev.r)
ESwitches == Is("switches") /\ UNCHANGED cvars

Init == LInit /\ CInit(0 .. 7)
Next == More /\ Step /\ (EWorld \/ EStart \/ ERet \/ ESwitches)
Spec == Init /\ [][Next]_tvars
=============================================================================
