------------------------------- MODULE HSpace --------------------------------
(* Histories of Hilbert space objects: construction, insertion (also refused),*)
(* copies and moves. What an object holds is described in Spaces.            *)
EXTENDS Spaces

(* The machine: registers holding spaces. `moved` registers have been moved  *)
(* from; they can only be assigned to.                                       *)
CONSTANT HRegs
VARIABLES hs, moved
hvars == <<hs, moved>>
HInit == hs = [r \in HRegs |-> {}] /\ moved = {}
Live(r) == r \notin moved
PutH(t, S) == hs' = [hs EXCEPT ![t] = S] /\ moved' = moved \ {t}
\* construction from a sequence of spaces, insertion
CanMake(s) == /\ \A j, k \in DOMAIN s : j # k => ~SameEs(s[j], s[k])
              /\ TotalBits({s[k] : k \in DOMAIN s}) <= MaxBits
Make(t, s) == CanMake(s) /\ PutH(t, {s[k] : k \in DOMAIN s})
CanAdd(t, k) == MemberFor(hs[t], k) = {} /\ TotalBits(hs[t] \cup {k}) <= MaxBits
AddH(t, k) == Live(t) /\ CanAdd(t, k) /\ PutH(t, hs[t] \cup {k})
\* refused operations change nothing
MakeExists(s) == \E j, k \in DOMAIN s : j # k /\ SameEs(s[j], s[k])
MakeTooBig(s) == FoldSet(LAMBDA k, acc: acc + EsBits[s[k]], 0, DOMAIN s) > MaxBits
AddExists(t, k) == MemberFor(hs[t], k) # {}
AddTooBig(t, k) == MemberFor(hs[t], k) = {} /\ TotalBits(hs[t] \cup {k}) > MaxBits
Refuse == UNCHANGED hvars
CopyH(t, a) == Live(a) /\ PutH(t, hs[a])
MoveH(t, a) == /\ Live(a)
               /\ t # a
               /\ hs' = [hs EXCEPT ![t] = hs[a], ![a] = {}]
               /\ moved' = (moved \cup {a}) \ {t}
=============================================================================
