-------------------------------- MODULE Conc --------------------------------
(* Calls that read shared objects. A call is a name of an operation together *)
(* with its arguments; threads have stacks of pending calls, because user    *)
(* code which the library runs (callbacks, arithmetic of scalar types,       *)
(* comparison of indices, state vectors) may make further calls. As long as  *)
(* nothing modifies the objects each call has one value - however calls are  *)
(* interleaved or nested.                                                    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES pending,   \* thread -> stack of calls
          val        \* the values calls have returned: pairs <<call, value>>
cvars == <<pending, val>>

CInit(T) == pending = [t \in T |-> <<>>] /\ val = {}
StartCall(t, c) ==
  /\ pending' = [pending EXCEPT ![t] = Append(@, c)]
  /\ val' = val
EndCall(t, c, v) ==
  LET n == Len(pending[t])
  IN /\ n > 0 /\ pending[t][n] = c
     /\ pending' = [pending EXCEPT ![t] = SubSeq(@, 1, n - 1)]
     /\ \A p \in val : p[1] = c => p[2] = v
     /\ val' = val \cup {<<c, v>>}
\* other objects
NewObjects == /\ \A t \in DOMAIN pending : pending[t] = <<>>
              /\ pending' = pending
              /\ val' = {}
=============================================================================
