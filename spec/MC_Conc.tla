------------------------------- MODULE MC_Conc -------------------------------
(* How calls are executed: a call goes through the items of a shared object, *)
(* stores what it finds in a work cell, enters user code - where the other   *)
(* threads go on, or another call is made -, and takes the cell's contents   *)
(* up again. If each call has work cells of its own, this refines Conc. It   *)
(* does not if work cells belong to the class, to the thread or if what has  *)
(* been found is remembered in the object (`Kind`); TLC shows the            *)
(* interleavings that reveal it, which makes sure that those examined here   *)
(* are those that matter. Complete executions are the schedules given to     *)
(* the real code.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Kind,      \* "own", "class", "thread", "memo"
          NT, NC, NI,\* numbers of threads, calls of each of them, items
          Depth,     \* of nested calls
          Nested,    \* number of nested calls in an execution
          Record     \* whether the schedule is recorded

Threads == 0 .. NT - 1
Item(c, i) == c * 10 + i * i
RECURSIVE Total(_, _)
Total(c, i) == IF i = 0 THEN 0 ELSE Item(c, i) + Total(c, i - 1)

VARIABLES fr,        \* thread -> stack of frames [c, i, ph, acc, cell]
          todo,      \* thread -> number of calls still to be made
          nest,      \* number of nested calls still to be made
          shared,    \* the cell of the class
          own,       \* thread -> the thread's cell
          memo,      \* [key, v], remembered by the object
          res,       \* values returned
          hist       \* the schedule
vars == <<fr, todo, nest, shared, own, memo, res, hist>>

Init == /\ fr = [t \in Threads |-> <<>>]
        /\ todo = [t \in Threads |-> NC]
        /\ nest = Nested
        /\ shared = 0 /\ own = [t \in Threads |-> 0]
        /\ memo = [key |-> <<>>, v |-> 0]
        /\ res = {} /\ hist = <<>>

Log(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
New(c) == [c |-> c, i |-> 1, ph |-> "find", acc |-> 0, cell |-> 0]
Top(t) == fr[t][Len(fr[t])]
SetTop(t, f) == fr' = [fr EXCEPT ![t] = [@ EXCEPT ![Len(@)] = f]]

Start(t) == /\ fr[t] = <<>> /\ todo[t] > 0
            /\ \E c \in 1 .. 2 : fr' = [fr EXCEPT ![t] = <<New(c)>>]
            /\ todo' = [todo EXCEPT ![t] = @ - 1]
            /\ Log(t) /\ UNCHANGED <<nest, shared, own, memo, res>>
\* in user code
Nest(t) == /\ fr[t] # <<>> /\ Top(t).ph = "user" /\ Len(fr[t]) < Depth /\ nest > 0
           /\ \E c \in 1 .. 2 : fr' = [fr EXCEPT ![t] = Append(@, New(c))]
           /\ nest' = nest - 1
           /\ Log(-1 - t) /\ UNCHANGED <<todo, shared, own, memo, res>>
Find(t) ==
  /\ fr[t] # <<>> /\ Top(t).ph = "find" /\ Top(t).i <= NI
  /\ LET f == Top(t)
         known == Kind = "memo" /\ memo.key = <<f.c, f.i>>
         v == IF known THEN memo.v ELSE Item(f.c, f.i)
     IN /\ SetTop(t, [f EXCEPT !.ph = IF Kind = "memo" /\ ~known THEN "keep" ELSE "user", !.cell = v])
        /\ shared' = IF Kind = "class" THEN v ELSE shared
        /\ own' = IF Kind = "thread" THEN [own EXCEPT ![t] = v] ELSE own
        /\ memo' = IF Kind = "memo" /\ ~known THEN [memo EXCEPT !.key = <<f.c, f.i>>] ELSE memo
  /\ Log(t) /\ UNCHANGED <<todo, nest, res>>
\* the value is remembered after its key
Keep(t) == /\ fr[t] # <<>> /\ Top(t).ph = "keep"
           /\ memo' = [memo EXCEPT !.v = Top(t).cell]
           /\ SetTop(t, [Top(t) EXCEPT !.ph = "user"])
           /\ Log(t) /\ UNCHANGED <<todo, nest, shared, own, res>>
TakeUp(t) ==
  /\ fr[t] # <<>> /\ Top(t).ph = "user"
  /\ LET f == Top(t)
         v == CASE Kind = "class" -> shared [] Kind = "thread" -> own[t] [] OTHER -> f.cell
     IN SetTop(t, [f EXCEPT !.ph = "find", !.i = @ + 1, !.acc = @ + v])
  /\ Log(t) /\ UNCHANGED <<todo, nest, shared, own, memo, res>>
Ret(t) == /\ fr[t] # <<>> /\ Top(t).ph = "find" /\ Top(t).i > NI
          /\ res' = res \cup {<<Top(t).c, Top(t).acc>>}
          /\ fr' = [fr EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
          /\ Log(t) /\ UNCHANGED <<todo, nest, shared, own, memo>>
Next == \E t \in Threads : Start(t) \/ Nest(t) \/ Find(t) \/ Keep(t) \/ TakeUp(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the execution is one of Conc
Names(s) == [k \in DOMAIN s |-> s[k].c]
A == INSTANCE Conc WITH pending <- [t \in Threads |-> Names(fr[t])], val <- res
ANext == \/ \E t \in Threads : \E c \in 1 .. 2 : A!StartCall(t, c)
         \/ \E t \in Threads : fr[t] # <<>> /\ A!EndCall(t, Top(t).c, Top(t).acc)
Refines == A!CInit(Threads) /\ [][ANext]_(A!cvars)
\* calls return what they return alone
Alone == \A p \in res : p[2] = Total(p[1], NI)
Done == (\A t \in Threads : fr[t] = <<>> /\ todo[t] = 0)
Ends == <>Done
Emit == ~Done \/ PrintT("TRACE " \o ToJson([p |-> hist]))
=============================================================================
