----------------------------- MODULE Trace_Mono -----------------------------
(* Validation of traces recorded by drivers/mono.cpp: contents of all         *)
(* registers after every call, and everything that can be observed of one.   *)
EXTENDS TraceBase, Monos

TraceU == Header.gens
TraceMRegs == 1..Header.nr
Ev == Trace[lineNo]
Logged == mv' = Ev.ms

Act ==
  \/ Is("new") /\ New(Ev.r, Ev.w)
  \/ Is("copy") /\ CopyM(Ev.r, Ev.a)
  \/ Is("move") /\ MoveM(Ev.r, Ev.a)
  \/ Is("swap") /\ SwapM(Ev.r, Ev.a)
  \/ Is("app") /\ AppendG(Ev.r, Ev.g)
  \/ Is("appm") /\ AppendM(Ev.r, Ev.a)
  \/ Is("appr") /\ AppendR(Ev.r, Ev.a, Ev.i, Ev.j)
  \/ Is("cat") /\ Concat(Ev.r, Ev.p)
  \/ Is("swg") /\ SwapG(Ev.r, Ev.i, Ev.j)
  \/ Is("obs") /\ UNCHANGED mv
       /\ (LET w == mv[Ev.r]
           IN /\ Ev.fwd = w
              /\ Ev.bwd = ReverseM(w)
              /\ Ev.idx = w          \* element access
              /\ Ev.ran = w          \* random access through iterators
              /\ Ev.size = Len(w)
              /\ Ev.empty = (w = <<>>)
              /\ Ev.ord = Sorted(w)
              /\ Ev.cmp = CmpM(Ev.r, Ev.a)
              /\ Ev.txt = TextM(Ev.r)
              /\ Ev.its) = TRUE      \* order and distances of iterators
  \/ Is("gens") /\ UNCHANGED mv
       /\ (Ev.txt = GTexts) = TRUE

Init == LInit /\ MInit
Next == More /\ Step /\ Act /\ Logged
Spec == Init /\ [][Next]_<<lineNo, mv>>
=============================================================================
