----------------------------- MODULE Trace_LinOp -----------------------------
(* Validation of traces recorded by drivers/linop.cpp and its relatives: the *)
(* state is the current Hilbert space's layout and the operators made so far *)
EXTENDS TraceBase, LinOp

TraceES == Header.es
TraceGns == Header.gens
TraceActs == Header.acts

VARIABLES lay, oper
tvars == <<lineNo, lay, oper>>
Ev == Trace[lineNo]
Range0(s) == {s[k] : k \in DOMAIN s}

\* a new space; operators of the old one are forgotten
EHs == /\ Is("hs")
       /\ lay' = Layout(Range0(Ev.l))
       /\ (Ev.es = lay'.o) = TRUE
       /\ oper' = <<>>

\* operators: the expression is the one the object has been made from
EOp ==
  /\ Is("op")
  /\ lay' = lay
  /\ (LET A == Range0(Ev.al)
      IN CASE Ev.x[1] = "" ->
                \A k \in DOMAIN Ev.p : \/ Missing(lay, A, Ev.p[k][2]) = {}
                                       \/ Hopeless(lay, Ev.p[k][2])
           [] Ev.x[1] = "unknown" -> \E k \in DOMAIN Ev.p : Ev.x[2] \in Missing(lay, A, Ev.p[k][2])
           [] OTHER -> FALSE) = TRUE
  /\ oper' = IF Ev.x[1] = ""
             THEN (Ev.t :> TLCEval(Effective(lay, Range0(Ev.al), Ev.p))) @@ oper
             ELSE oper
\* copies, moves, assignments of operators
ECopyOp == Is("copyop") /\ lay' = lay /\ oper' = (Ev.t :> oper[Ev.a]) @@ oper

\* the reported amplitudes are those of the image, each listed once
Same(r, Z) == /\ Len(r) = Cardinality(Z)
              /\ {<<r[k][1], r[k][2]>> : k \in DOMAIN r} = Z
EAct ==
  /\ Is("act") /\ UNCHANGED <<lay, oper>>
  /\ (\A k \in DOMAIN Ev.s : Same(Ev.r[k], Image(lay, oper[Ev.t], Ev.s[k]))) = TRUE

\* parametric operators; coefficients that have been stored by the call are
\* those of the terms, in any order
EPop == /\ Is("pop") /\ lay' = lay
        /\ oper' = (Ev.t :> TLCEval(Effective(lay, {Fermion, Boson, Spin}, Ev.p))) @@ oper
Count(s, v) == Cardinality({k \in DOMAIN s : s[k] = v})
EPact ==
  /\ Is("pact") /\ UNCHANGED <<lay, oper>>
  /\ (LET p == TLCEval(AtArgs(oper[Ev.t], Ev.x, Ev.y))
          c == [k \in DOMAIN p |-> p[k][1]]
      IN /\ Same(Ev.r, Image(lay, p, Ev.s))
         /\ Ev.sd => /\ Len(Ev.st) >= Len(c)
                     /\ \A k \in DOMAIN c : Count(Ev.st, c[k]) >= Count(c, c[k])) = TRUE

Init == LInit /\ lay = <<>> /\ oper = <<>>
Next == More /\ Step /\ (EHs \/ EOp \/ ECopyOp \/ EAct \/ EPop \/ EPact)
Spec == Init /\ [][Next]_tvars
=============================================================================
