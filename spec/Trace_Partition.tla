--------------------------- MODULE Trace_Partition ---------------------------
(* Validation of histories recorded by drivers/part.cpp: partitions of the    *)
(* basis of the current space by operators, merges, connections. A basis      *)
(* state is named by its position in the list `st` of the event.              *)
EXTENDS TraceBase, LinOp, Partition

TraceES == Header.es
TraceGns == Header.gens
TraceActs == Header.acts

VARIABLES lay, oper, parts
tvars == <<lineNo, lay, oper, parts>>
Ev == Trace[lineNo]
Range0(s) == {s[k] : k \in DOMAIN s}

EHs == /\ Is("hs")
       /\ lay' = Layout(Range0(Ev.l))
       /\ (Ev.es = lay'.o) = TRUE
       /\ oper' = <<>> /\ parts' = <<>>
EOp == Is("op") /\ oper' = (Ev.t :> TLCEval(Effective(lay, {Fermion, Boson, Spin}, Ev.p))) @@ oper
       /\ UNCHANGED <<lay, parts>>

\* matrix elements <<to, from, value>> of an operator between listed states
Matrix(st, p) ==
  LET at == TLCEval([d \in Range0(st) |-> CHOOSE k \in DOMAIN st : st[k] = d])
  IN UNION {{<<at[z[1]], j, z[2]>> : z \in Image(lay, p, <<<<st[j], COne>>>>)} : j \in DOMAIN st}
Rel(M) == {<<x[2], x[1]>> : x \in M}
SameSet(s, Z) == Len(s) = Cardinality(Z) /\ Range0(s) = Z
\* the listed states are physical, each once, all of them if the whole space is
\* partitioned
StatesOk(st, all) == /\ Cardinality(Range0(st)) = Len(st)
                     /\ \A k \in DOMAIN st : \A q \in DOMAIN lay.dim : st[k][q] \in 0..(lay.dim[q] - 1)
                     /\ all => Range0(st) = States(lay)
\* what a partition reports
Shown(P, o) ==
  LET S == DOMAIN P
  IN /\ o.n = Cardinality(Classes(P))
     /\ Len(o.of) = Cardinality(S)
     /\ {o.of[x] : x \in S} = 0..(o.n - 1)
     /\ \A x, y \in S : (o.of[x] = o.of[y]) = (P[x] = P[y])
     /\ o.fe = o.of
     /\ Len(o.bases) = o.n
     /\ \A k \in 1..o.n : SameSet(o.bases[k], {x \in S : o.of[x] = k - 1})
     /\ Len(o.basis) = o.n
     /\ \A k \in 1..o.n : SameSet(o.basis[k], {x \in S : o.of[x] = k - 1})
     /\ \A k \in DOMAIN o.ref : o.ref[k] = "refused"
Put(r, x) == parts' = (r :> x) @@ parts /\ UNCHANGED <<lay, oper>>
EPart ==
  /\ Is("part")
  /\ StatesOk(Ev.st, Ev.all) = TRUE
  /\ LET M == TLCEval(Matrix(Ev.st, oper[Ev.t]))
         P == TLCEval(Components(Len(Ev.st), Rel(M)))
     IN /\ Put(Ev.r, [st |-> Ev.st, P |-> P, of |-> Ev.o.of])
        /\ (/\ Shown(P, Ev.o)
            /\ Ev.o.dim = IF Ev.all THEN Cardinality(States(lay)) ELSE Len(Ev.st)
            /\ Ev.m => SameSet(Ev.me, M)) = TRUE
EMerge ==
  /\ Is("merge")
  /\ LET x == parts[Ev.r]
         M1 == TLCEval(Matrix(x.st, oper[Ev.cd]))
         M2 == TLCEval(Matrix(x.st, oper[Ev.c]))
         P == TLCEval(Merge(x.P, Rel(M1), Rel(M2)))
     IN /\ Put(Ev.r, [x EXCEPT !.P = P, !.of = Ev.o.of])
        /\ (/\ Rel(M1) = Converse(Rel(M2))
            /\ OneToOne(P, Rel(M1))
            /\ Shown(P, Ev.o)
            /\ SameSet(Ev.me1, IF Ev.m THEN M1 ELSE {})
            /\ SameSet(Ev.me2, IF Ev.m THEN M2 ELSE {})) = TRUE
EConn ==
  /\ Is("conn") /\ UNCHANGED <<lay, oper, parts>>
  /\ (LET x == parts[Ev.r]
      IN SameSet(Ev.conn, {<<x.of[e[1]], x.of[e[2]]>> : e \in Rel(Matrix(x.st, oper[Ev.t]))})) = TRUE
\* a copy shows the same and is independent
ECopy == Is("pcopy") /\ Put(Ev.r, parts[Ev.a]) /\ (Shown(parts[Ev.a].P, Ev.o) /\ Ev.o.of = parts[Ev.a].of) = TRUE

Init == LInit /\ lay = <<>> /\ oper = <<>> /\ parts = <<>>
Next == More /\ Step /\ (EHs \/ EOp \/ EPart \/ EMerge \/ EConn \/ ECopy)
Spec == Init /\ [][Next]_tvars
=============================================================================
