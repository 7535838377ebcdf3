------------------------------ MODULE Trace_View -----------------------------
(* Validation of histories recorded by drivers/view.cpp                      *)
EXTENDS TraceBase, Views

TraceES == Header.es
TraceGns == Header.gens
TraceActs == Header.acts

VARIABLES lay, oper, dom      \* dom: states of the last sector, space or mapping
tvars == <<lineNo, lay, oper, dom, wvars>>
Ev == Trace[lineNo]
Range0(s) == {s[k] : k \in DOMAIN s}
Distinct(s) == Cardinality(Range0(s)) = Len(s)

EHs == /\ Is("hs")
       /\ lay' = Layout(Range0(Ev.l))
       /\ (Ev.es = lay'.o) = TRUE
       /\ oper' = <<>> /\ dom' = <<>> /\ cell' = <<>> /\ view' = <<>>
EOp == Is("op") /\ oper' = (Ev.t :> TLCEval(Effective(lay, {Fermion, Boson, Spin}, Ev.p))) @@ oper
       /\ UNCHANGED <<lay, dom, wvars>>

-----------------------------------------------------------------------------
\* sectors: [the numbers of declared spaces], number of particles
Where(k) == {q \in DOMAIN lay.o : SameEs(lay.o[q], k)}
SecOf(s) == TLCEval([k \in DOMAIN s |-> [q |-> UNION {Where(j) : j \in Range0(s[k][1])}, n |-> s[k][2]]])
Secs == IF Ev.k = "nfs" THEN <<[q |-> Fermions(lay), n |-> Ev.n]>> ELSE SecOf(Ev.s)
\* invalid descriptions of multisectors
Unknown(s) == \E k \in DOMAIN s : \E j \in Range0(s[k][1]) : Where(j) = {}
Overlap(s) == \E j, k \in DOMAIN s : j # k /\ \E a \in Range0(s[j][1]), b \in Range0(s[k][1]) : SameEs(a, b)
Invalid == Ev.k = "nfms" /\ (Unknown(Ev.s) \/ Overlap(Ev.s))
Refused == SparseL(lay) \/ Invalid

Identity(n) == [k \in 1..n |-> k - 1]
\* size, list and translation. The number of states is the specified one and
\* the states are different members: the list is complete
ESector ==
  /\ Is("sector") /\ UNCHANGED <<lay, oper, wvars>>
  /\ (IF Refused THEN Ev.x = <<"runtime", "runtime", "runtime">>
      ELSE IF Overfull(Secs) THEN Ev.x = <<"", "runtime", "runtime">> /\ Ev.size = <<>>
      ELSE LET S == Secs
               n == Len(Ev.st)
           IN /\ Ev.x = <<"", "", "">>
              /\ Ev.size = SectorSize(lay, S)
              /\ Ev.size = WOf(n)
              /\ Distinct(Ev.st)
              /\ \A k \in 1..n : InSectors(lay, S, Ev.st[k])
              /\ \A m \in DOMAIN Ev.maps : Ev.maps[m][2] = Identity(n)) = TRUE
  /\ dom' = Ev.st
\* compressed views
EComp ==
  /\ Is("comp") /\ UNCHANGED <<lay, oper, wvars>>
  /\ (LET n == Len(Ev.st)
      IN /\ WOf(n) = DimOf(AllSpaces(lay))
         /\ Distinct(Ev.st)
         /\ \A k \in 1..n : PhysicalD(lay, Ev.st[k])
         /\ \A m \in DOMAIN Ev.maps : /\ Len(Ev.maps[m][2]) = n
                                      /\ Range0(Ev.maps[m][2]) = 0..(n - 1)
                                      /\ Ev.maps[m][2] = Ev.maps[1][2]) = TRUE
  /\ dom' = LET f == TLCEval([p \in 1..Len(Ev.st) |-> CHOOSE k \in DOMAIN Ev.st : Ev.maps[1][2][k] = p - 1])
            IN [p \in 1..Len(Ev.st) |-> Ev.st[f[p]]]
\* mappings: `map` and `inv` list pairs <<state, position>>
EMap ==
  /\ Is("map") /\ UNCHANGED <<lay, oper, wvars>>
  /\ LET n == Len(Ev.map)
     IN /\ (/\ Ev.size = n
            /\ Len(Ev.inv) = n /\ Range0(Ev.inv) = Range0(Ev.map)
            /\ Distinct([k \in 1..n |-> Ev.map[k][1]])
            /\ {Ev.map[k][2] : k \in 1..n} = 0..(n - 1)
            /\ CASE Ev.k = "list" -> \A k \in 1..n : Ev.map[k][1] = Ev.st[Ev.map[k][2] + 1]
                 [] Ev.k = "op" -> {Ev.map[k][1] : k \in 1..n} = Contributing(lay, oper[Ev.ts[1]])
                 [] Ev.k = "comps" ->
                    {Ev.map[k][1] : k \in 1..n} =
                      IF Ev.n = 0 \/ Ev.ts = <<>> THEN {Vacuum(lay)[1][1]}
                      ELSE Compositions(lay, [j \in DOMAIN Ev.ts |-> oper[Ev.ts[j]]], Ev.n)) = TRUE
        /\ dom' = LET f == TLCEval([p \in 1..n |-> CHOOSE k \in 1..n : Ev.map[k][2] = p - 1])
                  IN [p \in 1..n |-> Ev.map[f[p]][1]]

-----------------------------------------------------------------------------
\* large sectors and spaces: the states that an iteration reports first with
\* their positions, some of the list of all states (if there is one) with their
\* positions, other states; translations of all of these. `bad` counts
\* listed states which are not translated to their positions
\*
\* A bijection takes states drawn uniformly to positions distributed uniformly:
\* with 150 of them a quarter of all positions remains empty with a probability
\* below 10^-17
Spread(r, size) ==
  LET four == TLCEval([k \in DOMAIN r |-> WMul(WOf(4), r[k])])
  IN \A k \in 0..3 : LET lo == TLCEval(WMul(WOf(k), size))
                         hi == TLCEval(WMul(WOf(k + 1), size))
                     IN \E j \in DOMAIN four : WCmp(four[j], lo) >= 0 /\ WCmp(four[j], hi) < 0
ESome ==
  /\ Is("some") /\ UNCHANGED <<lay, oper, dom, wvars>>
  /\ (LET S == IF Ev.k = "comp" THEN <<>> ELSE Secs
          all == TLCEval([k \in DOMAIN Ev.pre |-> Ev.pre[k][1]] \o Ev.sm
                 \o [k \in DOMAIN Ev.li |-> Ev.li[k][1]])
          np == Len(Ev.pre)
          ns == np + Len(Ev.sm)
          size == TLCEval(IF Ev.k = "comp" THEN DimOf(AllSpaces(lay)) ELSE SectorSize(lay, S))
          r == Ev.maps[1][2]
      IN /\ Ev.size = size
         /\ Ev.len \in {<<>>, size}
         /\ \A k \in DOMAIN Ev.bad : Ev.bad[k][2] = 0
         /\ \A k \in DOMAIN all : InSectors(lay, S, all[k])
         /\ Distinct([k \in DOMAIN Ev.pre |-> Ev.pre[k][1]])
         /\ \A k \in 1..np : Ev.pre[k][2] = r[k]
         /\ {Ev.pre[k][2] : k \in 1..np} = {WOf(k - 1) : k \in 1..np}
         /\ \A k \in DOMAIN Ev.li : Ev.li[k][2] = r[ns + k]
         /\ Len(r) = Len(all)
         /\ \A k \in DOMAIN r : WCmp(r[k], size) = -1
         /\ Cardinality(Range0(r)) = Cardinality(Range0(all))
         /\ Cardinality(Range0(r)) = Cardinality({<<all[k], r[k]>> : k \in DOMAIN r})
         /\ \A m \in DOMAIN Ev.maps : Ev.maps[m][2] = r
         /\ Ev.spread => Spread(r, size)) = TRUE

-----------------------------------------------------------------------------
\* views as machines. After every step all cells are read directly; the view
\* in question is read at all its states and iterated over
SameSet(s, Z) == Len(s) = Cardinality(Z) /\ Range0(s) = Z
RawOk == /\ Len(Ev.raw) = Cardinality(DOMAIN cell')
         /\ \A k \in DOMAIN Ev.raw : cell'[Ev.raw[k][1]] = Ev.raw[k][2]
ShowOk(v) == LET w == view'[v]
             IN /\ Ev.get = cell'[w.c]
                /\ SameSet(Ev.fe, {<<w.st[p], cell'[w.c][p]>> :
                                     p \in {k \in DOMAIN w.st : ~IsZ(cell'[w.c][k])}})
Obs == (RawOk /\ (Ev.v # 0 => ShowOk(Ev.v))) = TRUE
ECell == Is("cell") /\ NewCell(Ev.c, Ev.x) /\ UNCHANGED <<lay, oper, dom>> /\ Obs
EWrite == Is("write") /\ Write(Ev.c, Ev.p + 1, Ev.x) /\ UNCHANGED <<lay, oper, dom>> /\ Obs
EView == /\ Is("view") /\ UNCHANGED <<lay, oper, dom>>
         /\ IF Ev.own = 0 THEN NewView(Ev.v, Ev.c, dom) ELSE NewOwner(Ev.v, Ev.c, Ev.own, dom)
         /\ Obs
EVCopy == /\ Is("vcopy") /\ UNCHANGED <<lay, oper, dom>>
          /\ IF Ev.own = 0 THEN CopyView(Ev.v, Ev.a) ELSE CopyOwner(Ev.v, Ev.a, Ev.own)
          /\ Obs
EUpd == Is("upd") /\ UpdateV(Ev.v, Ev.d, Ev.x) /\ UNCHANGED <<lay, oper, dom>> /\ Obs
EZero == Is("zero") /\ ZeroV(Ev.v) /\ UNCHANGED <<lay, oper, dom>> /\ Obs
ELook == Is("look") /\ UNCHANGED <<lay, oper, dom, wvars>> /\ Obs
\* an iteration inside of another one, one that is broken off
ENest == /\ Is("nest") /\ UNCHANGED <<lay, oper, dom, wvars>> /\ Obs
         /\ (LET Z == TLCEval(ShownV(Ev.v))
             IN SameSet(Ev.outer, Z) /\ \A k \in DOMAIN Ev.inner : SameSet(Ev.inner[k], Z)) = TRUE
EBreak == /\ Is("break") /\ UNCHANGED <<lay, oper, dom, wvars>> /\ Obs
          /\ (LET Z == TLCEval(ShownV(Ev.v))
              IN /\ Distinct(Ev.some) /\ Range0(Ev.some) \subseteq Z
                 /\ Len(Ev.some) = IF Ev.n < Cardinality(Z) THEN Ev.n ELSE Cardinality(Z)) = TRUE
\* states that are not mapped
EOut == /\ Is("out") /\ UNCHANGED <<lay, oper, dom, wvars>> /\ Obs
        /\ (Ev.d \notin Range0(view[Ev.v].st) /\ \A k \in DOMAIN Ev.x : Ev.x[k] = "out_of_range") = TRUE

Init == LInit /\ lay = <<>> /\ oper = <<>> /\ dom = <<>> /\ WInit
Next == More /\ Step /\ (EHs \/ EOp \/ ESector \/ EComp \/ EMap \/ ESome \/ ECell \/ EWrite \/ EView
                         \/ EVCopy \/ EUpd \/ EZero \/ ELook \/ ENest \/ EBreak \/ EOut)
Spec == Init /\ [][Next]_tvars
=============================================================================
