------------------------------- MODULE MC_Views ------------------------------
(* (1) The sizes of sectors given by Views are the numbers of their members,  *)
(*     for all decompositions of up to MaxM modes into two sectors and a rest.*)
(* (2) The machine of views on its own: a view shows what has been written    *)
(*     through any view of its cell and nothing else (shadow memory of the    *)
(*     last write per cell and state). Views of the same cell agree.          *)
(* (3) Histories for the drivers.                                            *)
EXTENDS Views, Json

CONSTANTS MaxM, Steps, NV
MES == [k \in 1..6 |-> [a |-> Fermion, m |-> 0, dim |-> <<2>>, i |-> <<<<0, k>>>>]]
       \o <<[a |-> Spin, m |-> 2, dim |-> <<2>>, i |-> <<<<0, 1>>>>],
            [a |-> Boson, m |-> 0, dim |-> <<4>>, i |-> <<<<0, 2>>>>]>>
MGns == <<>>
MActs == <<>>

RECURSIVE Boxes(_)
Boxes(d) == IF d = <<>> THEN {<<>>}
            ELSE {Append(b, n) : b \in Boxes(SubSeq(d, 1, Len(d) - 1)), n \in 0..(d[Len(d)] - 1)}
Others == {{}, {7}, {8}, {7, 8}}
Decs(M) == [1..M -> 0..2]
SecsOf(M, f, n1, n2) == <<[q |-> {m \in 1..M : f[m] = 1}, n |-> n1], [q |-> {m \in 1..M : f[m] = 2}, n |-> n2]>>
Members(L, S) == {b \in Boxes(L.dim) : InSectors(L, S, b)}
Counted ==
  \A M \in 0..MaxM : \A O \in Others :
    LET L == TLCEval(Layout((1..M) \cup O))
    IN (M > 0 \/ O # {}) =>
       \A f \in Decs(M) : \A n1, n2 \in 0..2 :
         LET S == TLCEval(SecsOf(M, f, n1, n2))
         IN SectorSize(L, S) = WOf(Cardinality(Members(L, S)))
ASSUME Counted
\* sectors without overlap and their union: Vandermonde's identity
ASSUME \A m, n, k \in 0..8 : k <= m + n =>
  WInt(Binomial(m + n, k)) = FoldFunction(+, 0, [j \in 0..k |-> WInt(Binomial(m, j)) * WInt(Binomial(n, k - j))])

-----------------------------------------------------------------------------
VARIABLES shadow, hist
St == <<<<1, 0>>, <<0, 1>>, <<1, 1>>>>       \* the states that views cover
Rev == <<<<1, 1>>, <<1, 0>>, <<0, 1>>>>      \* another order
Covered == {St[k] : k \in DOMAIN St}
Log(x) == hist' = Append(hist, x)
MInit == /\ cell = (1 :> <<COne, CZero, CZero>>) /\ view = <<>>
         /\ shadow = [s \in {} |-> 0] /\ hist = <<>>
Fresh == Cardinality(DOMAIN view) + 1
FreshC == 100 + Cardinality(DOMAIN view)
\* what a view that has just been made shows is its shadow
Mirror(v) == [s \in Covered |-> cell'[view'[v].c][view'[v].at[s]]]
Owns(c) == c > 100 \/ c = 100
MView == /\ Fresh <= NV
         /\ \E o \in BOOLEAN :
              /\ IF o THEN NewOwner(Fresh, 1, FreshC, St) ELSE NewView(Fresh, 1, St)
              /\ shadow' = (Fresh :> Mirror(Fresh)) @@ shadow
              /\ Log(<<"view", Fresh, IF o THEN FreshC ELSE 0>>)
MCopy == /\ Fresh <= NV
         /\ \E a \in DOMAIN view :
              /\ IF view[a].c >= 100 THEN CopyOwner(Fresh, a, FreshC) ELSE CopyView(Fresh, a)
              /\ shadow' = (Fresh :> shadow[a]) @@ shadow
              /\ Log(<<"vcopy", Fresh, a, FreshC>>)
Sharing(v) == {w \in DOMAIN view : view[w].c = view[v].c}
MUpd == \E v \in DOMAIN view, k \in DOMAIN St :
          /\ UpdateV(v, St[k], COne)
          /\ shadow' = [w \in DOMAIN shadow |->
                          IF w \in Sharing(v) THEN [shadow[w] EXCEPT ![St[k]] = CAdd(@, COne)] ELSE shadow[w]]
          /\ Log(<<"upd", v, k - 1>>)
MZero == \E v \in DOMAIN view :
          /\ ZeroV(v)
          /\ shadow' = [w \in DOMAIN shadow |->
                          IF w \in Sharing(v) THEN [s \in Covered |-> CZero] ELSE shadow[w]]
          /\ Log(<<"zero", v>>)
MNext == Len(hist) < Steps /\ (MView \/ MCopy \/ MUpd \/ MZero)
MSpec == MInit /\ [][MNext]_<<wvars, shadow, hist>>
Shows == \A v \in DOMAIN view : \A s \in Covered : Read(v, s) = shadow[v][s]
Iterates == \A v \in DOMAIN view :
              ShownV(v) = {<<s, shadow[v][s]>> : s \in {t \in Covered : ~IsZ(shadow[v][t])}}
MView0 == <<wvars, shadow, Len(hist)>>
-----------------------------------------------------------------------------
\* for simulation: one successor per kind of step
Pick(S) == {RandomElement(S)}
GNext == /\ Len(hist) < Steps
         /\ \/ MView
            \/ DOMAIN view # {} /\ Fresh <= NV /\ MCopy
            \/ DOMAIN view # {} /\ \E x \in Pick(1..3) : x > 0 /\ MUpd
            \/ DOMAIN view # {} /\ \E x \in Pick(1..5) : x = 1 /\ MZero
GSpec == MInit /\ [][GNext]_<<wvars, shadow, hist>>
Emit == Len(hist) = Steps => PrintT("TRACE " \o ToJson(hist))
=============================================================================
