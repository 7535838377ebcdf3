------------------------------- MODULE MC_Monos -------------------------------
(* The machine of monomials explored by TLC; its behaviours are also used as *)
(* scripts for the real code.                                                *)
EXTENDS Monos, Json, MCU_Universes

CONSTANTS MaxLen, MaxOps

VARIABLES hist, n
mvars == <<mv, hist, n>>
Gs == DOMAIN U
Op(A, r) == A /\ hist' = Append(hist, r)

Short2 == \A r \in MRegs : Len(mv'[r]) <= MaxLen
Init == MInit /\ hist = <<>> /\ n = 0
Step1 ==
  \/ \E r \in MRegs, g \in Gs, h \in Gs : Op(New(r, <<g, h>>), <<"new", r, "v", g, h>>)
  \/ \E r, a \in MRegs : \/ Op(CopyM(r, a), <<"copy", r, a>>)
                         \/ r # a /\ Op(MoveM(r, a), <<"move", r, a>>)
                         \/ Op(SwapM(r, a), <<"swap", r, a>>)
                         \/ Op(AppendM(r, a), <<"appm", r, a>>)
                         \/ Op(Concat(r, <<<<"m", a>>, <<"m", r>>>>), <<"cat", r, "m", a, "m", r>>)
  \/ \E r \in MRegs, g \in Gs : Op(AppendG(r, g), <<"app", r, g>>)
  \/ \E r \in MRegs : \E i, j \in 0..(Len(mv[r]) - 1) : Op(SwapG(r, i, j), <<"swg", r, i, j>>)
Next == n < MaxOps /\ n' = n + 1 /\ Step1 /\ Short2
Spec == Init /\ [][Next]_mvars
View == <<mv, n>>

\* histories for the real code: parts are coded <<kind, ...>>
One(SS) == {RandomElement(SS)}
GStep ==
  \E k \in One(1..16), r \in One(MRegs), a \in One(MRegs), b \in One(MRegs), g \in One(Gs), h \in One(Gs),
     x \in One(0..20), y \in One(0..20) :
    LET la == Len(mv[a])
        lb == Len(mv[b])
        lr == Len(mv[r])
        i == IF x % (la + 1) < y % (la + 1) THEN x % (la + 1) ELSE y % (la + 1)
        j == IF x % (la + 1) < y % (la + 1) THEN y % (la + 1) ELSE x % (la + 1)
    IN CASE k \in {1, 2} -> Op(New(r, <<g, h>>), <<"new", r, IF x % 2 = 0 THEN "o" ELSE "i", g, h>>)
         [] k = 3 -> Op(CopyM(r, a), <<"copy", r, a>>)
         [] k = 4 -> Op(CopyM(r, a), <<"cctor", r, a>>)
         [] k = 5 -> IF r = a THEN Op(CopyM(r, a), <<"copy", r, a>>)
                     ELSE Op(MoveM(r, a), <<IF x % 2 = 0 THEN "move" ELSE "mctor", r, a>>)
         [] k = 6 -> Op(SwapM(r, a), <<"swap", r, a>>)
         [] k \in {7, 8} -> Op(AppendG(r, g), <<"app", r, g>>)
         [] k \in {9, 10} -> Op(AppendM(r, a), <<"appm", r, a>>)
         [] k = 11 -> IF r = a THEN Op(AppendM(r, a), <<"appm", r, a>>)
                      ELSE Op(AppendR(r, a, i, j), <<"appr", r, a, i, j>>)
         [] k = 12 -> Op(Concat(r, <<<<"g", g>>, <<"r", a, i, j>>, <<"m", b>>>>),
                         <<"cat", r, <<"g", g>>, <<"r", a, i, j>>, <<"m", b>>>>)
         [] k = 13 -> Op(Concat(r, <<<<"m", a>>, <<"m", b>>, <<"g", g>>, <<"m", r>>>>),
                         <<"cat", r, <<"m", a>>, <<"m", b>>, <<"g", g>>, <<"m", r>>>>)
         [] k = 14 -> Op(Concat(r, <<<<"r", a, i, j>>, <<"g", h>>>>),
                         <<"cat", r, <<"r", a, i, j>>, <<"g", h>>>>)
         [] OTHER -> IF lr = 0 THEN Op(New(r, <<g>>), <<"new", r, "o", g>>)
                     ELSE Op(SwapG(r, x % lr, y % lr), <<"swg", r, x % lr, y % lr>>)
GNext == /\ n < MaxOps
         /\ n' = n + 1
         /\ GStep
         /\ IF Short2 THEN TRUE ELSE FALSE
GSpec == Init /\ [][GNext]_mvars
Emit == n = MaxOps => PrintT("TRACE " \o ToJson(hist))

-----------------------------------------------------------------------------
\* the order is total and agrees with equality; the text identifies a monomial
Ordered == \A a, b \in MRegs :
  /\ (CmpM(a, b) = 1) <=> (mv[a] = mv[b])
  /\ (CmpM(a, b) = 6) <=> (CmpM(b, a) = 10)
TextIdentifies == \A a, b \in MRegs : TextM(a) = TextM(b) => mv[a] = mv[b]
ConcatAssociates ==
  \A a, b \in MRegs : Parts(<<<<"m", a>>, <<"m", b>>, <<"m", a>>>>, 1) = (mv[a] \o mv[b]) \o mv[a]
SplitJoins ==
  \A a \in MRegs : \A i \in 0..Len(mv[a]) :
     Parts(<<<<"r", a, 0, i>>, <<"r", a, i, Len(mv[a])>>>>, 1) = mv[a]
=============================================================================
