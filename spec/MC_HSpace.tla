------------------------------ MODULE MC_HSpace ------------------------------
(* The machine of HSpace explored by TLC. Its behaviours also serve as       *)
(* scripts for the real code.                                                *)
EXTENDS HSpace, Json

CONSTANTS MaxOps, MaxList
VARIABLES hist, nOps
vars == <<hvars, hist, nOps>>

I(k) == <<<<0, k>>>>
F(k) == [a |-> -3, m |-> 0, dim |-> <<2>>, i |-> I(k)]
B(d, k) == [a |-> -2, m |-> 0, dim |-> d, i |-> I(k)]
S(m, k) == [a |-> -1, m |-> m, dim |-> WOf(m), i |-> I(k)]
Us(a, d, k) == [a |-> a, m |-> 0, dim |-> d, i |-> I(k)]
\* two bosons that differ in their dimensions only; one as large as possible
ESmall == <<F(1), F(2), B(<<3>>, 1), B(<<5>>, 1), S(3, 1), Us(1, <<1>>, 0)>>
EMix == <<B(<<3>>, 1), B(<<5>>, 2), B(<<1>>, 3), B(<<2>>, 4), B(<<6>>, 5), S(3, 1)>>
EBig == <<F(1), B(WPow2(61), 1), B(<<1>>, 2), S(4, 0), S(2, 1), Us(0, WAdd(WPow2(59), <<1>>), 1)>>

Lists(k) == UNION {[1..j -> 1..NE] : j \in 0..k}
Op(A, name, args) == A /\ hist' = Append(hist, <<name, args>>)

Init == HInit /\ hist = <<>> /\ nOps = 0
MakeStep == \E t \in HRegs, s \in Lists(MaxList) :
           Op(Make(t, s), "new", <<t>> \o s)
          \/ Op(Live(t) /\ (MakeExists(s) \/ MakeTooBig(s)) /\ Refuse, "new", <<t>> \o s)
AddStep == \E t \in HRegs, k \in 1..NE :
           Op(AddH(t, k), "add", <<t, k>>)
          \/ Op(Live(t) /\ (AddExists(t, k) \/ AddTooBig(t, k)) /\ Refuse, "add", <<t, k>>)
CopyStep == \E t, a \in HRegs : \/ Op(CopyH(t, a), "copy", <<t, a>>)
                                \/ Op(MoveH(t, a), "move", <<t, a>>)
Next == nOps < MaxOps /\ nOps' = nOps + 1 /\ (MakeStep \/ AddStep \/ CopyStep)
Spec == Init /\ [][Next]_vars
View == <<hvars, nOps>>

One(T) == {RandomElement(T)}
GNext == /\ nOps < MaxOps
         /\ nOps' = nOps + 1
         /\ \E k \in One(1..10), t \in One(HRegs), a \in One(HRegs), e \in One(1..NE),
               s \in One([1..RandomElement(0..MaxList) -> 1..NE]) :
              CASE k <= 2 -> IF CanMake(s) THEN Op(Make(t, s), "new", <<t>> \o s)
                             ELSE Op(Refuse, "vec", <<t>> \o s)
                [] k \in 3..7 -> IF ~Live(t) THEN Op(Make(t, <<>>), "new", <<t>>)
                                 ELSE IF CanAdd(t, e) THEN Op(AddH(t, e), "add", <<t, e>>)
                                 ELSE Op(Refuse, "add", <<t, e>>)
                [] k \in 8..9 -> IF Live(a) THEN Op(CopyH(t, a), "copy", <<t, a>>)
                                 ELSE Op(Make(a, <<e>>), "vec", <<a, e>>)
                [] k = 10 -> IF Live(a) /\ t # a THEN Op(MoveH(t, a), "move", <<t, a>>)
                             ELSE Op(Make(a, <<>>), "new", <<a>>)
GSpec == Init /\ [][GNext]_vars
Emit == nOps = MaxOps => PrintT("TRACE " \o ToJson(hist))

-----------------------------------------------------------------------------
Cur == {hs[r] : r \in HRegs}
Bits(T, k) == BitLo(T, k)..BitHi(T, k)
\* bit ranges are disjoint, adjacent and cover all bits in the order of spaces
Ranges ==
  \A T \in Cur :
    /\ Compatible(T) /\ TotalBits(T) <= MaxBits
    /\ UNION {Bits(T, k) : k \in T} = 0..(TotalBits(T) - 1)
    /\ \A j, k \in T : EsRank[j] < EsRank[k] => BitHi(T, j) < BitLo(T, k)
    /\ \A a \in Algebras(T) : UNION {Bits(T, k) : k \in OfAlg(T, a)} = AlgLo(T, a)..AlgHi(T, a)
    /\ WCmp(DimOf(T), VecSize(T)) <= 0
\* the nOps-th physical state in the sense of PhysIndex: all indices whose
\* occupation numbers are below the dimensions, in ascending order
Enumerated ==
  \A T \in Cur :
    TotalBits(T) <= 8 =>
      LET o == InOrder(T)
          P == {x \in 0..(WInt(VecSize(T)) - 1) :
                  \A k \in T : (x \div W2(BitLo(T, k))) % W2(EsBits[k]) < WInt(ES[k].dim)}
          s == [j \in 1..Cardinality(P) |-> PhysIndex(T, j - 1)]
      IN /\ Cardinality(P) = WInt(DimOf(T))
         /\ {s[j] : j \in DOMAIN s} = P
         /\ \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
         /\ \A j \in DOMAIN s : PhysBits(T, j - 1) = BitsOf(s[j], 0)
Structure == \A T, V \in Cur : SameStructure(T, V) <=> T = V
=============================================================================
