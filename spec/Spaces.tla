------------------------------- MODULE Spaces --------------------------------
(* Hilbert spaces as sets of elementary spaces. ES is the sequence of        *)
(* declared elementary spaces: [a, m, dim (wide), i], see Gens.              *)
(* A space is a set of numbers of elementary spaces, no two of them equal    *)
(* with respect to the documented order (the dimension of a boson does not   *)
(* distinguish spaces). Everything else is determined by the set.            *)
EXTENDS Gens, Wide, FiniteSetsExt

CONSTANT ES

NE == Len(ES)
MaxBits == 63
EsRank == TLCEval([k \in 1..NE |->
            1 + Cardinality({j \in 1..NE : EsCmp(ES[j], ES[k]) = -1})])
EsBits == TLCEval([k \in 1..NE |-> WBitLen(WDec(ES[k].dim))])
SameEs(j, k) == EsRank[j] = EsRank[k]
Compatible(S) == \A j, k \in S : j # k => ~SameEs(j, k)
SumBits(S) == FoldSet(LAMBDA k, acc: acc + EsBits[k], 0, S)
TotalBits(S) == SumBits(S)
\* members in ascending order
InOrder(S) == SetToSortSeq(S, LAMBDA j, k : EsRank[j] < EsRank[k])
Below(S, k) == {j \in S : EsRank[j] < EsRank[k]}
BitLo(S, k) == SumBits(Below(S, k))
BitHi(S, k) == BitLo(S, k) + EsBits[k] - 1
DimOf(S) == FoldSet(LAMBDA k, acc: WMul(acc, ES[k].dim), <<1>>, S)
VecSize(S) == WPow2(TotalBits(S))
Sparse(S) == WCmp(VecSize(S), DimOf(S)) = 1
Algebras(S) == {ES[k].a : k \in S}
OfAlg(S, a) == {k \in S : ES[k].a = a}
AlgLo(S, a) == FoldSet(LAMBDA k, acc: IF BitLo(S, k) < acc THEN BitLo(S, k) ELSE acc, 64, OfAlg(S, a))
AlgHi(S, a) == FoldSet(LAMBDA k, acc: IF BitHi(S, k) > acc THEN BitHi(S, k) ELSE acc, -1, OfAlg(S, a))
\* member equal to the declared space k
MemberFor(S, k) == {j \in S : SameEs(j, k)}
SameStructure(S, T) == {<<EsRank[k], ES[k].dim>> : k \in S} = {<<EsRank[k], ES[k].dim>> : k \in T}

-----------------------------------------------------------------------------
(* Physical basis states: the n-th one in ascending order of indices, as the *)
(* sequence of occupation numbers in the order of the spaces                 *)
RECURSIVE Digits(_, _, _)
Digits(o, j, n) ==
  IF j > Len(o) THEN <<>>
  ELSE LET d == ES[o[j]].dim
       IN IF Len(d) > 2 \/ (Len(d) = 2 /\ n < WInt(d)) \/ (Len(d) < 2 /\ n < WInt(d))
          THEN <<n>> \o Digits(o, j + 1, 0)
          ELSE <<n % WInt(d)>> \o Digits(o, j + 1, n \div WInt(d))
\* set bits of the corresponding index, ascending
RECURSIVE BitsOf(_, _)
BitsOf(n, b) == IF n = 0 THEN <<>>
                ELSE IF n % 2 = 1 THEN <<b>> \o BitsOf(n \div 2, b + 1)
                ELSE BitsOf(n \div 2, b + 1)
RECURSIVE IndexBits(_, _, _, _)
IndexBits(o, dg, j, lo) ==
  IF j > Len(o) THEN <<>>
  ELSE BitsOf(dg[j], lo) \o IndexBits(o, dg, j + 1, lo + EsBits[o[j]])
PhysBits(S, n) == LET o == InOrder(S) IN IndexBits(o, Digits(o, 1, n), 1, 0)
\* the same as a number (small spaces)
RECURSIVE IndexInt(_, _, _, _)
IndexInt(o, dg, j, w) ==
  IF j > Len(o) THEN 0
  ELSE dg[j] * w + IndexInt(o, dg, j + 1, w * W2(EsBits[o[j]]))
PhysIndex(S, n) == LET o == InOrder(S) IN IndexInt(o, Digits(o, 1, n), 1, 1)
=============================================================================
