------------------------------ MODULE UnionFind ------------------------------
(* Disjoint sets of 0..n-1. `root` names the representative of each element's *)
(* set; which member represents a set is left open except after sets have     *)
(* been compressed and then normalised.                                       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES root, flat     \* flat: no two sets joined since the last compression
uvars == <<root, flat>>

N == Len(root)
Elems == 0..(N - 1)
R(x) == root[x + 1]
Class(x) == {y \in Elems : R(y) = R(x)}
Roots == {R(x) : x \in Elems}
NSets == Cardinality(Roots)
MinOf(Z) == CHOOSE x \in Z : \A y \in Z : x <= y

UInit(n) == root = [k \in 1..n |-> k - 1] /\ flat = TRUE
MakeSets(k) == root' = root \o [j \in 1..k |-> N + j - 1] /\ UNCHANGED flat
Find(x, r) == r = R(x) /\ UNCHANGED uvars
InSame(x, y, b) == b = (R(x) = R(y)) /\ UNCHANGED uvars
\* r represents the joint set
Union(x, y, r) ==
  IF R(x) = R(y) THEN r = R(x) /\ UNCHANGED uvars
  ELSE LET C == Class(x) \cup Class(y)
       IN /\ r \in C
          /\ root' = [k \in 1..N |-> IF k - 1 \in C THEN r ELSE root[k]]
          /\ flat' = FALSE
\* representatives may change, sets do not
SamePartition(q) == /\ Len(q) = N
                    /\ \A x \in Elems : q[x + 1] \in Class(x)
                    /\ \A x \in Elems : \A y \in Class(x) : q[x + 1] = q[y + 1]
Compress(q) == SamePartition(q) /\ root' = q /\ flat' = TRUE
Smallest == [k \in 1..N |-> MinOf(Class(k - 1))]
Normalize(q) == /\ IF flat THEN q = Smallest ELSE SamePartition(q)
                /\ root' = q /\ UNCHANGED flat

RootsOk == \A x \in Elems : R(x) \in Elems /\ R(R(x)) = R(x)
=============================================================================
