---------------------------- MODULE MC_Partition -----------------------------
(* The constructions of Partition on all small relations: initial states are  *)
(* an initial relation H and relations O, a step merges with O and its        *)
(* inverse.                                                                   *)
EXTENDS Partition
CONSTANTS Size, MaxH, MaxO
VARIABLES part, before, rel, done
vars == <<part, before, rel, done>>
X == 1..Size
Rels(k) == {E \in SUBSET (X \X X) : Cardinality(E) <= k}
\* all partitions, named by the least members of classes
AllParts == {P \in [X -> X] : \A x \in X : P[x] <= x /\ P[P[x]] = P[x]}
Init == \E E \in Rels(MaxH) : /\ part = Components(Size, E)
                              /\ before = E /\ rel = {} /\ done = 0
Next == /\ done < 1 /\ done' = done + 1
        /\ \E E \in Rels(MaxO) : rel' = E /\ part' = Merge(part, E, Converse(E))
        /\ before' = part
Spec == Init /\ [][Next]_vars
Same(P, Q) == Refines(P, Q) /\ Refines(Q, P)
\* components: the finest partition no pair of the relation leaves
Finest == done = 0 =>
  /\ \A e \in before : part[e[1]] = part[e[2]]
  /\ \A P \in AllParts : (\A e \in before : P[e[1]] = P[e[2]]) => Refines(part, P)
\* merged: one-to-one, coarser than before, the finest such
Merged == done > 0 =>
  /\ Refines(before, part)
  /\ OneToOne(part, rel)
  /\ \A P \in AllParts : Refines(before, P) /\ OneToOne(P, rel) => Refines(part, P)
=============================================================================
