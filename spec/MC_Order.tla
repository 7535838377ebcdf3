------------------------------ MODULE MC_Order -------------------------------
(* The documented order is a strict total order on all generators, monomials *)
(* and elementary spaces: checked on all triples of a universe.              *)
EXTENDS Gens
Ids == {0, 1}
Strs == {<<97>>, <<97, 98>>}

Comps == {<<0, n>> : n \in Ids} \cup {<<1>> \o s : s \in Strs}
Idx == {<<>>} \cup {<<c>> : c \in Comps} \cup {<<c, d>> : c, d \in Comps}
GU == {[a |-> a, d |-> d, m |-> 0, c |-> 0, i |-> i] : a \in {-3, -2}, d \in 0..1, i \in Idx}
   \cup {[a |-> -1, d |-> 0, m |-> m, c |-> c, i |-> i] : m \in 2..3, c \in 0..2, i \in Idx}
   \cup {[a |-> a, d |-> 0, m |-> 0, c |-> 0, i |-> i] : a \in {0, 5}, i \in Idx}
ES == {[a |-> a, m |-> m, i |-> i] : a \in {-2, -1}, m \in 2..3, i \in Idx}
MU == {<<>>} \cup {<<g>> : g \in {x \in GU : Len(x.i) < 2}}
   \cup {<<g, h>> : g, h \in {x \in GU : Len(x.i) = 1 /\ x.i[1] = <<0, 1>>}}

VARIABLE obj
Init == obj = <<>>
Next == \/ obj = <<>> /\ \E g \in GU : obj' = <<"g", g>>
        \/ obj = <<>> /\ \E g \in ES : obj' = <<"s", g>>
        \/ obj = <<>> /\ \E m \in MU : obj' = <<"m", m>>
Spec == Init /\ [][Next]_obj
Cmp(k, x, y) == CASE k = "g" -> GenCmp(x, y) [] k = "s" -> EsCmp(x, y) [] k = "m" -> MonCmp(x, y)
Univ(k) == CASE k = "g" -> GU [] k = "s" -> ES [] k = "m" -> MU
\* the elements below x and those above x; equal ones are identical (spaces of
\* bosons: up to the dimension)
TotalOrder ==
  obj # <<>> =>
    LET k == obj[1]
        x == obj[2]
        below == {y \in Univ(k) : Cmp(k, y, x) = -1}
        above == {y \in Univ(k) : Cmp(k, x, y) = -1}
        same == {y \in Univ(k) : Cmp(k, x, y) = 0}
    IN /\ \A y \in Univ(k) : Cmp(k, x, y) = -Cmp(k, y, x)
       /\ \A y \in same : IF k = "s" THEN y.a = x.a /\ y.i = x.i /\ (x.a = -2 \/ y.m = x.m) ELSE y = x
       \* transitivity
       /\ \A y \in below : \A z \in above : Cmp(k, y, z) = -1
=============================================================================
