-------------------------------- MODULE Gens --------------------------------
(* Generators of the predefined algebras: description, documented order.     *)
(*                                                                           *)
(* A generator is a record                                                   *)
(*   a : algebra id (-3 fermions, -2 bosons, -1 spins; others are user's)    *)
(*   d : 1 for a creation operator, 0 otherwise     (fermions, bosons)       *)
(*   m : multiplicity 2S+1, c : component 0 = S+, 1 = S-, 2 = Sz    (spins)  *)
(*   i : sequence of index components. A component is a sequence of integers *)
(*       starting with the alternative it holds (0 = integer, 1 = string)    *)
(*       followed by the integer or the characters' codes.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fermion == -3
Boson == -2
Spin == -1

\* three-way lexicographic comparison of integer sequences
RECURSIVE LexCmp(_, _, _)
LexCmp(s, t, k) ==
  IF k > Len(s) THEN (IF k > Len(t) THEN 0 ELSE -1)
  ELSE IF k > Len(t) THEN 1
  ELSE IF s[k] < t[k] THEN -1
  ELSE IF s[k] > t[k] THEN 1
  ELSE LexCmp(s, t, k + 1)

\* index sequences: shorter first, then lexicographically by component
RECURSIVE CompCmp(_, _, _)
CompCmp(s, t, k) ==
  IF k > Len(s) THEN 0
  ELSE LET c == LexCmp(s[k], t[k], 1)
       IN IF c # 0 THEN c ELSE CompCmp(s, t, k + 1)
IdxCmp(s, t) ==
  IF Len(s) < Len(t) THEN -1 ELSE IF Len(s) > Len(t) THEN 1
  ELSE CompCmp(s, t, 1)

Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
First(a, b) == IF a # 0 THEN a ELSE b

\* documented order of generators
GenCmp(g, h) ==
  IF g.a # h.a THEN Sgn(g.a, h.a)
  ELSE IF g.a \in {Fermion, Boson} THEN
    \* creation operators first, in ascending order of indices, followed by
    \* annihilation operators in descending order of indices
    IF g.d # h.d THEN Sgn(h.d, g.d)
    ELSE IF g.d = 1 THEN IdxCmp(g.i, h.i) ELSE IdxCmp(h.i, g.i)
  ELSE IF g.a = Spin THEN
    \* multiplicity, then indices, then S+ < S- < Sz
    First(Sgn(g.m, h.m), First(IdxCmp(g.i, h.i), Sgn(g.c, h.c)))
  ELSE IdxCmp(g.i, h.i)

\* monomials (sequences of generators): shorter first, then lexicographically
RECURSIVE MonLex(_, _, _)
MonLex(s, t, k) ==
  IF k > Len(s) THEN 0
  ELSE LET c == GenCmp(s[k], t[k])
       IN IF c # 0 THEN c ELSE MonLex(s, t, k + 1)
MonCmp(s, t) == IF Len(s) # Len(t) THEN Sgn(Len(s), Len(t)) ELSE MonLex(s, t, 1)

\* elementary spaces: algebra, then multiplicity (spins), then indices. The
\* dimension of a bosonic space plays no role
EsCmp(e, f) ==
  IF e.a # f.a THEN Sgn(e.a, f.a)
  ELSE IF e.a = Spin /\ e.m # f.m THEN Sgn(e.m, f.m)
  ELSE IdxCmp(e.i, f.i)

\* Position of every generator of a universe (sequence of descriptions) in the
\* documented order, 1 = smallest; equal generators have equal positions
Ranks(U) ==
  LET R[k \in DOMAIN U] ==
        1 + Cardinality({j \in DOMAIN U : GenCmp(U[j], U[k]) = -1})
  IN R
=============================================================================
