------------------------------ MODULE Partition ------------------------------
(* Partitions of a finite set 1..n by relations. A partition is a function    *)
(* that names a representative of the class of every element; a relation is a *)
(* set of pairs <<from, to>>.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Discrete(n) == [x \in 1..n |-> x]
Join(P, a, b) == IF P[a] = P[b] THEN P
                 ELSE LET ra == P[a]
                          rb == P[b]
                      IN TLCEval([x \in DOMAIN P |-> IF P[x] = rb THEN ra ELSE P[x]])
RECURSIVE JoinAll(_, _)
JoinAll(P, E) == IF E = {} THEN P
                 ELSE LET e == CHOOSE e \in E : TRUE
                      IN JoinAll(Join(P, e[1], e[2]), E \ {e})
\* connected components of a relation
Components(n, E) == JoinAll(Discrete(n), E)

Classes(P) == {P[x] : x \in DOMAIN P}
Targets(P, E, c) == {P[e[2]] : e \in {d \in E : P[d[1]] = c}}
\* a relation maps each class into at most one class
Functional(P, E) == \A e, f \in E : P[e[1]] = P[f[1]] => P[e[2]] = P[f[2]]
\* and no two classes into the same one
OneToOne(P, E) == Functional(P, E) /\ \A e, f \in E : P[e[2]] = P[f[2]] => P[e[1]] = P[f[1]]

\* the finest coarsening of P for which both relations are functional
RECURSIVE JoinTargets(_, _)
JoinTargets(P, T) == IF Cardinality(T) <= 1 THEN P
                     ELSE LET a == CHOOSE a \in T : TRUE
                              b == CHOOSE b \in T \ {a} : TRUE
                          IN JoinTargets(Join(P, a, b), T \ {b})
RECURSIVE Merge(_, _, _)
Merge(P, E, F) ==
  LET C == Classes(P)
      bad == {<<k, c>> \in {1, 2} \X C : Cardinality(Targets(P, IF k = 1 THEN E ELSE F, c)) > 1}
  IN IF bad = {} THEN P
     ELSE LET x == CHOOSE x \in bad : TRUE
          IN Merge(JoinTargets(P, Targets(P, IF x[1] = 1 THEN E ELSE F, x[2])), E, F)

\* are two elements together in P only if they are together in Q
Refines(P, Q) == \A x, y \in DOMAIN P : P[x] = P[y] => Q[x] = Q[y]
Converse(E) == {<<e[2], e[1]>> : e \in E}
=============================================================================
