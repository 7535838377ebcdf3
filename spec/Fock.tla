-------------------------------- MODULE Fock --------------------------------
(* What the predefined generators denote: linear maps on the occupation      *)
(* number space of their degrees of freedom ("modes"). The basis is not      *)
(* normalised, which makes all amplitudes rational and changes no algebraic  *)
(* relation:                                                                 *)
(*   a+|n) = |n+1)            a|n) = n|n-1)                 (bosons)         *)
(*   S+|j) = |j+1)            S-|j) = j(2S+1-j)|j-1)        (spins, j = m+S) *)
(*   c+, c carry the sign of the fermions in preceding modes.                *)
EXTENDS Algebra, FiniteSets, FiniteSetsExt, SequencesExt

\* one mode per degree of freedom, represented by the number of its first
\* generator; modes are ordered by their representatives
Rep == TLCEval([k \in 1..N |->
         CHOOSE j \in 1..N : SameDof(U[j], U[k]) /\
                             \A i \in 1..(j-1) : ~SameDof(U[i], U[k])])
\* fermionic representatives
FermReps == {k \in 1..N : U[k].a = Fermion /\ Rep[k] = k}

\* A state is a function from a set of representatives to occupation numbers.
\* A result is <<state, integer amplitude, power of 1/2>>; amplitude 0 = lost.
ParityBelow(s, r) ==
  Cardinality({k \in DOMAIN s : k < r /\ k \in FermReps /\ s[k] = 1}) % 2

ApplyGen(x, g) ==
  LET s == x[1]
      r == Rep[g]
      d == U[g]
      n == s[r]
  IN IF d.a = Fermion THEN
       IF n = d.d THEN <<s, 0, 0>>
       ELSE <<[s EXCEPT ![r] = d.d],
              IF ParityBelow(s, r) = 0 THEN x[2] ELSE -x[2], x[3]>>
     ELSE IF d.a = Boson THEN
       IF d.d = 1 THEN <<[s EXCEPT ![r] = n + 1], x[2], x[3]>>
       ELSE IF n = 0 THEN <<s, 0, 0>>
       ELSE <<[s EXCEPT ![r] = n - 1], x[2] * n, x[3]>>
     ELSE
       IF d.c = 0 THEN IF n + 1 = d.m THEN <<s, 0, 0>>
                       ELSE <<[s EXCEPT ![r] = n + 1], x[2], x[3]>>
       ELSE IF d.c = 1 THEN IF n = 0 THEN <<s, 0, 0>>
                       ELSE <<[s EXCEPT ![r] = n - 1], x[2] * n * (d.m - n), x[3]>>
       ELSE \* 2 Sz = 2 m = 2 n - 2 S
            IF 2*n = d.m - 1 THEN <<s, 0, 0>>
            ELSE <<s, x[2] * (2*n - d.m + 1), x[3] + 1>>

\* the rightmost generator of a word acts first
RECURSIVE ApplyFrom(_, _, _)
ApplyFrom(w, k, x) ==
  IF k = 0 \/ x[2] = 0 THEN x ELSE ApplyFrom(w, k - 1, TLCEval(ApplyGen(x, w[k])))
ApplyWord(w, s) == ApplyFrom(w, Len(w), <<s, 1, 0>>)

\* image of a basis state under a polynomial: map from states to amplitudes
Image(p, s) ==
  FoldSet(LAMBDA m, acc:
            LET x == ApplyWord(m, s)
                old == IF x[1] \in DOMAIN acc THEN acc[x[1]] ELSE CZero
            IN IF x[2] = 0 THEN acc
               ELSE (x[1] :> CAdd(old, CMul(p[m], CQ(x[2], 0, Pow2(x[3]))))) @@ acc,
          <<>>, DOMAIN p)
NonZero(v) == {<<s, v[s]>> : s \in {t \in DOMAIN v : ~IsZ(v[t])}}

\* modes a polynomial involves
Modes(p) == UNION {{Rep[m[k]] : k \in DOMAIN m} : m \in DOMAIN p}
\* number of annihilation operators of the bosonic mode r in a word
AnnCount(m, r) == Cardinality({k \in DOMAIN m : Rep[m[k]] = r /\ U[m[k]].d = 0})
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
\* occupation numbers to be considered. Let p, q have at most D annihilation
\* operators of a bosonic mode in any term. Normally ordered forms of p - q are
\* then sums of (a+)^k a^l with l <= D, and vanish iff they vanish on n = 0..D
Occ(r, p, q) ==
  IF U[r].a = Fermion THEN 0..1
  ELSE IF U[r].a = Spin THEN 0..(U[r].m - 1)
  ELSE 0..MaxSet({0} \cup {AnnCount(m, r) : m \in DOMAIN p \cup DOMAIN q})
RECURSIVE Box(_, _, _)
Box(M, p, q) ==
  IF M = {} THEN {<<>>}
  ELSE LET r == CHOOSE x \in M : TRUE
           B == Box(M \ {r}, p, q)
       IN {(r :> n) @@ s : n \in Occ(r, p, q), s \in B}

\* do two polynomials denote the same operator
SameOperator(p, q) ==
  \A s \in Box(Modes(p) \cup Modes(q), p, q) :
     NonZero(Image(p, s)) = NonZero(Image(q, s))
=============================================================================
