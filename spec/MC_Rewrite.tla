----------------------------- MODULE MC_Rewrite -----------------------------
(* Design check of the normal ordering rules. States are words over a small  *)
(* universe of generators, grown one generator at a time; in every state the *)
(* canonical form of the word must denote the same operator as the word,     *)
(* consist of irreducible monomials, be independent of the grouping and      *)
(* respect Hermitian conjugation.                                            *)
EXTENDS Fock, Rewrite

CONSTANTS MaxLen, WithConj


VARIABLE theWord
Init == theWord = <<>>
Next == \E g \in 1..N : Len(theWord) < MaxLen /\ theWord' = Append(theWord, g)
Spec == Init /\ [][Next]_theWord

TypeOK == theWord \in Seq(1..N)

NOw == NO(theWord)
SoundNO == SameOperator(NOw, theWord :> COne)
Canonical == \A m \in DOMAIN NOw : Irreducible(m) /\ ~IsZ(NOw[m])
\* for irreducible words NO is the identity
Idempotent == Irreducible(theWord) => NOw = (theWord :> COne)
\* product of canonical forms = canonical form of the product
GroupingIndependent ==
  UniqueForm =>
    \A k \in 0..Len(theWord) :
      PMul(NO(SubSeq(theWord, 1, k)), NO(SubSeq(theWord, k + 1, Len(theWord)))) = NOw
\* canonical form of the adjoint = adjoint of the canonical form
Adjoint ==
  WithConj =>
    LET a == PNO(ConjPoly(NOw))
        b == NO(ConjMon(theWord))
    IN IF UniqueForm THEN a = b ELSE SameOperator(a, b)
\* a canonical form that denotes zero is zero
ZeroIsEmpty == UniqueForm => (SameOperator(NOw, <<>>) => NOw = <<>>)
=============================================================================
