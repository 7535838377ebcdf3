------------------------------- MODULE MC_User -------------------------------
(* Are the rules of a user-defined algebra consistent: rewriting of all words *)
(* up to a given length ends in one form however the word is split. Only such *)
(* algebras are used to check the real code against.                          *)
EXTENDS UserAlgebra
CONSTANT MaxLen
UU == Header.gens
VARIABLE theWord
vars == <<theWord, regs, lineNo>>
Init == theWord = <<>> /\ regs = <<>> /\ lineNo = 0
Next == /\ Len(theWord) < MaxLen
        /\ \E g \in 1..N : theWord' = Append(theWord, g)
        /\ UNCHANGED <<regs, lineNo>>
Spec == Init /\ [][Next]_vars
P == TLCEval(NO(theWord))
Canonical == \A m \in DOMAIN P : Irreducible(m) /\ ~IsZ(P[m])
Idempotent == PNO(P) = P
Confluent == \A k \in 0..Len(theWord) :
               PMul(NO(SubSeq(theWord, 1, k)), NO(SubSeq(theWord, k + 1, Len(theWord)))) = P
RightFold == FoldRight(LAMBDA g, acc: PMul(PMono(COne, <<g>>), acc), theWord, PConst(COne)) = P
Adjoint == LET H(p) == PNO(UConjPoly(p))
           IN /\ H(H(P)) = P
              /\ PNO(ConjWord(theWord)) = H(P)
=============================================================================
