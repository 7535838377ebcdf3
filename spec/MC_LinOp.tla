------------------------------- MODULE MC_LinOp ------------------------------
(* The action of operators in small spaces, explored by TLC: the initial     *)
(* states are the spaces, a step multiplies the word by one more generator.  *)
EXTENDS LinOp
CONSTANT MaxLen
VARIABLES theWord, theLay
vars == <<theWord, theLay>>

I(k) == <<<<0, k>>>>
F(k) == [a |-> -3, m |-> 0, dim |-> <<2>>, i |-> I(k)]
B(d, k) == [a |-> -2, m |-> 0, dim |-> <<d>>, i |-> I(k)]
S(j, k) == [a |-> -1, m |-> j, dim |-> <<j>>, i |-> I(k)]
GF(d, k) == [a |-> -3, d |-> d, m |-> 0, c |-> 0, i |-> I(k)]
GB(d, k) == [a |-> -2, d |-> d, m |-> 0, c |-> 0, i |-> I(k)]
GS(j, x, k) == [a |-> -1, d |-> 0, m |-> j, c |-> x, i |-> I(k)]
NoActs == <<>>
EF == <<F(1), F(2), F(3)>>
GEF == <<GF(1, 1), GF(0, 1), GF(1, 2), GF(0, 2), GF(1, 3), GF(0, 3)>>
EB == <<B(4, 1), B(3, 2)>>
GEB == <<GB(1, 1), GB(0, 1), GB(1, 2), GB(0, 2)>>
ES1 == <<S(2, 1), S(3, 1), S(5, 2)>>
GES1 == <<GS(2, 0, 1), GS(2, 1, 1), GS(2, 2, 1), GS(3, 0, 1), GS(3, 1, 1), GS(3, 2, 1),
          GS(5, 0, 2), GS(5, 1, 2), GS(5, 2, 2)>>
EMix == <<F(1), F(2), B(3, 1), S(3, 1)>>
GEMix == <<GF(1, 1), GF(0, 1), GF(1, 2), GF(0, 2), GB(1, 1), GB(0, 1),
           GS(3, 0, 1), GS(3, 1, 1), GS(3, 2, 1)>>

Init == theWord = <<>> /\ theLay = Layout(1..NE)
Next == /\ Len(theWord) < MaxLen
        /\ \E g \in 1..NG : theWord' = Append(theWord, g)
        /\ UNCHANGED theLay
Spec == Init /\ [][Next]_vars

One(w) == <<<<COne, w>>>>
Ket(dg) == <<<<dg, COne>>>>
\* the generator conjugate to g
Adj(g) == CHOOSE h \in 1..NG : /\ Gns[h].a = Gns[g].a /\ Gns[h].m = Gns[g].m /\ Gns[h].i = Gns[g].i
                               /\ IF Gns[g].a = Spin THEN Gns[h].c = (CASE Gns[g].c = 0 -> 1 [] Gns[g].c = 1 -> 0
                                                                        [] OTHER -> 2)
                                  ELSE Gns[h].d = 1 - Gns[g].d
AdjW(w) == [k \in DOMAIN w |-> Adj(w[Len(w) + 1 - k])]
Amp(w, s, t) == LET x == ApplyWord(theLay, w, <<s, COne>>)
                IN IF x[1] = t THEN x[2] ELSE CZero
\* the matrix of the conjugate word is the conjugate transpose in the
\* normalised basis
AdjointOk ==
  \A s \in States(theLay) :
    LET x == ApplyWord(theLay, theWord, <<s, COne>>)
    IN IsZ(x[2]) \/ CMul(x[2], CInt(Norm(theLay, x[1]))) =
                    CMul(CConj(Amp(AdjW(theWord), x[1], s)), CInt(Norm(theLay, s)))
\* acting with a word is acting with its generators one after another
Composition ==
  theWord = <<>> \/
  \A s \in States(theLay) :
    LET n == Len(theWord)
        x == ApplyWord(theLay, SubSeq(theWord, 2, n), <<s, COne>>)
        y == IF IsZ(x[2]) THEN x ELSE ApplyGen(theLay, x, theWord[1])
        z == ApplyWord(theLay, theWord, <<s, COne>>)
    IN (IsZ(y[2]) /\ IsZ(z[2])) \/ y = z
\* defining relations, for bosons below the cut-off
Sum(p, s) == Image(theLay, p, Ket(s))
Zer == {}
IsId(p, s, c) == Sum(p, s) = {<<s, c>>}
Relations ==
  Len(theWord) # 2 \/
  LET g == theWord[1]
      h == theWord[2]
      d == Gns[g]
      e == Gns[h]
      comm == <<<<COne, <<g, h>>>>, <<<<-1, 0, 1>>, <<h, g>>>>>>
      anti == <<<<COne, <<g, h>>>>, <<COne, <<h, g>>>>>>
      q == theLay.pos[g]
  IN \A s \in States(theLay) :
       IF d.a = Fermion /\ e.a = Fermion THEN
         IF h = Adj(g) THEN IsId(anti, s, COne) ELSE Sum(anti, s) = Zer
       ELSE IF theLay.pos[g] # theLay.pos[h] THEN Sum(comm, s) = Zer
       ELSE IF d.a = Boson THEN
         IF g = h THEN Sum(comm, s) = Zer
         ELSE IF d.d = 0 THEN IsId(comm, s, IF s[q] + 1 < theLay.dim[q] THEN COne
                                            ELSE CInt(-s[q])) ELSE TRUE
       ELSE \* [S+, S-] = 2 Sz, [Sz, S+-] = +- S+-
         LET sz == CHOOSE k \in 1..NG : Gns[k].a = Spin /\ theLay.pos[k] = q /\ Gns[k].c = 2
         IN CASE d.c = 0 /\ e.c = 1 -> Sum(comm, s) = Sum(<<<<<<2, 0, 1>>, <<sz>>>>>>, s)
              [] d.c = 2 /\ e.c # 2 -> Sum(comm, s) = Sum(<<<<IF e.c = 0 THEN COne ELSE <<-1, 0, 1>>, <<h>>>>>>, s)
              [] OTHER -> TRUE
=============================================================================
