-------------------------------- MODULE Monos --------------------------------
(* Register machine over monomials. A register holds a sequence of           *)
(* generators (numbers in the universe U); every action changes its target   *)
(* only, whatever its operands are.                                          *)
EXTENDS Text

CONSTANTS U,              \* descriptions of the generators
          MRegs           \* registers

VARIABLE mv

MInit == mv = [r \in MRegs |-> <<>>]
MPut(r, w) == mv' = [mv EXCEPT ![r] = w]

New(r, w) == MPut(r, w)
CopyM(r, a) == MPut(r, mv[a])
MoveM(r, a) == mv' = [mv EXCEPT ![r] = mv[a], ![a] = <<>>]
SwapM(r, a) == mv' = [mv EXCEPT ![r] = mv[a], ![a] = mv[r]]
AppendG(r, g) == MPut(r, Append(mv[r], g))
AppendM(r, a) == MPut(r, mv[r] \o mv[a])
\* positions i + 1 .. j of register a
AppendR(r, a, i, j) == MPut(r, mv[r] \o SubSeq(mv[a], i + 1, j))
\* a part: <<"g", generator>>, <<"m", register>>, <<"r", register, i, j>>
Part(p) == CASE p[1] = "g" -> <<p[2]>>
             [] p[1] = "m" -> mv[p[2]]
             [] p[1] = "r" -> SubSeq(mv[p[2]], p[3] + 1, p[4])
RECURSIVE Parts(_, _)
Parts(ps, k) == IF k > Len(ps) THEN <<>> ELSE Part(ps[k]) \o Parts(ps, k + 1)
Concat(r, ps) == MPut(r, Parts(ps, 1))
\* exchange the generators at positions i and j (counted from zero)
SwapG(r, i, j) == MPut(r, [mv[r] EXCEPT ![i + 1] = mv[r][j + 1], ![j + 1] = mv[r][i + 1]])

\* what is observed
ReverseM(w) == [k \in DOMAIN w |-> w[Len(w) + 1 - k]]
Expand(w) == [k \in DOMAIN w |-> U[w[k]]]
Sorted(w) == \A k \in 1..(Len(w) - 1) : GenCmp(U[w[k]], U[w[k + 1]]) <= 0
Flags(c) == CASE c = 0 -> 1 [] c < 0 -> 6 [] c > 0 -> 10
CmpM(a, b) == Flags(MonCmp(Expand(mv[a]), Expand(mv[b])))
GTexts == [k \in DOMAIN U |-> GenText(U[k])]
TextM(a) == MonText(GTexts, mv[a])
=============================================================================
