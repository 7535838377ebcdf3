---------------------------- MODULE MC_UnionFind -----------------------------
(* (1) Histories for the real code (GSpec). (2) A forest with ranks and path  *)
(* compression as an algorithm; TLC checks that every history of it is one of *)
(* the specification UnionFind (refinement).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxOps
VARIABLES root, flat, hist, nOps, parent, rank, count
vars == <<root, flat, hist, nOps, parent, rank, count>>
U == INSTANCE UnionFind

RECURSIVE Up(_, _)
Up(p, x) == IF p[x] = x THEN x ELSE Up(p, p[x])
RECURSIVE Path(_, _)
Path(p, x) == IF p[x] = x THEN {} ELSE {x} \cup Path(p, p[x])
Squash(p, x) == LET r == Up(p, x) IN [y \in DOMAIN p |-> IF y \in Path(p, x) THEN r ELSE p[y]]
RECURSIVE SquashAll(_, _)
SquashAll(p, x) == IF x \notin DOMAIN p THEN p ELSE SquashAll(Squash(p, x), x + 1)
RECURSIVE Norm(_, _)
Norm(p, x) ==
  IF x \notin DOMAIN p THEN p
  ELSE Norm(IF x > p[x] \/ p[p[x]] # p[x] THEN [p EXCEPT ![x] = p[p[x]]]
            ELSE [p EXCEPT ![p[x]] = x, ![x] = x], x + 1)
Flat(p) == [k \in 1..Cardinality(DOMAIN p) |-> Up(p, k - 1)]
Grown(f, v) == [x \in 0..Cardinality(DOMAIN f) |-> IF x \in DOMAIN f THEN f[x] ELSE v]

Init == /\ U!UInit(2) /\ hist = <<>> /\ nOps = 0 /\ parent = (0 :> 0 @@ 1 :> 1)
        /\ rank = (0 :> 0 @@ 1 :> 0) /\ count = 2
El == DOMAIN parent
Act(name, args) == hist' = Append(hist, <<name, args>>) /\ nOps' = nOps + 1

AMake == /\ Cardinality(El) < MaxN /\ parent' = Grown(parent, Cardinality(El)) /\ rank' = Grown(rank, 0)
         /\ count' = count + 1 /\ Act("make", <<1>>) /\ flat' = flat
AFind(x) == parent' = Squash(parent, x) /\ UNCHANGED <<rank, count, flat>> /\ Act("find", <<x>>)
AUnion(x, y) ==
  LET p == Squash(Squash(parent, x), y)
      a == Up(p, x)
      b == Up(p, y)
  IN /\ Act("union", <<x, y>>)
     /\ IF a = b THEN parent' = p /\ UNCHANGED <<rank, count, flat>>
        ELSE LET t == IF rank[a] < rank[b] THEN b ELSE a
                 s == IF t = a THEN b ELSE a
             IN /\ parent' = [p EXCEPT ![s] = t]
                /\ rank' = IF rank[a] = rank[b] THEN [rank EXCEPT ![a] = @ + 1] ELSE rank
                /\ count' = count - 1 /\ flat' = FALSE
ACompress == parent' = SquashAll(parent, 0) /\ UNCHANGED <<rank, count>> /\ flat' = TRUE /\ Act("compress", <<>>)
ANormalize == parent' = Norm(parent, 0) /\ UNCHANGED <<rank, count, flat>> /\ Act("normalize", <<>>)
Next == /\ nOps < MaxOps
        /\ \/ AMake \/ ACompress \/ ANormalize
           \/ \E x \in El : AFind(x)
           \/ \E x, y \in El : AUnion(x, y)
        /\ root' = Flat(parent')
Spec == Init /\ [][Next]_vars
View == <<parent, rank, count, flat, nOps>>
\* every step of the forest is a step of the specification
Abstract == [][\/ \E k \in 1..2 : U!MakeSets(k)
               \/ UNCHANGED <<root, flat>>
               \/ \E x, y \in U!Elems : \E r \in U!Elems : U!Union(x, y, r)
               \/ U!Compress(root') \/ U!Normalize(root')]_<<root, flat>>
CountOk == count = U!NSets
RootsOk == U!RootsOk

One(T) == {RandomElement(T)}
Keep == UNCHANGED <<parent, rank, count, flat>>
\* the size is the only thing that matters for generating histories
GNext == /\ nOps < MaxOps
         /\ \E k \in One(1..20), x \in One(0..(Len(root) - 1)), y \in One(0..(Len(root) - 1)) :
              /\ CASE k <= 9 -> Act("union", <<x, y>>) /\ root' = root
                   [] k = 10 -> Act("find", <<x>>) /\ root' = root
                   [] k = 11 -> Act("same", <<x, y>>) /\ root' = root
                   [] k = 12 /\ Len(root) < MaxN -> Act("make", <<1>>) /\ root' = root \o <<Len(root)>>
                   [] k = 13 /\ Len(root) + 4 < MaxN ->
                      \E m \in One(0..4) : Act("makes", <<m>>) /\ root' = root \o [j \in 1..m |-> Len(root) + j - 1]
                   [] k = 14 -> Act("compress", <<>>) /\ root' = root
                   [] k = 15 -> Act("normalize", <<>>) /\ root' = root
                   [] k >= 19 -> Act("join", <<x, y>>) /\ root' = root
                   [] OTHER -> Act("compnorm", <<>>) /\ root' = root
         /\ Keep
GSpec == Init /\ [][GNext]_vars
Emit == nOps = MaxOps => PrintT("TRACE " \o ToJson(hist))
=============================================================================
