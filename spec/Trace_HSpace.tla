---------------------------- MODULE Trace_HSpace -----------------------------
(* Validation of histories recorded by drivers/hspace.cpp: every operation   *)
(* is a step of the machine of HSpace; what a space tells about itself, what *)
(* the comparison operators and the enumeration of basis states report is    *)
(* what the machine's state determines.                                      *)
EXTENDS TraceBase, HSpace

TraceES == Header.es
Gns == Header.gens
TraceHRegs == 1..Header.nr
VARIABLE seen           \* contents of the registers when last reported
tvars == <<lineNo, hvars, seen>>

Ev == Trace[lineNo]
Err == Ev.x[1]

BitsRange(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
\* set bits of a wide number shifted by lo
RECURSIVE WBits(_, _, _)
WBits(a, k, lo) == IF k > Len(a) THEN <<>>
                   ELSE BitsOf(a[k], lo + 15 * (k - 1)) \o WBits(a, k + 1, lo)
Query(S, o, k) ==
  LET J == MemberFor(S, k)
  IN IF J = {} THEN <<-3>>
     ELSE LET j == CHOOSE x \in J : TRUE
          IN <<(CHOOSE p \in DOMAIN o : o[p] = j) - 1, BitLo(S, j), BitHi(S, j), ES[j].dim,
               WBits(WDec(IF WCmp(ES[j].dim, ES[k].dim) < 0 THEN ES[j].dim ELSE ES[k].dim), 1, BitLo(S, j))>>
RECURSIVE AlgList(_, _, _)
AlgList(S, A, a) ==
  IF a > 9 THEN <<>>
  ELSE (IF a \in A THEN <<<<a, AlgLo(S, a), AlgHi(S, a)>>>> ELSE <<>>) \o AlgList(S, A, a + 1)
\* everything an object holding S has to tell
Dump(S) ==
  LET o == TLCEval(InOrder(S))
  IN [es |-> o, size |-> Cardinality(S), nb |-> TotalBits(S), dim |-> DimOf(S),
      vs |-> VecSize(S), sp |-> Sparse(S), fr |-> TRUE,
      q |-> [k \in 1..NE |-> Query(S, o, k)],
      alg |-> AlgList(S, Algebras(S), -5)]
\* reported changes are exactly the changes
Changed == {Ev.ch[k][1] : k \in DOMAIN Ev.ch}
Reported ==
  LET C == Changed
  IN /\ \A k \in DOMAIN Ev.ch :
          LET r == Ev.ch[k][1]
          IN r \notin moved' /\ TLCEval(Ev.ch[k][2]) = TLCEval(Dump(hs'[r]))
     /\ \A r \in HRegs \ (moved' \cup C) : seen[r] = hs'[r]
Seen == seen' = [r \in HRegs |-> IF r \in Changed THEN hs'[r] ELSE seen[r]]
Obs == (Reported) = TRUE /\ Seen

EInit == Is("init") /\ UNCHANGED hvars /\ Err = "" /\ Obs

\* construction from a list
Members(s) == {s[k] : k \in DOMAIN s}
RECURSIVE PrefixBits(_, _)
PrefixBits(s, n) == IF n = 0 THEN 0 ELSE PrefixBits(s, n - 1) + EsBits[s[n]]
EMake == /\ Is("new") \/ Is("vec")
         /\ IF Err = "" THEN Make(Ev.t, Ev.l)
            ELSE Refuse
         /\ (CASE Err = "" -> TRUE
               [] Err = "exists" -> /\ MakeExists(Ev.l)
                                    /\ \E j, k \in DOMAIN Ev.l :
                                         j # k /\ SameEs(Ev.l[j], Ev.l[k]) /\ SameEs(Ev.l[j], Ev.x[2])
               [] Err = "toobig" -> /\ MakeTooBig(Ev.l)
                                    /\ \E n \in DOMAIN Ev.l : PrefixBits(Ev.l, n) > MaxBits
                                                              /\ Ev.x[2] = PrefixBits(Ev.l, n)
               [] OTHER -> FALSE) = TRUE
         /\ Obs
EAdd == /\ Is("add")
        /\ IF Err = "" THEN AddH(Ev.t, Ev.k) ELSE Refuse /\ Live(Ev.t)
        /\ (CASE Err = "" -> TRUE
              [] Err = "exists" -> AddExists(Ev.t, Ev.k) /\ SameEs(Ev.k, Ev.x[2])
              [] Err = "toobig" -> AddTooBig(Ev.t, Ev.k)
                                   /\ Ev.x[2] = TotalBits(hs[Ev.t] \cup {Ev.k})
              [] OTHER -> FALSE) = TRUE
        /\ Obs
ECopy == (Is("copy") \/ Is("cctor")) /\ Err = "" /\ CopyH(Ev.t, Ev.a) /\ Obs
EMove == (Is("move") \/ Is("mctor")) /\ Err = "" /\ MoveH(Ev.t, Ev.a) /\ Obs
ESwap == /\ Is("swap") /\ Err = ""
         /\ Live(Ev.t) /\ Live(Ev.a)
         /\ hs' = [hs EXCEPT ![Ev.t] = hs[Ev.a], ![Ev.a] = hs[Ev.t]] /\ moved' = moved
         /\ Obs
EEqs == /\ Is("eqs") /\ Refuse
        /\ (\A a, b \in HRegs :
              Ev.v[a][b] = IF a \in moved \/ b \in moved THEN 0
                           ELSE IF SameStructure(hs[a], hs[b]) THEN 1 ELSE 2) = TRUE
        /\ Obs

-----------------------------------------------------------------------------
\* Enumeration
WMin(w, n) == IF Len(w) <= 2 /\ WInt(w) < n THEN WInt(w) ELSE n
EForeach ==
  /\ Is("foreach") /\ Refuse /\ Live(Ev.t)
  /\ (LET S == hs[Ev.t]
          o == TLCEval(InOrder(S))
          n == WMin(DimOf(S), Ev.lim)
      IN /\ Len(Ev.s) = n
         /\ Ev.st = (n = Ev.lim)
         /\ \A k \in 1..n : Ev.s[k] = IndexBits(o, Digits(o, 1, k - 1), 1, 0)) = TRUE
  /\ Obs
\* every step-th one of the first states
ESample ==
  /\ Is("sample") /\ Refuse /\ Live(Ev.t)
  /\ (LET S == hs[Ev.t]
          o == TLCEval(InOrder(S))
          n == IF WCmp(DimOf(S), WOf(Ev.lim)) = -1 THEN WInt(DimOf(S)) ELSE Ev.lim
      IN /\ Ev.n = n /\ Ev.asc
         /\ Ev.st = (n = Ev.lim)
         /\ Len(Ev.s) = (n + Ev.step - 1) \div Ev.step
         /\ \A k \in DOMAIN Ev.s : Ev.s[k] = IndexBits(o, Digits(o, 1, (k - 1) * Ev.step), 1, 0)) = TRUE
  /\ Obs
AllInts(S, m) ==
  LET o == TLCEval(InOrder(S))
  IN TLCEval([k \in 1..m |-> IndexInt(o, Digits(o, 1, k - 1), 1, 1)])
EForeachS ==
  /\ Is("foreachs") /\ Refuse /\ Live(Ev.t)
  /\ (LET S == hs[Ev.t]
          d == WInt(DimOf(S))
      IN /\ Ev.n = d
         /\ Ev.s = AllInts(S, IF d < 20000 THEN d ELSE 20000)) = TRUE
  /\ Obs
\* nested iterations: at every second state of the outer iteration the inner
\* one is abandoned after Ev.lim states
ENest ==
  /\ Is("nest") /\ Refuse /\ Live(Ev.t) /\ Live(Ev.a)
  /\ (LET o == AllInts(hs[Ev.t], WInt(DimOf(hs[Ev.t])))
          i == AllInts(hs[Ev.a], WInt(DimOf(hs[Ev.a])))
          j == SubSeq(i, 1, IF Ev.lim < Len(i) THEN Ev.lim ELSE Len(i))
      IN /\ Ev.o = o
         /\ Len(Ev.in) = Len(o)
         /\ \A k \in DOMAIN o : Ev.in[k] = IF k % 2 = 1 THEN i ELSE j) = TRUE
  /\ Obs

-----------------------------------------------------------------------------
\* Construction from an expression: rules, see the driver
GensOf(p) == UNION {{p[k][2][j] : j \in DOMAIN p[k][2]} : k \in DOMAIN p}
Handles(r, a) ==
  CASE r = "default" -> a \in {Fermion, Spin}
    [] r = "boson" -> a \in {Fermion, Boson, Spin}
    [] r = "f" -> a = Fermion
    [] r = "b" -> a = Boson
    [] r = "s" -> a = Spin
    [] r = "fb" -> a \in {Fermion, Boson}
    [] r = "bs" -> a \in {Boson, Spin}
    [] r = "all" -> a \in {Fermion, Boson, Spin, 1}
    [] r = "fu" -> a \in {Fermion, 1}
    [] r = "all2" -> a \in {Fermion, Boson, Spin, 1, 2}
    [] r = "su2" -> a \in {Spin, 2}
    [] r = "bu2" -> a \in {Boson, 2}
    [] r = "fu2" -> a \in {Fermion, 2}
    [] r = "u2" -> a = 2
    [] r = "own" -> a \in {Fermion, Boson, Spin}
\* parameter of the rule for algebra 2
UserDim(r) == CASE r \in {"all2", "su2"} -> 6 [] r \in {"bu2", "u2"} -> 9 [] OTHER -> 3
\* the space a generator acts in. The rule "own" gives bosonic modes a
\* dimension that depends on their last index
LastInt(g) == IF g.i = <<>> THEN 0 ELSE LET c == g.i[Len(g.i)] IN c[2] % 3
Needs(r, d, g) ==
  [a |-> g.a, m |-> IF g.a = Spin THEN g.m ELSE 0,
   dim |-> CASE g.a = Fermion -> <<2>>
             [] g.a = Boson -> IF r = "own" THEN WNorm(WAdd(d, WOf(LastInt(g)))) ELSE d
             [] g.a = Spin -> WOf(g.m)
             [] g.a = 2 -> WOf(UserDim(r))
             [] OTHER -> <<5>>,
   i |-> g.i]
EExpr ==
  /\ Is("expr")
  /\ IF Err = ""
     THEN (\E S \in {{k \in 1..NE : \E x \in {Needs(Ev.r, Ev.d, Gns[g]) : g \in GensOf(Ev.p)} :
                          ES[k] = x}} :
             PutH(Ev.t, S))
     ELSE Refuse
  /\ (LET G == GensOf(Ev.p)
          N == {Needs(Ev.r, Ev.d, Gns[g]) : g \in G}
          bad == {g \in G : ~Handles(Ev.r, Gns[g].a)}
          bits == FoldSet(LAMBDA x, acc: acc + WBitLen(WDec(x.dim)), 0, N)
      IN CASE Err = "" -> /\ bad = {}
                          /\ bits <= MaxBits
                          \* the script declares all spaces that are needed
                          /\ \A x \in N : \E k \in 1..NE : ES[k] = x
           [] Err = "failure" -> Ev.x[2] \in bad
           [] Err = "toobig" -> bad = {} /\ bits > MaxBits
           [] OTHER -> FALSE) = TRUE
  /\ Obs

Init == LInit /\ HInit /\ seen = [r \in HRegs |-> {}]
Next == More /\ Step /\ (EInit \/ EMake \/ EAdd \/ ECopy \/ EMove \/ ESwap \/ EEqs \/ EForeach \/ ESample
                         \/ EForeachS \/ ENest \/ EExpr)
Spec == Init /\ [][Next]_tvars
\* the machine's own invariants along the trace
Sound == \A r \in HRegs : Compatible(hs[r]) /\ TotalBits(hs[r]) <= MaxBits
=============================================================================
