------------------------------ MODULE Trace_Ring ------------------------------
(* Traces of expressions whose coefficients belong to a non-commutative ring *)
(* (drivers/ring.cpp): quaternions or 2x2 matrices with integer components.  *)
(*                                                                           *)
(* The units of the ring are represented by the generators of an algebra of  *)
(* their own, which commute with all fermions and bosons and multiply        *)
(* according to the rules in the header. So an expression with ring          *)
(* coefficients is an ordinary polynomial here, and the order in which the   *)
(* implementation multiplies coefficients is visible.                        *)
(* Header.one is the identity of the ring; values of registers are multiplied *)
(* by it, as it need not be the empty word (matrices: 1 = e11 + e22).        *)
EXTENDS UserAlgebra

TraceU == Header.gens
TraceRegs == 1..(2 * Header.nr)
IsRing(r) == r <= Header.nr
Ev == Trace[lineNo]

\* logged coefficients: sequences of <<integer, unit (0: none)>>
Val(c) == PSumSeq(LAMBDA t: PMono(CInt(t[1]), IF t[2] = 0 THEN <<>> ELSE <<t[2]>>), c)
One == TLCEval(Val(Header.one))
Lift(t, p) == IF IsRing(t) THEN PMul(p, One) ELSE p
\* logged expressions: sequences of <<coefficient, monomial>>; units come last
\* in the order of generators
ExprOf(ts) == PSumSeq(LAMBDA t: PCat(PMono(COne, t[2]), Val(t[1])), ts)

Units == {k \in 1..N : U[k].a >= 0}
GoodCoef(t, c) ==
  /\ c # <<>>
  /\ \A k \in DOMAIN c : c[k][1] # 0 /\ c[k][1] < 1073741824 /\ c[k][1] > -1073741824
  /\ IsRing(t) \/ c[1][2] = 0
GoodTerms(t, ts) ==
  /\ \A k \in DOMAIN ts : GoodCoef(t, ts[k][1])
  /\ \A k \in DOMAIN ts : \A j \in DOMAIN ts[k][2] : ts[k][2][j] \in (1..N) \ Units
  /\ \A k \in 1..(Len(ts) - 1) : MonLess(Rk, ts[k][2], ts[k + 1][2])
  /\ \A k \in DOMAIN ts : Irreducible(ts[k][2])
LoggedGood == \A k \in DOMAIN Ev.ch : GoodTerms(Ev.ch[k][1], Ev.ch[k][2])
Changed == [k \in DOMAIN Ev.ch |-> Ev.ch[k][1]]
Logged == TLCEval([r \in Regs |->
            IF \E k \in DOMAIN Changed : Changed[k] = r
            THEN ExprOf(Ev.ch[CHOOSE k \in DOMAIN Changed : Changed[k] = r][2])
            ELSE regs[r]])

OK == (Ev.x = "" /\ LoggedGood) = TRUE
Gets(t, p) == OK /\ regs' = Logged /\ (Logged = [regs EXCEPT ![t] = p]) = TRUE
\* the result of an operation on registers and scalars
Ringy(c) == \E k \in DOMAIN c : c[k][2] # 0
BinType == IsRing(Ev.t) <=> (IsRing(Ev.a) \/ IsRing(Ev.b))

RA == regs[Ev.a]
RB == regs[Ev.b]
C == Lift(Ev.t, Val(Ev.c))
ScalarOK == (IF Ev.sr = 0 THEN TRUE
             ELSE LET M == {m \in DOMAIN regs[Ev.sr] :
                              SelectSeq(m, LAMBDA g: g \notin Units) = Ev.sm}
                      p == [m \in M |-> regs[Ev.sr][m]]
                  IN PCat(PMono(COne, Ev.sm), Val(Ev.c)) = p) = TRUE

UHerm(p) == PNO(UConjPoly(p))

\* fermions in the order of their spaces; basis states are their occupation
\* numbers read as binary numbers, the first fermion being the lowest bit
Dofs == TLCEval(SetToSortSeq(FermReps, LAMBDA x, y: x < y))
StateOf(n) == [r \in FermReps |->
                 (n \div Pow2((CHOOSE k \in DOMAIN Dofs : Dofs[k] = r) - 1)) % 2]
NumberOf(s) == FoldLeft(LAMBDA acc, k: acc + s[Dofs[k]] * Pow2(k - 1), 0,
                        [k \in DOMAIN Dofs |-> k])
\* image of a superposition <<state, coefficient>>*: function from states to
\* elements of the ring. Coefficients of the operator multiply amplitudes from
\* the left.
PWords(p) == {SelectSeq(m, LAMBDA g: g \notin Units) : m \in DOMAIN p}
CoefOf(p, w) ==
  LET M == {m \in DOMAIN p : SelectSeq(m, LAMBDA g: g \notin Units) = w}
  IN PSumSet(LAMBDA m: PMono(p[m], SelectSeq(m, LAMBDA g: g \in Units)), M)
ActImage(p, v) ==
  FoldSet(LAMBDA w, acc:
    FoldLeft(LAMBDA ac, a:
      LET x == ApplyWord(w, StateOf(a[1]))
          n == NumberOf(x[1])
          y == PScale(CInt(x[2]), PMul(PMul(CoefOf(p, w), One), Val(a[2])))
      IN IF x[2] = 0 THEN ac
         ELSE (n :> PAdd(IF n \in DOMAIN ac THEN ac[n] ELSE PZero, y)) @@ ac,
      acc, v),
    <<>>, PWords(p))
Result(v) == [n \in {v[k][1] : k \in DOMAIN v} |->
                PSumSeq(LAMBDA a: IF a[1] = n THEN Val(a[2]) ELSE PZero, v)]
NonZeroAmps(f) == {<<n, f[n]>> : n \in {k \in DOMAIN f : f[k] # PZero}}

Act ==
  \/ Is("mono") /\ Gets(Ev.t, Lift(Ev.t, PMul(NO(Ev.w), Val(Ev.c))))
  \/ Is("const") /\ Gets(Ev.t, C)
  \/ Is("clear") /\ Gets(Ev.t, PZero)
  \/ Is("copy") /\ Gets(Ev.t, Lift(Ev.t, RA))
  \/ Is("add") /\ BinType /\ Gets(Ev.t, Lift(Ev.t, PAdd(RA, RB)))
  \/ Is("sub") /\ BinType /\ Gets(Ev.t, Lift(Ev.t, PSub(RA, RB)))
  \/ Is("mul") /\ BinType /\ Gets(Ev.t, Lift(Ev.t, PMul(RA, RB)))
  \/ Is("iadd") /\ Ev.t = Ev.a /\ Gets(Ev.t, Lift(Ev.t, PAdd(RA, RB)))
  \/ Is("isub") /\ Ev.t = Ev.a /\ Gets(Ev.t, Lift(Ev.t, PSub(RA, RB)))
  \/ Is("imul") /\ Ev.t = Ev.a /\ Gets(Ev.t, Lift(Ev.t, PMul(RA, RB)))
  \/ Is("neg") /\ IsRing(Ev.t) = IsRing(Ev.a) /\ Gets(Ev.t, PNeg(RA))
  \/ Is("smul") /\ ScalarOK /\ Gets(Ev.t, Lift(Ev.t, PMul(Val(Ev.c), RA)))
  \/ Is("muls") /\ ScalarOK /\ Gets(Ev.t, Lift(Ev.t, PMul(RA, Val(Ev.c))))
  \/ Is("adds") /\ ScalarOK /\ Gets(Ev.t, PAdd(Lift(Ev.t, RA), C))
  \/ Is("sadd") /\ ScalarOK /\ Gets(Ev.t, PAdd(Lift(Ev.t, RA), C))
  \/ Is("subs") /\ ScalarOK /\ Gets(Ev.t, PSub(Lift(Ev.t, RA), C))
  \/ Is("ssub") /\ ScalarOK /\ Gets(Ev.t, PSub(C, Lift(Ev.t, RA)))
  \/ Is("imuls") /\ ScalarOK /\ Ev.t = Ev.a /\ Gets(Ev.t, PMul(RA, Val(Ev.c)))
  \/ Is("iadds") /\ ScalarOK /\ Ev.t = Ev.a /\ Gets(Ev.t, PAdd(RA, C))
  \/ Is("isubs") /\ ScalarOK /\ Ev.t = Ev.a /\ Gets(Ev.t, PSub(RA, C))
  \/ Is("conj") /\ Gets(Ev.t, UHerm(RA))
  \/ Is("hcadd") /\ Gets(Ev.t, PAdd(RA, UHerm(RA)))
  \/ Is("hcsub") /\ Gets(Ev.t, PSub(RA, UHerm(RA)))
  \/ Is("tr") /\ IsRing(Ev.t)
       /\ Gets(Ev.t, Lift(Ev.t, IF Ev.k = 0 THEN PMul(Val(Ev.c), RA) ELSE PMul(RA, Val(Ev.c))))
  \/ Is("eq") /\ OK /\ Ev.ch = <<>> /\ UNCHANGED regs
       /\ Ev.v = (RA = RB) /\ Ev.nv = ~Ev.v
  \/ Is("act") /\ OK /\ Ev.ch = <<>> /\ UNCHANGED regs
       /\ (NonZeroAmps(ActImage(PScale(CInt(Ev.p), RA), Ev.v)) = NonZeroAmps(Result(Ev.r))) = TRUE

Init == LInit /\ ExprInit
Next == More /\ Step /\ Act
Spec == Init /\ [][Next]_<<lineNo, regs>>
=============================================================================
