------------------------------- MODULE MC_Expr -------------------------------
(* The register machine of Expr explored by TLC itself: ring laws, adjoint   *)
(* laws and canonical form in every reachable state; the behaviours are also *)
(* used as scripts for the real code (hist, printed by Emit).                *)
EXTENDS Expr, Json, MCU_Universes

CONSTANTS MaxOps, MaxTerms, MaxDeg, MaxNum

VARIABLES hist, nOps
vars == <<regs, hist, nOps>>

Coefs == IF MaxNum < 16 THEN {<<-1, 0, 1>>} ELSE {<<1, 0, 1>>, <<-1, 0, 1>>, <<2, 0, 1>>, <<1, 0, 2>>}

Size(p) == Cardinality(DOMAIN p)
Deg(p) == IF p = PZero THEN 0 ELSE MaxSet({Len(m) : m \in DOMAIN p})
Num1(p) == IF p = PZero THEN 0
           ELSE MaxSet({MaxSet({AbsI(p[m][1]), AbsI(p[m][2]), p[m][3]}) : m \in DOMAIN p})
Small(p) == Size(p) <= MaxTerms /\ Deg(p) <= MaxDeg /\ Num1(p) <= MaxNum

\* an operation and its record in the history (a script line for the driver)
Op(A, name, args) == A /\ hist' = Append(hist, <<name, args>>)

Mono == \E t \in Regs, c \in Coefs, g \in 1..N :
          \/ Op(SetMono(t, c, <<g>>), "mono", <<t, c, <<g>>>>)
          \/ \E h \in 1..N : Op(SetMono(t, c, <<g, h>>), "mono", <<t, c, <<g, h>>>>)
Binary == \E t, a, b \in Regs :
          \/ Op(Add(t, a, b), "add", <<t, a, b>>)
          \/ Op(Sub(t, a, b), "sub", <<t, a, b>>)
          \/ Op(Mul(t, a, b), "mul", <<t, a, b>>)
Compound == \E t, a \in Regs :
          \/ Op(Add(t, t, a), "iadd", <<t, a>>)
          \/ Op(Sub(t, t, a), "isub", <<t, a>>)
          \/ Op(Mul(t, t, a), "imul", <<t, a>>)
Unary == \E t, a \in Regs :
          \/ Op(Neg(t, a), "neg", <<t, a>>)
          \/ Op(Conj(t, a), "conj", <<t, a>>)
          \/ Op(HcAdd(t, a), "hcadd", <<t, a>>)
          \/ Op(HcSub(t, a), "hcsub", <<t, a>>)
          \/ Op(Copy(t, a), "copy", <<t, a>>)
          \/ t # a /\ Op(Move(t, a), "move", <<t, a>>)
          \/ Op(SwapR(t, a), "swap", <<t, a>>)
Scalar == \E t, a \in Regs, c \in Coefs :
          \/ Op(SMul(t, a, c), "smul", <<t, a, c>>)
          \/ Op(SMul(t, a, c), "muls", <<t, a, c>>)
          \/ Op(AddS(t, a, c), "adds", <<t, a, c>>)
          \/ Op(AddS(t, a, c), "sadd", <<t, a, c>>)
          \/ Op(SubS(t, a, c), "subs", <<t, a, c>>)
          \/ Op(SSub(t, a, c), "ssub", <<t, a, c>>)
          \/ Op(SMul(t, t, c), "imuls", <<t, t, c>>)
          \/ Op(AddS(t, t, c), "iadds", <<t, t, c>>)
          \/ Op(SubS(t, t, c), "isubs", <<t, t, c>>)

Init == ExprInit /\ hist = <<>> /\ nOps = 0
Bounded == \A r \in Regs : Small(regs'[r])
\* the first operations fill the registers
Next == /\ nOps < MaxOps
        /\ nOps' = nOps + 1
        /\ IF nOps < Cardinality(Regs) THEN Mono
           ELSE Mono \/ Binary \/ Compound \/ Unary \/ Scalar
        /\ Bounded
Spec == Init /\ [][Next]_vars

\* The same with operands drawn at random, for the generation of behaviours
One(SS) == {RandomElement(SS)}
GMono == \E t \in One(Regs), c \in One(Coefs), g \in One(1..N), h \in One(1..N) :
          \/ Op(SetMono(t, c, <<g>>), "mono", <<t, c, <<g>>>>)
          \/ Op(SetMono(t, c, <<g, h>>), "mono", <<t, c, <<g, h>>>>)
GOp == \E t \in One(Regs), a \in One(Regs), b \in One(Regs), c \in One(Coefs),
          k \in One(1..22) :
         CASE k \in {1, 2} -> Op(Add(t, a, b), "add", <<t, a, b>>)
           [] k \in {3, 4} -> Op(Sub(t, a, b), "sub", <<t, a, b>>)
           [] k \in {5, 6} -> Op(Mul(t, a, b), "mul", <<t, a, b>>)
           [] k = 7 -> Op(Add(t, t, a), "iadd", <<t, a>>)
           [] k = 8 -> Op(Sub(t, t, a), "isub", <<t, a>>)
           [] k \in {9, 10} -> Op(Mul(t, t, a), "imul", <<t, a>>)
           [] k = 11 -> Op(Neg(t, a), "neg", <<t, a>>)
           [] k = 12 -> Op(Conj(t, a), "conj", <<t, a>>)
           [] k = 13 -> Op(HcAdd(t, a), "hcadd", <<t, a>>)
           [] k = 14 -> Op(HcSub(t, a), "hcsub", <<t, a>>)
           [] k = 15 -> Op(Copy(t, a), "copy", <<t, a>>)
           [] k = 16 -> IF t = a THEN Op(Copy(t, a), "copy", <<t, a>>)
                        ELSE Op(Move(t, a), "move", <<t, a>>)
           [] k = 17 -> Op(SwapR(t, a), "swap", <<t, a>>)
           [] k = 18 -> Op(SMul(t, a, c), "smul", <<t, a, c>>)
           [] k = 19 -> Op(SSub(t, a, c), "ssub", <<t, a, c>>)
           [] k = 20 -> Op(SMul(t, t, c), "imuls", <<t, t, c>>)
           [] k = 21 -> Op(AddS(t, t, c), "iadds", <<t, t, c>>)
           [] k = 22 -> Op(SubS(t, t, c), "isubs", <<t, t, c>>)
GNext == /\ nOps < MaxOps
         /\ nOps' = nOps + 1
         /\ IF nOps < Cardinality(Regs) THEN GMono ELSE GOp
         /\ IF Bounded THEN TRUE ELSE FALSE
GSpec == Init /\ [][GNext]_vars
\* histories do not distinguish states when exploring exhaustively
View == <<regs, nOps>>

CanonicalRegs ==
  \A r \in Regs : \A m \in DOMAIN regs[r] :
     Irreducible(m) /\ ~IsZ(regs[r][m]) /\ CValid(regs[r][m])
RingLaws ==
  \A a, b \in Regs :
    LET x == regs[a]
        y == regs[b]
        c == CHOOSE r \in Regs : TRUE
        z == regs[c]
    IN /\ PAdd(x, y) = PAdd(y, x)
       /\ PSub(PAdd(x, y), y) = x
       /\ PMul(x, PAdd(y, z)) = PAdd(PMul(x, y), PMul(x, z))
       /\ PMul(PAdd(y, z), x) = PAdd(PMul(y, x), PMul(z, x))
       /\ PMul(PMul(x, y), z) = PMul(x, PMul(y, z))
AdjointLaws ==
  \A a, b \in Regs :
    LET x == regs[a]
        y == regs[b]
        H(p) == PNO(ConjPoly(p))
    IN /\ H(H(x)) = x
       /\ H(PAdd(x, y)) = PAdd(H(x), H(y))
       /\ H(PMul(x, y)) = PMul(H(y), H(x))
       /\ H(PScale(<<0, 1, 1>>, x)) = PScale(<<0, -1, 1>>, H(x))
EqualIffSameOperator ==
  \A a, b \in Regs : (regs[a] = regs[b]) <=> SameOperator(regs[a], regs[b])
ProductDenotes ==
  \A a, b \in Regs : SameOperator(PMul(regs[a], regs[b]), PCat(regs[a], regs[b]))

\* print complete behaviours
Emit == nOps = MaxOps => PrintT("TRACE " \o ToJson(hist))
=============================================================================
