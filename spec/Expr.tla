-------------------------------- MODULE Expr --------------------------------
(* Register machine over expressions. A register holds a polynomial in       *)
(* canonical form; every action changes the target register only.            *)
(* The machine is the specification of the public arithmetic of `expression` *)
EXTENDS Fock, Rewrite

CONSTANTS Regs            \* numbers of registers

VARIABLE regs

ExprInit == regs = [r \in Regs |-> PZero]
\* The value register t keeps when p is stored into it: coefficients may live in
\* a homomorphic image of the Gaussian rationals (trace specifications override
\* this definition)
Fit(t, p) == p
Put(t, p) == regs' = [regs EXCEPT ![t] = Fit(t, p)]

SetMono(t, c, w) == Put(t, PScale(c, NO(w)))
SetConst(t, c)   == Put(t, PConst(c))
Clear(t)         == Put(t, PZero)
Copy(t, a)       == Put(t, regs[a])
Move(t, a)       == regs' = [regs EXCEPT ![t] = regs[a], ![a] = PZero]
SwapR(t, a)      == regs' = [regs EXCEPT ![t] = regs[a], ![a] = regs[t]]
\* conversion of the coefficients to a narrower type, f on each of them
Narrow(t, a, f(_)) == Put(t, Prune(TLCEval([m \in DOMAIN regs[a] |-> f(regs[a][m])])))
Add(t, a, b)     == Put(t, PAdd(regs[a], regs[b]))
Sub(t, a, b)     == Put(t, PSub(regs[a], regs[b]))
Mul(t, a, b)     == Put(t, PMul(regs[a], regs[b]))
Neg(t, a)        == Put(t, PNeg(regs[a]))
SMul(t, a, c)    == Put(t, PScale(c, regs[a]))
AddS(t, a, c)    == Put(t, PAdd(regs[a], PConst(c)))
SubS(t, a, c)    == Put(t, PSub(regs[a], PConst(c)))
SSub(t, a, c)    == Put(t, PSub(PConst(c), regs[a]))
Conj(t, a)       == Put(t, PNO(ConjPoly(regs[a])))
HcAdd(t, a)      == Put(t, PAdd(regs[a], PNO(ConjPoly(regs[a]))))
HcSub(t, a)      == Put(t, PSub(regs[a], PNO(ConjPoly(regs[a]))))
TrFun(k, m, c) == CASE k = 0 -> CAdd(c, c)
                    [] k = 1 -> IF Len(m) % 2 = 1 THEN CZero ELSE c
                    [] k = 2 -> CConj(c)
TrVal(a, k) == Prune(TLCEval([m \in DOMAIN regs[a] |-> TrFun(k, m, regs[a][m])]))
Transform(t, a, k) == Put(t, TrVal(a, k))
=============================================================================
