------------------------------ MODULE Trace_Expr ------------------------------
(* Validation of traces recorded by drivers/expr.cpp.                        *)
(*                                                                           *)
(* If the canonical form of the universe's algebras is unique, every logged  *)
(* expression has to be exactly the one computed by the specification.       *)
(* Otherwise (spins S > 1/2) it has to be sorted, irreducible, free of zero  *)
(* coefficients and denote the same operator.                                *)
EXTENDS TraceBase, Factories, Text

TraceU == Header.gens
NB == Len(Header.types)
TraceRegs == 1..(NB * Header.nr)
TypeOf(r) == Header.types[1 + (r - 1) \div Header.nr]

\* promoted types of arithmetic operations
Rank == [schar |-> 0, short |-> 1, ushort |-> 1, int |-> 2, unsigned |-> 3, long |-> 4,
         float |-> 5, double |-> 6, ldouble |-> 7]
SmallInts == {"schar", "short", "ushort"}
Promote(s, t) ==
  IF s = t THEN IF s \in SmallInts THEN "int" ELSE s
  ELSE IF s \in DOMAIN Rank /\ t \in DOMAIN Rank THEN
         IF Rank[s] <= 2 /\ Rank[t] <= 2 THEN "int"
         ELSE IF Rank[s] > Rank[t] THEN s ELSE t
  ELSE CASE {s, t} = {"float", "cfloat"} -> "cfloat"
         [] {s, t} = {"double", "cdouble"} -> "cdouble"
         [] {s, t} = {"int", "rint"} -> "rint"
         [] {s, t} = {"long", "rlong"} -> "rlong"
         [] OTHER -> "none"
Integral == SmallInts \cup {"int", "unsigned", "long", "mpz", "z12"}

\* a ring with zero divisors
ModC(c) == <<c[1] % 12, 0, 1>>
\* real numbers converted to integers are truncated
TruncC(c) == IF c[3] = 1 THEN c
             ELSE IF c[1] >= 0 THEN <<c[1] \div c[3], 0, 1>> ELSE <<-((-c[1]) \div c[3]), 0, 1>>
TraceFit(t, p) ==
  CASE TypeOf(t) = "z12" -> Prune(TLCEval([m \in DOMAIN p |-> ModC(p[m])]))
    [] TypeOf(t) \in Integral -> Prune(TLCEval([m \in DOMAIN p |-> TruncC(p[m])]))
    [] OTHER -> p

Ev == Trace[lineNo]

\* a logged expression: numbers of known generators, valid non-zero
\* coefficients, strictly ascending irreducible monomials
GoodTerms(ts) ==
  /\ TermsValid(ts)
  /\ \A k \in DOMAIN ts : \A j \in DOMAIN ts[k][2] : ts[k][2][j] \in 1..N
  /\ TermsSorted(Rk, ts)
  /\ \A k \in DOMAIN ts : Irreducible(ts[k][2])
GoodType(ts, ty) == ty \in Integral => \A k \in DOMAIN ts : ts[k][1][3] = 1

\* values of all registers after the event, as logged
Changed == [k \in DOMAIN Ev.ch |-> Ev.ch[k][1]]
Logged == TLCEval([r \in Regs |->
            IF \E k \in DOMAIN Changed : Changed[k] = r
            THEN PTerms(Ev.ch[CHOOSE k \in DOMAIN Changed : Changed[k] = r][2])
            ELSE regs[r]])
LoggedGood == \A k \in DOMAIN Ev.ch :
                 GoodTerms(Ev.ch[k][2]) /\ GoodType(Ev.ch[k][2], TypeOf(Ev.ch[k][1]))

\* The event is the given action of the specification
\* ("= TRUE" makes TLC evaluate a predicate instead of exploring its disjuncts)
OK == (Ev.x = "" /\ Ev.it /\ LoggedGood) = TRUE
Exact(A) == OK /\ A /\ regs' = Logged
\* The target is assigned a value that denotes the operator P. (P is rewritten
\* first, which does not change the operator - see MC_Rewrite - and cancels most
\* of the terms.)
Sem(t, P) ==
  /\ OK
  /\ \A r \in Regs \ {t} : Logged[r] = regs[r]
  /\ (LET D == PSub(Logged[t], PNO(P))
      IN D = PZero \/ SameOperator(D, PZero)) = TRUE
  /\ regs' = Logged

\* Can rewriting the products of two expressions involve non-integer structure
\* constants, i.e. do two components of the same spin-1/2 meet
HalfMeet(w) == \E i, j \in DOMAIN w : i < j /\ U[w[i]].a = Spin /\ U[w[i]].m = 2
                                        /\ SameDof(U[w[i]], U[w[j]])
MayRefuse(ty, W) == ty \in Integral /\ \E w \in W : HalfMeet(w)
\* A refused operation leaves everything as it was
Refused(t, W) ==
  /\ Ev.x = "runtime_error"
  /\ (MayRefuse(TypeOf(t), W) /\ LoggedGood) = TRUE
  /\ \A r \in Regs : Logged[r] = regs[r]
  /\ UNCHANGED regs

Words(p, q) == {a \o b : a \in DOMAIN p, b \in DOMAIN q}
\* Operations that rewrite products
Product(t, A, P, W) ==
  IF Ev.x # "" THEN Refused(t, W)
  ELSE IF UniqueForm THEN Exact(A) ELSE Sem(t, P)

\* scalar operand: a literal, or the coefficient a register holds
ScalarOK == (IF Ev.sr = 0 THEN TRUE
             ELSE /\ Ev.sm \in DOMAIN regs[Ev.sr]
                  /\ regs[Ev.sr][Ev.sm] = Ev.c
                  /\ Ev.tc = TypeOf(Ev.sr)) = TRUE
\* in-place operations keep the type of the target; others promote
BinType == TypeOf(Ev.t) = Promote(TypeOf(Ev.a), TypeOf(Ev.b))
ScType == TypeOf(Ev.t) = Promote(TypeOf(Ev.a), Ev.tc)

\* A listing of all terms of a register, in ascending order
Terms(ts, a) == (PTerms(ts) = regs[a] /\ TermsSorted(Rk, ts)) = TRUE
\* transformations 3 .. 5: nothing, by the length of the monomial, by the number
\* of the call
TrNew(k, n, m) == CASE k = 3 -> CZero
                    [] k = 4 -> CInt(Len(m) + 1)
                    [] k = 5 -> CInt(n % 3)
TrCalls(ts, k) == PTerms(TLCEval([n \in DOMAIN ts |-> <<TrNew(k, n, ts[n][2]), ts[n][2]>>]))

\* What iterators and the stream insertion operator present
RECURSIVE Twice(_, _)
Twice(ts, k) == IF k > Len(ts) THEN <<>>
                ELSE (IF k % 2 = 1 THEN <<ts[k], ts[k]>> ELSE <<ts[k]>>) \o Twice(ts, k + 1)
UTexts == TLCEval([k \in DOMAIN U |-> GenText(U[k])])
Shown ==
  LET ts == Ev.f
      ty == TypeOf(Ev.a)
  IN /\ Terms(ts, Ev.a)
     /\ (Ev.b = [k \in DOMAIN ts |-> ts[Len(ts) + 1 - k]]) = TRUE
     /\ (Ev.z = Twice(ts, 1)) = TRUE
     /\ Ev.n = Len(ts)
     /\ (IF (IF ts = <<>> THEN ty # "z12" ELSE \A k \in DOMAIN ts : Plain(ty, ts[k][1]))
        THEN Unsigned(Ev.s, 1) = ExprText(ty, UTexts, ts) ELSE TRUE) = TRUE

\* user-defined generators have no representation here
Denotable == \A k \in 1..N : U[k].a < 0
\* words whose canonical form settles the matter: of any length
Uniform(w) == w # <<>> /\ \A k \in DOMAIN w : w[k] = w[1]
Word ==
  /\ Is("word")
  /\ UNCHANGED regs
  /\ (LET w == Ev.w
          r == PTerms(Ev.r)
      IN IF Ev.x # "" THEN Ev.x = "runtime_error" /\ MayRefuse(TypeOf(1), {w})
         ELSE /\ GoodTerms(Ev.r)
              /\ GoodType(Ev.r, TypeOf(1))
              /\ (UniqueForm \/ Uniform(w)) => r = NO(w)
              /\ Denotable /\ ~(Len(w) > 8 /\ (UniqueForm \/ Uniform(w))) =>
                    SameOperator(r, w :> COne)) = TRUE

\* Constants given as integers, rational or floating point numbers: exactly the
\* number, or refused by types that cannot hold them
Rationals == {"rint", "rlong", "mpq"}
\* by the way the number is given: (i)nteger, (r)ational, (f)loating point
\* var_number, or (d)ouble
Holds(ty, way, num) ==
  CASE way = "i" -> TRUE
    [] way = "d" -> ty \in Integral \cup Rationals => num[3] = 1
    [] way = "r" -> ty \notin Integral
    [] way = "f" -> ty \notin Integral \cup Rationals
Constant ==
  /\ Is("num")
  /\ UNCHANGED regs
  /\ (IF Ev.x = "" THEN Ev.r = Ev.c
      ELSE Ev.x = "runtime_error" /\ ~Holds(Ev.ty, Ev.way, Ev.c)) = TRUE

Act ==
  \/ Is("mono") /\ Product(Ev.t, SetMono(Ev.t, Ev.c, Ev.w), PMono(Ev.c, Ev.w), {Ev.w})
  \/ Is("fac") /\ (/\ Ev.ty = FacType(Ev.f, Ev.s)
                  /\ TypeOf(Ev.t) = Ev.ty) = TRUE
       /\ Exact(Put(Ev.t, FacDef(Ev.f, Ev.m, Ev.ix)))
  \/ Is("const") /\ Exact(SetConst(Ev.t, Ev.c))
  \/ Is("clear") /\ Exact(Clear(Ev.t))
  \/ Is("copy") /\ Exact(Copy(Ev.t, Ev.a))
  \/ Is("conv") /\ (IF TypeOf(Ev.t) \in Integral /\ TypeOf(Ev.a) \notin Integral
                   THEN Exact(Narrow(Ev.t, Ev.a, TruncC)) ELSE Exact(Copy(Ev.t, Ev.a)))
  \/ Is("move") /\ Exact(Move(Ev.t, Ev.a))
  \/ Is("swap") /\ Exact(SwapR(Ev.t, Ev.a))
  \/ Is("add") /\ BinType /\ Exact(Add(Ev.t, Ev.a, Ev.b))
  \/ Is("sub") /\ BinType /\ Exact(Sub(Ev.t, Ev.a, Ev.b))
  \/ Is("iadd") /\ Ev.t = Ev.a /\ Exact(Add(Ev.t, Ev.a, Ev.b))
  \/ Is("isub") /\ Ev.t = Ev.a /\ Exact(Sub(Ev.t, Ev.a, Ev.b))
  \/ Is("mul") /\ BinType
       /\ Product(Ev.t, Mul(Ev.t, Ev.a, Ev.b), PCat(regs[Ev.a], regs[Ev.b]),
                  Words(regs[Ev.a], regs[Ev.b]))
  \/ Is("imul") /\ Ev.t = Ev.a
       /\ Product(Ev.t, Mul(Ev.t, Ev.a, Ev.b), PCat(regs[Ev.a], regs[Ev.b]),
                  Words(regs[Ev.a], regs[Ev.b]))
  \/ Is("neg") /\ Exact(Neg(Ev.t, Ev.a))
  \/ Is("smul") /\ ScalarOK /\ ScType /\ Exact(SMul(Ev.t, Ev.a, Ev.c))
  \/ Is("muls") /\ ScalarOK /\ ScType /\ Exact(SMul(Ev.t, Ev.a, Ev.c))
  \/ Is("adds") /\ ScalarOK /\ ScType /\ Exact(AddS(Ev.t, Ev.a, Ev.c))
  \/ Is("sadd") /\ ScalarOK /\ ScType /\ Exact(AddS(Ev.t, Ev.a, Ev.c))
  \/ Is("subs") /\ ScalarOK /\ ScType /\ Exact(SubS(Ev.t, Ev.a, Ev.c))
  \/ Is("ssub") /\ ScalarOK /\ ScType /\ Exact(SSub(Ev.t, Ev.a, Ev.c))
  \/ Is("imuls") /\ ScalarOK /\ Ev.t = Ev.a /\ Exact(SMul(Ev.t, Ev.a, Ev.c))
  \/ Is("iadds") /\ ScalarOK /\ Ev.t = Ev.a /\ Exact(AddS(Ev.t, Ev.a, Ev.c))
  \/ Is("isubs") /\ ScalarOK /\ Ev.t = Ev.a /\ Exact(SubS(Ev.t, Ev.a, Ev.c))
  \/ Is("conj")
       /\ Product(Ev.t, Conj(Ev.t, Ev.a), ConjPoly(regs[Ev.a]),
                  DOMAIN regs[Ev.a] \cup DOMAIN ConjPoly(regs[Ev.a]))
  \/ Is("hcadd")
       /\ Product(Ev.t, HcAdd(Ev.t, Ev.a), PAdd(regs[Ev.a], ConjPoly(regs[Ev.a])),
                  DOMAIN regs[Ev.a] \cup DOMAIN ConjPoly(regs[Ev.a]))
  \/ Is("hcsub")
       /\ Product(Ev.t, HcSub(Ev.t, Ev.a), PSub(regs[Ev.a], ConjPoly(regs[Ev.a])),
                  DOMAIN regs[Ev.a] \cup DOMAIN ConjPoly(regs[Ev.a]))
  \/ Is("tr") /\ Terms(Ev.calls, Ev.a)
       /\ (IF Ev.k < 3 THEN Exact(Transform(Ev.t, Ev.a, Ev.k))
          ELSE Exact(Put(Ev.t, TrCalls(Ev.calls, Ev.k))))
  \/ Is("show") /\ OK /\ Ev.ch = <<>> /\ UNCHANGED regs
       /\ Shown
  \/ Is("eq") /\ OK /\ Ev.ch = <<>> /\ UNCHANGED regs
       /\ Ev.v = (regs[Ev.a] = regs[Ev.b])
       /\ Ev.nv = ~Ev.v

Init == LInit /\ ExprInit
Next == More /\ Step /\ (Word \/ Constant \/ Act)
Spec == Init /\ [][Next]_<<lineNo, regs>>
=============================================================================
