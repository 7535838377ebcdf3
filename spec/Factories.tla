----------------------------- MODULE Factories ------------------------------
(* The documented meaning of the factory functions, as polynomials over a    *)
(* universe that contains the generators they need.                          *)
EXTENDS Expr

GenNo(a, d, m, c, i) ==
  CHOOSE k \in 1..N : U[k] = [a |-> a, d |-> d, m |-> m, c |-> c, i |-> i]
\* `mult` is the multiplicity, 0 if not given (spin 1/2)
FacDef(f, mult, i) ==
  LET M == IF mult = 0 THEN 2 ELSE mult
      FG(d) == GenNo(Fermion, d, 0, 0, i)
      BG(d) == GenNo(Boson, d, 0, 0, i)
      SG(c) == GenNo(Spin, 0, M, c, i)
      One(g) == PMono(COne, <<g>>)
  IN CASE f = "c_dag" -> One(FG(1))
       [] f = "c" -> One(FG(0))
       [] f = "n" -> PMono(COne, <<FG(1), FG(0)>>)
       [] f = "a_dag" -> One(BG(1))
       [] f = "a" -> One(BG(0))
       [] f = "S_p" -> One(SG(0))
       [] f = "S_m" -> One(SG(1))
       [] f = "S_z" -> One(SG(2))
       [] f = "S_x" -> PScale(Half, PAdd(One(SG(0)), One(SG(1))))
       [] f = "S_y" -> PScale(<<0, -1, 2>>, PSub(One(SG(0)), One(SG(1))))
\* type of the coefficients: as requested, double or complex<double> by default
FacType(f, s) == IF f \in {"S_x", "S_y"} THEN "cdouble"
                 ELSE CASE s = "-" -> "double" [] s = "int" -> "int" [] OTHER -> "cdouble"
=============================================================================
