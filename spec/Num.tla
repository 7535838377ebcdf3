-------------------------------- MODULE Num --------------------------------
(* Exact arithmetic on Gaussian rationals, the coefficient ring of the       *)
(* specification. A number is <<re, im, den>>, den > 0, in lowest terms, so  *)
(* that equal numbers are equal TLA+ values. TLC integers are 32 bits wide   *)
(* and overflow is an evaluation error: generators of traces keep numbers    *)
(* small, and drivers log what does not fit as den = 0 (never a valid value) *)
EXTENDS Integers, Sequences

RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
Gcd(a, b) == GcdN(AbsI(a), AbsI(b))

CQ(n, m, d) ==
  IF d = 1 THEN <<n, m, 1>>
  ELSE LET g == GcdN(GcdN(AbsI(n), AbsI(m)), d)
       IN IF g = 1 THEN <<n, m, d>> ELSE <<n \div g, m \div g, d \div g>>

CInt(n) == <<n, 0, 1>>
CRat(n, d) == IF d < 0 THEN CQ(-n, 0, -d) ELSE CQ(n, 0, d)
CZero == <<0, 0, 1>>
COne == <<1, 0, 1>>
IsZ(a) == a[1] = 0 /\ a[2] = 0
\* is `a` a well-formed value in lowest terms
CValid(a) == /\ Len(a) = 3
             /\ a[3] > 0
             /\ IF a[3] = 1 THEN TRUE ELSE GcdN(GcdN(AbsI(a[1]), AbsI(a[2])), a[3]) = 1

CAdd(a, b) ==
  IF a[3] = b[3] THEN CQ(a[1] + b[1], a[2] + b[2], a[3])
  ELSE LET g == GcdN(a[3], b[3])
           u == b[3] \div g
           v == a[3] \div g
       IN CQ(a[1]*u + b[1]*v, a[2]*u + b[2]*v, a[3]*u)
CNeg(a) == <<-a[1], -a[2], a[3]>>
CSub(a, b) == CAdd(a, CNeg(b))
CMul(a, b) ==
  IF a = COne THEN b ELSE IF b = COne THEN a
  ELSE IF a[2] = 0 /\ b[2] = 0 THEN CQ(a[1]*b[1], 0, a[3]*b[3])
  ELSE CQ(a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1], a[3]*b[3])
CConj(a) == <<a[1], -a[2], a[3]>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
=============================================================================
