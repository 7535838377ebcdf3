-------------------------------- MODULE Wide --------------------------------
(* Natural numbers beyond TLC's 32 bits: sequences of 15-bit limbs, lowest   *)
(* first, without leading zeros (<<>> is 0).                                 *)
EXTENDS Integers, Sequences, TLC, SequencesExt

LB == 32768
RECURSIVE WNorm(_)
WNorm(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE WNorm(SubSeq(a, 1, Len(a) - 1))
WLimb(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
RECURSIVE WOf(_)
WOf(n) == IF n = 0 THEN <<>> ELSE <<n % LB>> \o WOf(n \div LB)
RECURSIVE WAddC(_, _, _, _)
WAddC(a, b, k, c) ==
  IF k > Len(a) /\ k > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == WLimb(a, k) + WLimb(b, k) + c
       IN <<s % LB>> \o WAddC(a, b, k + 1, s \div LB)
WAdd(a, b) == WAddC(a, b, 1, 0)
RECURSIVE WMulL(_, _, _, _)
WMulL(a, m, k, c) ==
  IF k > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == a[k] * m + c
       IN <<s % LB>> \o WMulL(a, m, k + 1, s \div LB)
Shift1(a) == IF a = <<>> THEN <<>> ELSE <<0>> \o a
RECURSIVE WMulF(_, _, _)
WMulF(a, b, k) == IF k > Len(b) THEN <<>>
                  ELSE WNorm(WAdd(WMulL(a, b[k], 1, 0), Shift1(WMulF(a, b, k + 1))))
WMul(a, b) == WNorm(WMulF(a, b, 1))
RECURSIVE W2(_)
W2(n) == IF n = 0 THEN 1 ELSE 2 * W2(n - 1)
WPow2(n) == [k \in 1..(n \div 15) |-> 0] \o <<W2(n % 15)>>
RECURSIVE WCmpK(_, _, _)
WCmpK(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1
                  ELSE IF a[k] > b[k] THEN 1 ELSE WCmpK(a, b, k - 1)
WCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE WCmpK(a, b, Len(a))
\* a - 1 for a > 0
RECURSIVE WDecK(_, _)
WDecK(a, k) == IF a[k] > 0 THEN [a EXCEPT ![k] = @ - 1]
               ELSE WDecK([a EXCEPT ![k] = LB - 1], k + 1)
WDec(a) == WNorm(WDecK(a, 1))
RECURSIVE BitLenI(_)
BitLenI(n) == IF n = 0 THEN 0 ELSE 1 + BitLenI(n \div 2)
WBitLen(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + BitLenI(a[Len(a)])
\* value of a wide number that fits
RECURSIVE WInt(_)
WInt(a) == IF a = <<>> THEN 0 ELSE a[1] + LB * WInt(Tail(a))
=============================================================================
