---------------------------- MODULE MCU_Universes ----------------------------
(* small universes of generators for model checking *)
EXTENDS Integers, Sequences
LOCAL Ix(n) == <<<<0, n>>>>
F(d, n) == [a |-> -3, d |-> d, m |-> 0, c |-> 0, i |-> Ix(n)]
B(d, n) == [a |-> -2, d |-> d, m |-> 0, c |-> 0, i |-> Ix(n)]
S(mu, c, n) == [a |-> -1, d |-> 0, m |-> mu, c |-> c, i |-> Ix(n)]
UFermi == <<F(1,1), F(0,1), F(1,2), F(0,2)>>
UMixed == <<F(0,1), F(1,1), B(0,1), B(1,1), S(2,0,1), S(2,1,1), S(2,2,1)>>
UHalf == <<S(2,0,1), S(2,1,1), S(2,2,1), S(2,2,2)>>
UBose == <<B(1,1), B(0,1), B(1,2), B(0,2)>>
USpin1 == <<S(3,0,1), S(3,1,1), S(3,2,1)>>
USpin32 == <<S(4,0,1), S(4,1,1), S(4,2,1), S(2,0,1), S(2,1,1), S(2,2,1)>>
USmall == <<F(1,1), F(0,1), S(2,0,1), S(2,1,1), S(2,2,1)>>
UFac == <<F(1,1), F(0,1), F(1,2), F(0,2), B(1,1), B(0,1), B(1,2), B(0,2),
          S(2,0,1), S(2,1,1), S(2,2,1), S(2,0,2), S(2,1,2), S(2,2,2),
          S(3,0,1), S(3,1,1), S(3,2,1), S(4,0,1), S(4,1,1), S(4,2,1),
          S(5,0,1), S(5,1,1), S(5,2,1)>>
UsG(a, n) == [a |-> a, d |-> 0, m |-> 0, c |-> 0, i |-> Ix(n)]
UMono == <<F(1,1), F(0,1), B(1,2), B(0,2), S(2,0,1), S(3,2,1), UsG(7, 1)>>
UMono2 == <<F(1,1), B(0,2), S(3,2,1)>>
UFB == <<F(1,1), F(0,1), B(1,1), B(0,1)>>
=============================================================================
