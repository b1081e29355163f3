------------------------------- MODULE FixNum -------------------------------
(***************************************************************************)
(* Complex numbers in fixed point, scale 2^28, as pairs <<re, im>>.  TLC's *)
(* integers have 32 bits (and overflow is an error, never silent), so a    *)
(* product is formed from 14-bit halves; its error is below 2^-27.         *)
(* A gate parameter theta is given as the quadruple                        *)
(*   <<cos(theta/2), sin(theta/2), cos(theta), sin(theta)>>.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

S28 == 268435456
H14 == 16384
FMul(a, b) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF a = S28 THEN b ELSE IF b = S28 THEN a
  ELSE LET a1 == a \div H14
           b1 == b \div H14
       IN a1 * b1 + ((a1 * (b % H14) + (a % H14) * b1) \div H14)
Zero == <<0, 0>>
One == <<S28, 0>>
Im1 == <<0, S28>>
RSqrt2 == <<189812531, 0>>
Half == <<134217728, 0>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Neg(x) == <<-x[1], -x[2]>>
Conj(x) == <<x[1], -x[2]>>
Mul(x, y) ==
  IF x = Zero \/ y = Zero THEN Zero
  ELSE IF x = One THEN y ELSE IF y = One THEN x
  ELSE <<FMul(x[1], y[1]) - FMul(x[2], y[2]), FMul(x[1], y[2]) + FMul(x[2], y[1])>>
Cis(p) == <<p[3], p[4]>>
CisH(p) == <<p[1], p[2]>>
CosH(p) == <<p[1], 0>>
SinH(p) == <<p[2], 0>>
AbsI(a) == IF a < 0 THEN -a ELSE a
Close(x, y, tol) == AbsI(x[1] - y[1]) <= tol /\ AbsI(x[2] - y[2]) <= tol
Norm2(x) == FMul(x[1], x[1]) + FMul(x[2], x[2])
=============================================================================
