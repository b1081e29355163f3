------------------------------- MODULE CycNum -------------------------------
(***************************************************************************)
(* Exact complex numbers of the ring Z[omega, 1/sqrt 2], omega = e^{i pi/4}*)
(* (the ring of Clifford+T amplitudes).  <<a,b,c,d,k>> denotes             *)
(*   (a + b w + c w^2 + d w^3) / sqrt(2)^k                                 *)
(* and is kept reduced, so equality of values is equality of tuples.       *)
(* A gate parameter k stands for the angle k * pi/4 (half angles: k even). *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Red(_)
Red(x) ==
  IF x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 THEN <<0, 0, 0, 0, 0>>
  ELSE IF x[5] > 0 /\ (x[1] - x[3]) % 2 = 0 /\ (x[2] - x[4]) % 2 = 0
       THEN Red(<<(x[2] - x[4]) \div 2, (x[1] + x[3]) \div 2,
                  (x[2] + x[4]) \div 2, (x[3] - x[1]) \div 2, x[5] - 1>>)
       ELSE x
\* multiply by sqrt 2 = w - w^3 while raising the exponent: same value
Up(x) == <<x[2] - x[4], x[1] + x[3], x[2] + x[4], x[3] - x[1], x[5] + 1>>
RECURSIVE Lift(_, _)
Lift(x, k) == IF x[5] >= k THEN x ELSE Lift(Up(x), k)
Zero == <<0, 0, 0, 0, 0>>
One == <<1, 0, 0, 0, 0>>
Im1 == <<0, 0, 1, 0, 0>>
RSqrt2 == <<1, 0, 0, 0, 1>>
Half == <<1, 0, 0, 0, 2>>
Add(x, y) ==
  IF x = Zero THEN y ELSE IF y = Zero THEN x ELSE
  LET k == IF x[5] > y[5] THEN x[5] ELSE y[5]
      u == Lift(x, k)
      v == Lift(y, k)
  IN Red(<<u[1] + v[1], u[2] + v[2], u[3] + v[3], u[4] + v[4], k>>)
Neg(x) == <<-x[1], -x[2], -x[3], -x[4], x[5]>>
Conj(x) == <<x[1], -x[4], -x[3], -x[2], x[5]>>
Mul(x, y) ==
  IF x = Zero \/ y = Zero THEN Zero ELSE IF x = One THEN y ELSE IF y = One THEN x ELSE
  Red(<<x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
        x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
        x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
        x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1], x[5] + y[5]>>)
OmegaPow == [j \in 0..7 |-> CASE j = 0 -> <<1,0,0,0,0>> [] j = 1 -> <<0,1,0,0,0>>
                              [] j = 2 -> <<0,0,1,0,0>> [] j = 3 -> <<0,0,0,1,0>>
                              [] j = 4 -> <<-1,0,0,0,0>> [] j = 5 -> <<0,-1,0,0,0>>
                              [] j = 6 -> <<0,0,-1,0,0>> [] j = 7 -> <<0,0,0,-1,0>>]
Cis(k) == OmegaPow[k % 8]
CisH(k) == OmegaPow[(k \div 2) % 8]
CosH(k) == Mul(Half, Add(CisH(k), CisH(-k)))
SinH(k) == Mul(Mul(Half, Neg(Im1)), Add(CisH(k), Neg(CisH(-k))))
Close(x, y, tol) == x = y
Norm2(x) == Mul(x, Conj(x))
=============================================================================
