------------------------------- MODULE SymExpr -------------------------------
(***************************************************************************)
(* Symbolic expressions: affine combinations  c + sum_v a[v]*v  over the   *)
(* variables 0..3.  Numbers are integers in units of 1/4096, factors and   *)
(* divisors integers in units of 1/4.  The state is a bank of expressions; *)
(* each step applies one arithmetic operator, and every observation of the *)
(* real expression must be the normal form of the specified one.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Vars == 0..3
Slots == 0..5
ZeroE == [c |-> 0, a |-> [v \in Vars |-> 0]]
AddE(x, y) == [c |-> x.c + y.c, a |-> [v \in Vars |-> x.a[v] + y.a[v]]]
NegE(x) == [c |-> -x.c, a |-> [v \in Vars |-> -x.a[v]]]
TermE(v, k) == [c |-> 0, a |-> [w \in Vars |-> IF w = v THEN k ELSE 0]]
ConstE(k) == [c |-> k, a |-> [v \in Vars |-> 0]]
\* exact scaling by f/4 and division by f/4 (the operands are chosen so that it is exact)
MulQ(k, f) == (k * f) \div 4
DivQ(k, f) == IF f < 0 THEN (-4 * k) \div (-f) ELSE (4 * k) \div f
MulE(x, f) == [c |-> MulQ(x.c, f), a |-> [v \in Vars |-> MulQ(x.a[v], f)]]
DivE(x, f) == [c |-> DivQ(x.c, f), a |-> [v \in Vars |-> DivQ(x.a[v], f)]]
Used(x) == {v \in Vars : x.a[v] # 0}
RECURSIVE Dot(_, _, _)
Dot(x, as, v) == IF v < 0 THEN x.c ELSE (x.a[v] * as[v + 1]) \div 4 + Dot(x, as, v - 1)
Result(op, x, y, v, k) ==
  CASE op = "add" -> AddE(x, y)
    [] op = "sub" -> AddE(x, NegE(y))
    [] op = "neg" -> NegE(x)
    [] op = "mul" -> MulE(x, k)
    [] op = "div" -> DivE(x, k)
    [] op = "addc" -> AddE(x, ConstE(k))
    [] op = "subc" -> AddE(x, NegE(ConstE(k)))
    [] op = "csub" -> AddE(ConstE(k), NegE(x))
    [] op = "addt" -> AddE(x, TermE(v, k))
    [] op = "subt" -> AddE(x, NegE(TermE(v, k)))
    [] op = "tsub" -> AddE(TermE(v, k), NegE(x))
    [] op = "setc" -> [x EXCEPT !.c = k]
    [] op = "copy" -> x
RECURSIVE SumTerms(_, _)
SumTerms(ts, j) == IF j = 0 THEN ZeroE ELSE AddE(TermE(ts[j][1], ts[j][2]), SumTerms(ts, j - 1))
\* the normal form: every used variable once, in order, with its coefficient
NormalForm(ts, x) == /\ {ts[j][1] : j \in DOMAIN ts} = Used(x)
                     /\ Len(ts) = Cardinality(Used(x))
                     /\ \A j \in DOMAIN ts : ts[j][2] = x.a[ts[j][1]] /\ (j > 1 => ts[j - 1][1] < ts[j][1])
=============================================================================
