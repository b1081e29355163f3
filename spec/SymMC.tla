-------------------------------- MODULE SymMC --------------------------------
(* The algebra of the specification itself, exhaustively on small expressions *)
EXTENDS SymExpr
VARIABLES x, y, n
K == {-4096, 0, 2048, 4096}
Init == n = 0 /\ x = ZeroE /\ y = ZeroE
Next == /\ n < 3 /\ n' = n + 1
        /\ \/ \E v \in {0, 1}, k \in K : x' = AddE(x, TermE(v, k)) /\ UNCHANGED y
           \/ \E v \in {0, 1}, k \in K : y' = AddE(y, TermE(v, k)) /\ UNCHANGED x
           \/ \E k \in K : x' = AddE(x, ConstE(k)) /\ UNCHANGED y
           \/ \E f \in {-8, 2, 4, 12} : x' = MulE(x, f) /\ UNCHANGED y
           \/ x' = y /\ y' = x
Spec == Init /\ [][Next]_<<x, y, n>>
As == <<4, -8, 12, 2>>
V(e) == Dot(e, As, 3)
Algebra == /\ AddE(x, y) = AddE(y, x)
           /\ Result("sub", x, y, 0, 0) = NegE(Result("sub", y, x, 0, 0))
           /\ Result("csub", x, y, 0, 4096) = NegE(Result("subc", x, y, 0, 4096))
           /\ Result("tsub", x, y, 1, 4096) = NegE(Result("subt", x, y, 1, 4096))
           /\ DivE(MulE(x, 8), 8) = x
           /\ V(AddE(x, y)) = V(x) + V(y) /\ V(MulE(x, 8)) = 2 * V(x) /\ V(NegE(x)) = -V(x)
           /\ Used(Result("sub", x, x, 0, 0)) = {}
=============================================================================
