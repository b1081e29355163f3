-------------------------------- MODULE NoiseMC --------------------------------
(* the channels of NoiseSem: trace preserving, Hermitian, positive on all products of the given states, and equal to *)
(* the average over their random realisations; explored: every sequence of at most MaxLen channels on two qubits     *)
EXTENDS NoiseSem
CONSTANTS Ps, MaxLen
\* p, sqrt(1-p), sqrt(p)
Prob(x) == CASE x = 0 -> [p |-> 0, s |-> S28, r |-> 0] [] x = 4 -> [p |-> S28, s |-> 0, r |-> S28]
             [] x = 1 -> [p |-> S28 \div 4, s |-> 232471924, r |-> S28 \div 2]
             [] x = 2 -> [p |-> S28 \div 2, s |-> 189812531, r |-> 189812531]
             [] x = 3 -> [p |-> 3 * (S28 \div 4), s |-> S28 \div 2, r |-> 232471924]
VARIABLES rho, len
Prep == {<<>>, <<[g |-> "h", t |-> <<0>>, c |-> <<>>, p |-> <<>>], [g |-> "x", t |-> <<1>>, c |-> <<<<0, 1>>>>, p |-> <<>>]>>,
         <<[g |-> "h", t |-> <<0>>, c |-> <<>>, p |-> <<>>], [g |-> "t", t |-> <<0>>, c |-> <<>>, p |-> <<>>], [g |-> "x", t |-> <<1>>, c |-> <<>>, p |-> <<>>]>>}
RECURSIVE Run(_, _, _)
Run(v, ops, i) == IF i > Len(ops) THEN v ELSE Run(Evolve(v, 2, ops[i]), ops, i + 1)
Init == len = 0 /\ rho \in {Run(NQ!Basis(4, 0), ops, 1) : ops \in Prep}
Next == len < MaxLen /\ len' = len + 1 /\ \E k \in {"A", "P", "D"}, q \in 0..1, x \in Ps : rho' = Channel(rho, 2, k, q, Prob(x))
Spec == Init /\ [][Next]_<<rho, len>>
Tol == 400
TraceOne == AbsI(DTrace(rho, 2) - S28) <= Tol
Hermitian == \A i, j \in 0..3 : Close(rho[i + 4 * j], Conj(rho[j + 4 * i]), Tol)
\* diagonal entries and 2x2 principal minors are non-negative
Positive == \A i, j \in 0..3 : /\ rho[i + 4 * i][1] >= -Tol
               /\ i < j => FMul(rho[i + 4 * i][1], rho[j + 4 * j][1]) >= Norm2(rho[i + 4 * j]) - Tol
\* each effect on a single qubit equals its Kraus form; K rho K' by rows and columns
KApply(v, m, q) == NQ!AdjMat(NQ!App1(NQ!AdjMat(NQ!App1(v, 4, m, q, <<>>), 4), 4, m, q, <<>>), 4)
Sum2(v, w) == [i \in NQ!Dim(4) |-> Add(v[i], w[i])]
Times(v, a) == [i \in NQ!Dim(4) |-> Mul(Re(a), v[i])]
Kr(v, k, q, p) ==
  CASE k = "A" -> Sum2(KApply(v, << <<One, Zero>>, <<Zero, Re(p.s)>> >>, q), KApply(v, << <<Zero, Re(p.r)>>, <<Zero, Zero>> >>, q))
    [] k = "P" -> Sum2(Times(v, S28 - p.p), Times(KApply(v, Z1, q), p.p))
    [] k = "D" -> LET a == p.p \div 4 IN Sum2(Times(v, S28 - 3 * a), Times(Sum2(KApply(v, X1, q), Sum2(KApply(v, Y1, q), KApply(v, Z1, q))), a))
Unravelled == \A k \in {"A", "P", "D"}, q \in 0..1, x \in Ps :
                 NQ!EqVec(Channel(rho, 2, k, q, Prob(x)), Kr(rho, k, q, Prob(x)), 4, Tol)
\* channels on different qubits commute
Commute == \A k, j \in {"A", "P", "D"}, x \in Ps :
             NQ!EqVec(Channel(Channel(rho, 2, k, 0, Prob(x)), 2, j, 1, Prob(x)), Channel(Channel(rho, 2, j, 1, Prob(x)), 2, k, 0, Prob(x)), 4, Tol)
================================================================================
