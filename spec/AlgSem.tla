-------------------------------- MODULE AlgSem --------------------------------
(***************************************************************************)
(* What the algorithm generators must produce, written from the textbook   *)
(* definitions (not from the circuits): final states and distributions of  *)
(* the measurement results.                                                *)
(***************************************************************************)
EXTENDS CircMachine

RECURSIVE Pow(_, _)
Pow(w, k) == IF k = 0 THEN One ELSE Mul(w, Pow(w, k - 1))
Powers(w, n) == TLCEval([k \in 0 .. (n - 1) |-> Pow(w, k)])
RECURSIVE Rev(_, _)
Rev(x, n) == IF n = 0 THEN 0 ELSE (x % 2) * Q!P2[n - 1] + Rev(x \div 2, n - 1)
\* 2^(-n/2)
RECURSIVE RootN(_)
RootN(n) == IF n = 0 THEN One ELSE IF n = 1 THEN RSqrt2 ELSE LET r == RootN(n - 2) IN <<r[1] \div 2, 0>>
BitsOf(x, n) == [j \in 1..n |-> Q!Bit(x, j - 1)]

\* discrete Fourier transform of the vector v on n qubits, qubit 0 being the most significant one; w = e^(2 pi i / 2^n)
Fourier(v, n, w) ==
  LET N == Q!P2[n]
      ws == Powers(w, N)
      r == RootN(n)
      rv == TLCEval([x \in 0 .. (N - 1) |-> Rev(x, n)])
      Row(j) == LET RECURSIVE S(_)
                    S(k) == IF k < 0 THEN Zero ELSE Add(Mul(r, Mul(ws[(rv[j] * rv[k]) % N], v[k])), S(k - 1))
                IN S(N - 1)
  IN TLCEval([j \in 0 .. (N - 1) |-> Row(j)])
\* phase estimation of e^(i phi) = u with n bits: amplitude of the result x
QPEAmp(u, n, w, x) ==
  LET N == Q!P2[n]
      RECURSIVE S(_)
      Half1(y) == <<y[1] \div N, y[2] \div N>>
      S(k) == IF k < 0 THEN Zero ELSE Add(Half1(Mul(Pow(u, k), Conj(Pow(w, (k * x) % N)))), S(k - 1))
  IN S(N - 1)
\* Grover search for one item among 2^n: amplitudes <<target, any other>> after k iterations
RECURSIVE GroverAmp(_, _)
GroverAmp(n, k) ==
  IF k = 0 THEN <<RootN(n)[1], RootN(n)[1]>>
  ELSE LET a == GroverAmp(n, k - 1)
           N == Q!P2[n]
           \* oracle, then reflection about the mean
           mean == ((-a[1]) \div N) + (a[2] \div N) * (N - 1) + ((a[2] % N) * (N - 1)) \div N
       IN <<2 * mean + a[1], 2 * mean - a[2]>>
W(n, r) == [i \in Q!Dim(n) |-> IF Cardinality({q \in 0 .. (n - 1) : Q!Bit(i, q) = 1}) = 1 THEN r ELSE Zero]
GHZ(n) == [i \in Q!Dim(n) |-> IF i = 0 \/ i = Q!P2[n] - 1 THEN RSqrt2 ELSE Zero]

\* Clifford: v is the matrix of U on n qubits (row bits 0..n-1, column bits n..2n-1); U P = (+-) P' U for every generator P
PauliOps(p, n) == LET One1(q) == CASE p[q] = 0 -> <<>>
                                   [] p[q] = 1 -> <<[g |-> "x", t |-> <<q>>, c |-> <<>>, p |-> <<>>]>>
                                   [] p[q] = 2 -> <<[g |-> "y", t |-> <<q>>, c |-> <<>>, p |-> <<>>]>>
                                   [] p[q] = 3 -> <<[g |-> "z", t |-> <<q>>, c |-> <<>>, p |-> <<>>]>>
                      RECURSIVE S(_)
                      S(q) == IF q = n THEN <<>> ELSE One1(q) \o S(q + 1)
                  IN S(0)
RECURSIVE ApplyAll(_, _, _)
ApplyAll(v, m, ops) == IF ops = <<>> THEN v ELSE ApplyAll(TLCEval(Q!ApplyOp(v, m, ops[1])), m, SubSeq(ops, 2, Len(ops)))
EqSign(a, b, m, tol) == \/ \A i \in Q!Dim(m) : Close(a[i], b[i], tol)
                        \/ \A i \in Q!Dim(m) : Close(a[i], Neg(b[i]), tol)
IsClifford(v, n, tol) ==
  \A q \in 0 .. (n - 1) : \A g \in {"x", "z"} :
     LET up == TLCEval(Q!ApplyOp(v, 2 * n, [g |-> g, t |-> <<n + q>>, c |-> <<>>, p |-> <<>>]))
     IN \E p \in [0 .. (n - 1) -> 0..3] : EqSign(up, ApplyAll(v, 2 * n, PauliOps(p, n)), 2 * n, tol)
\* qubit pairs of a brick-work circuit
RECURSIVE Row1(_, _)
Row1(i, n) == IF i + 1 >= n THEN <<>> ELSE << <<i, i + 1>> >> \o Row1(i + 2, n)
RECURSIVE Brick(_, _, _)
Brick(n, d, k) == IF k = d THEN <<>>
  ELSE (IF n = 1 THEN << <<0>> >> ELSE IF n = 2 THEN << <<0, 1>> >> ELSE Row1(k % 2, n)) \o Brick(n, d, k + 1)
===============================================================================
