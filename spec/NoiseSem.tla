------------------------------- MODULE NoiseSem -------------------------------
(***************************************************************************)
(* Density matrices and noise channels.  A density matrix of n qubits is a *)
(* vector of 2n qubits: rows are qubits 0..n-1, columns n..2n-1.           *)
(*   A (amplitude damping)  rho -> K0 rho K0' + K1 rho K1'                  *)
(*        K0 = diag(1, sqrt(1-p)),  K1 = sqrt(p) |0><1|                     *)
(*   P (phase flip)         rho -> (1-p) rho + p Z rho Z                    *)
(*   D (depolarisation)     rho -> (1-p) rho + p I/2 tr(rho)                *)
(*                              = (1-3p/4) rho + p/4 (X rho X + Y rho Y + Z rho Z) *)
(* Probabilities are records [p, s |-> sqrt(1-p), r |-> sqrt(p)] of fixed- *)
(* point reals.                                                            *)
(***************************************************************************)
EXTENDS FixNum, Sequences, FiniteSets, TLC
NQ == INSTANCE QSem
Re(a) == <<a, 0>>
Super(k, p) ==
  CASE k = "A" -> << <<One, Zero, Zero, Re(p.p)>>, <<Zero, Re(p.s), Zero, Zero>>, <<Zero, Zero, Re(p.s), Zero>>, <<Zero, Zero, Zero, Re(S28 - p.p)>> >>
    [] k = "P" -> LET c == Re(S28 - 2 * p.p) IN << <<One, Zero, Zero, Zero>>, <<Zero, c, Zero, Zero>>, <<Zero, Zero, c, Zero>>, <<Zero, Zero, Zero, One>> >>
    [] k = "D" -> LET h == p.p \div 2  c == Re(S28 - p.p) IN << <<Re(S28 - h), Zero, Zero, Re(h)>>, <<Zero, c, Zero, Zero>>, <<Zero, Zero, c, Zero>>, <<Re(h), Zero, Zero, Re(S28 - h)>> >>
\* one channel on qubit q
Channel(v, n, k, q, p) == IF k = "I" THEN v ELSE LET m == TLCEval(Super(k, p)) IN TLCEval(NQ!App2(v, 2 * n, m, q + n, q, <<>>))
\* rho -> U rho U'   (rho is Hermitian)
Evolve(v, n, op) == NQ!AdjMat(NQ!ApplyOp(NQ!AdjMat(NQ!ApplyOp(v, 2 * n, op), 2 * n), 2 * n, op), 2 * n)
\* all effects, in order, on every qubit in qs; cfg = <<single, multi>> of [n |-> noise, a |-> damping]
Effect(cfg, qs, k) == LET c == cfg[IF Len(qs) = 1 THEN 1 ELSE 2] IN IF k = "A" THEN c.a ELSE c.n
RECURSIVE OnQubit(_, _, _, _, _, _, _)
OnQubit(v, n, cfg, eff, qs, q, j) == IF j > Len(eff) THEN v
   ELSE OnQubit(Channel(v, n, eff[j], q, Effect(cfg, qs, eff[j])), n, cfg, eff, qs, q, j + 1)
RECURSIVE Noise(_, _, _, _, _, _)
Noise(v, n, cfg, eff, qs, i) == IF i > Len(qs) THEN v ELSE Noise(OnQubit(v, n, cfg, eff, qs, qs[i], 1), n, cfg, eff, qs, i + 1)
\* projection of qubit q to b, rows and columns
DProject(v, n, q, b) == NQ!Project(NQ!Project(v, 2 * n, q, b), 2 * n, q + n, b)
RECURSIVE TraceUpTo(_, _, _)
TraceUpTo(v, n, i) == IF i < 0 THEN 0 ELSE v[i + i * NQ!P2[n]][1] + TraceUpTo(v, n, i - 1)
DTrace(v, n) == TraceUpTo(v, n, NQ!P2[n] - 1)

(* ---- the same noise as random choices on state vectors ---- *)
X1 == << <<Zero, One>>, <<One, Zero>> >>
Y1 == << <<Zero, Neg(Im1)>>, <<Im1, Zero>> >>
Z1 == << <<One, Zero>>, <<Zero, Neg(One)>> >>
I1 == << <<One, Zero>>, <<Zero, One>> >>
Kraus(k, p) ==
  CASE k = "A" -> {<< <<One, Zero>>, <<Zero, Re(p.s)>> >>, << <<Zero, Re(p.r)>>, <<Zero, Zero>> >>}
    [] k = "P" -> (IF p.p > 0 THEN {Z1} ELSE {}) \cup (IF p.p < S28 THEN {I1} ELSE {})
    [] k = "D" -> IF p.p > 0 THEN {I1, X1, Y1, Z1} ELSE {I1}
    [] k = "I" -> {I1}
\* all products of one Kraus operator per effect
RECURSIVE Products(_, _, _, _)
Products(cfg, eff, qs, j) == IF j = 0 THEN {I1}
   ELSE LET K == Kraus(eff[j], Effect(cfg, qs, eff[j])) IN TLCEval({NQ!MatMul2(a, b) : a \in K, b \in Products(cfg, eff, qs, j - 1)})
\* all states that can result (unnormalised)
RECURSIVE Results(_, _, _, _, _, _)
Results(v, n, cfg, eff, qs, i) == IF i > Len(qs) THEN {v}
   ELSE LET P == Products(cfg, eff, qs, Len(eff)) IN UNION {Results(TLCEval(NQ!App1(v, n, m, qs[i], <<>>)), n, cfg, eff, qs, i + 1) : m \in P}
===============================================================================
