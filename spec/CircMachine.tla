----------------------------- MODULE CircMachine -----------------------------
(***************************************************************************)
(* The quantum/classical machine a circuit runs on.  A machine state is    *)
(*    [n |-> number of qubits, br |-> sequence of branches]                *)
(* with one branch per history of measurement outcomes that has non-zero   *)
(* probability: [k |-> classical bits (sequence of 0/1), v |-> unnormalised*)
(* state].  Its actions are the steps of a dynamic circuit.                *)
(***************************************************************************)
EXTENDS FixNum, TLC, FiniteSets
Q == INSTANCE QSem

CONSTANT Eps      \* branches of squared norm below Eps/2^28 are impossible

Fresh(n, nc, v) == [n |-> n, br |-> << [k |-> [j \in 1..nc |-> 0], v |-> v] >>]

\* ---- classical conditions ----
RECURSIVE RegVal(_, _, _)
RegVal(k, s, len) == IF len = 0 THEN 0 ELSE k[s + 1] + 2 * RegVal(k, s + 1, len - 1)
Cmp(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b
                   [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b
\* cond is a sequence of <<start, length, comparison, value>>, all must hold
RECURSIVE CondOn(_, _, _)
CondOn(cond, k, j) == IF j > Len(cond) THEN TRUE
   ELSE Cmp(cond[j][3], RegVal(k, cond[j][1], cond[j][2]), cond[j][4]) /\ CondOn(cond, k, j + 1)

MapBr(m, F(_)) == [m EXCEPT !.br = TLCEval([i \in DOMAIN m.br |-> F(m.br[i])])]
\* ---- actions ----
DoOp(m, op, cond) ==
  LET F(x) == IF CondOn(cond, x.k, 1) THEN [x EXCEPT !.v = Q!ApplyOp(x.v, m.n, op)] ELSE x
  IN MapBr(m, F)
RECURSIVE Split(_, _, _)
Split(F(_), br, j) == IF j > Len(br) THEN <<>> ELSE F(br[j]) \o Split(F, br, j + 1)
Keep(n, x) == IF Q!NormSq(x.v, n)[1] < Eps THEN <<>> ELSE <<x>>
DoMeasure(m, q, b, cond) ==
  LET F(x) == IF ~CondOn(cond, x.k, 1) THEN <<x>>
              ELSE Keep(m.n, [k |-> [x.k EXCEPT ![b + 1] = 0], v |-> Q!Project(x.v, m.n, q, 0)])
                \o Keep(m.n, [k |-> [x.k EXCEPT ![b + 1] = 1], v |-> Q!Project(x.v, m.n, q, 1)])
  IN [m EXCEPT !.br = TLCEval(Split(F, m.br, 1))]
XOp(q) == [g |-> "x", t |-> <<q>>, c |-> <<>>, p |-> <<>>]
DoReset(m, q, cond) ==
  LET F(x) == IF ~CondOn(cond, x.k, 1) THEN <<x>>
              ELSE Keep(m.n, [k |-> x.k, v |-> Q!Project(x.v, m.n, q, 0)])
                \o Keep(m.n, [k |-> x.k, v |-> Q!ApplyOp(Q!Project(x.v, m.n, q, 1), m.n, XOp(q))])
  IN [m EXCEPT !.br = TLCEval(Split(F, m.br, 1))]
\* keep only the branches in which measuring q gave b
DoOutcome(m, q, b) ==
  LET F(x) == Keep(m.n, [k |-> x.k, v |-> Q!Project(x.v, m.n, q, b)])
  IN [m EXCEPT !.br = TLCEval(Split(F, m.br, 1))]
DoPerm(m, f) == LET F(x) == [x EXCEPT !.v = Q!Permute(x.v, m.n, f)] IN MapBr(m, F)
Grow(m, k) ==
  LET F(x) == [x EXCEPT !.v = [i \in Q!Dim(m.n + k) |-> IF i < Q!P2[m.n] THEN x.v[i] ELSE Zero]]
  IN [MapBr(m, F) EXCEPT !.n = m.n + k]

\* ---- observations ----
Mass(m) == LET RECURSIVE S(_)
               S(j) == IF j = 0 THEN 0 ELSE Q!NormSq(m.br[j].v, m.n)[1] + S(j - 1)
           IN S(Len(m.br))
Classical(m) == {m.br[j].k : j \in DOMAIN m.br}
RECURSIVE MassOf(_, _, _)
MassOf(m, k, j) == IF j = 0 THEN 0
   ELSE (IF m.br[j].k = k THEN Q!NormSq(m.br[j].v, m.n)[1] ELSE 0) + MassOf(m, k, j - 1)
Prob(m, k) == MassOf(m, k, Len(m.br))
SameStats(a, b, tol) == \A k \in Classical(a) \cup Classical(b) : AbsI(Prob(a, k) - Prob(b, k)) <= tol
\* the same, looking only at the classical bits listed in bits (bits: sequence of 0-based indices)
Sel(k, bits) == [j \in DOMAIN bits |-> k[bits[j] + 1]]
ProbSel(m, bits, w) == LET RECURSIVE S(_)
      S(j) == IF j = 0 THEN 0 ELSE (IF Sel(m.br[j].k, bits) = w THEN Q!NormSq(m.br[j].v, m.n)[1] ELSE 0) + S(j - 1)
   IN S(Len(m.br))
SameStatsSel(a, ba, b, bb, tol) ==
  \A w \in {Sel(m.k, ba) : m \in {a.br[j] : j \in DOMAIN a.br}} \cup {Sel(m.k, bb) : m \in {b.br[j] : j \in DOMAIN b.br}} :
     AbsI(ProbSel(a, ba, w) - ProbSel(b, bb, w)) <= tol

\* reduced density matrix entry <i| rho |j> over the qubits in keep, classical value k
Spread(i, keep) == LET RECURSIVE S(_)
      S(j) == IF j > Len(keep) THEN 0 ELSE Q!P2[keep[j]] * Q!Bit(i, j - 1) + S(j + 1) IN S(1)
Rest(n, keep) == {x \in Q!Dim(n) : \A j \in DOMAIN keep : Q!Bit(x, keep[j]) = 0}
RECURSIVE SumSet(_, _)
SumSet(F(_), s) == IF s = {} THEN Zero ELSE LET x == CHOOSE y \in s : TRUE IN Add(F(x), SumSet(F, s \ {x}))
Rho(m, k, keep, i, j) ==
  LET si == Spread(i, keep)  sj == Spread(j, keep)  rest == Rest(m.n, keep)
      RECURSIVE S(_)
      S(b) == IF b = 0 THEN Zero
              ELSE IF m.br[b].k # k THEN S(b - 1)
              ELSE LET F(r) == Mul(m.br[b].v[r + si], Conj(m.br[b].v[r + sj]))
                   IN Add(SumSet(F, rest), S(b - 1))
  IN S(Len(m.br))
SameChannel(a, ka, b, kb, tol) ==
  \A k \in Classical(a) \cup Classical(b) : \A i \in Q!Dim(Len(ka)) : \A j \in i .. (Q!P2[Len(ka)] - 1) :
      Close(Rho(a, k, ka, i, j), Rho(b, k, kb, i, j), tol)

\* proportionality of vectors: every cross product vanishes
Big(v, n) == LET ns == TLCEval([i \in Q!Dim(n) |-> Norm2(v[i])])
             IN CHOOSE i \in Q!Dim(n) : \A j \in Q!Dim(n) : ns[j] <= ns[i]
Proportional(v, w, n, tol) ==
  LET i0 == TLCEval(Big(v, n))
  IN /\ Norm2(w[i0]) > 64 * tol
     /\ \A i \in Q!Dim(n) : Close(Mul(v[i], w[i0]), Mul(w[i], v[i0]), tol)
EqPhase(v, w, n, tol) ==
  LET i0 == TLCEval(Big(v, n))
  IN /\ AbsI(Norm2(w[i0]) - Norm2(v[i0])) <= 2 * tol
     /\ Proportional(v, w, n, tol)
=============================================================================
