------------------------------- MODULE ZXTrace -------------------------------
(***************************************************************************)
(* Circuit traces with ZX-diagrams (ZXSem) and with phases, the rational   *)
(* multiples of pi modulo 2 pi, as exact fractions.                        *)
(***************************************************************************)
EXTENDS CircTrace, ZXSem

\* a diagram becomes (the state of) side s
TZx == /\ Is("zx")
       /\ (WellFormed(E.d) /\ Complete(E.d)) = TRUE
       /\ Set(E.s, Fresh(Len(E.d.ins) + Len(E.d.outs), 0, Denote(E.d)))
TZxShape == /\ Is("shape") /\ Keep12
            /\ (WellFormed(E.d) /\ (E.graphlike => GraphLike(E.d))) = TRUE
\* side 1 := (side 2) o (side 1)
TZxMul == /\ Is("mul")
          /\ m1' = TLCEval(Fresh(m1.n, 0, MatMulV(m2.br[1].v, m1.br[1].v, m1.n \div 2))) /\ UNCHANGED m2
TZxAdj == Is("adjz") /\ m1' = TLCEval(Fresh(m1.n, 0, Q!AdjMat(m1.br[1].v, m1.n))) /\ UNCHANGED m2
\* input i starts in |0> and output o ends in <0|; both disappear
TZxPlug == /\ Is("plug")
           /\ LET h == m1.n \div 2
                  Ins(x, p) == (x % ZP2[p]) + (x \div ZP2[p]) * ZP2[p + 1]
                  D == ZP2[h - 1]
                  v == m1.br[1].v
              IN m1' = TLCEval(Fresh(m1.n - 2, 0, Rescale(TLCEval([i \in 0 .. (D * D - 1) |-> v[Ins(i % D, E.out) + Ins(i \div D, E.in) * ZP2[h]]]), D * D)))
           /\ UNCHANGED m2
\* equal up to a non-zero scalar (nothing is claimed about a diagram that denotes zero)
TZxCmp == /\ Is("zcmp") /\ Keep12
          /\ m1.n = m2.n
          /\ LET v == m1.br[1].v  w == m2.br[1].v IN
             IsZero(v, m1.n) \/ (~IsZero(w, m1.n) /\ Proportional(v, w, m1.n, E.tol)) = TRUE

\* ---- phases: <<n, d>> stands for n/d * pi ----
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN AbsI(a) ELSE Gcd(b, a % b)
Norm(n, d) == \* the representative in (-1, 1] in lowest terms
  LET s == IF d < 0 THEN -1 ELSE 1
      dd == d * s
      r == (n * s) % (2 * dd)
      x == IF r > dd THEN r - 2 * dd ELSE r
      g == Gcd(x, dd)
  IN <<x \div g, dd \div g>>
NF(x) == Norm(x[1], x[2])
TRat == /\ Is("rat") /\ Keep12
        /\ LET a == E.a  b == E.b IN
           CASE E.op = "new" -> E.r = NF(a)
             [] E.op = "neg" -> E.r = Norm(-a[1], a[2])
             [] E.op = "add" -> E.r = Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
             [] E.op = "sub" -> E.r = Norm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
             [] E.op = "mul" -> E.r = Norm(a[1] * b[1], a[2] * b[2])
             [] E.op = "div" -> E.r = Norm(a[1] * b[2], a[2] * b[1])
             [] E.op = "lt" -> E.r = (a[1] * b[2] < b[1] * a[2])
             [] E.op = "le" -> E.r = (a[1] * b[2] <= b[1] * a[2])
             [] E.op = "gt" -> E.r = (a[1] * b[2] > b[1] * a[2])
             [] E.op = "ge" -> E.r = (a[1] * b[2] >= b[1] * a[2])
             [] E.op = "eq" -> E.r = (a[1] * b[2] = b[1] * a[2])
             [] E.op = "ne" -> E.r = (a[1] * b[2] # b[1] * a[2])
             [] E.op = "int" -> E.r = (a[2] = 1)
             [] E.op = "zero" -> E.r = (a[1] = 0)
\* a phase made from an angle: e^(i phase) = e^(i angle); the representative is in range; simple fractions are exact
TAngle == /\ Is("angle") /\ Keep12
          /\ Close(E.z, E.w, 16)
          /\ E.inrange = TRUE
          /\ (E.exact # <<>> => E.r = NF(E.exact)) = TRUE
ZNext == TNext \/ TZx \/ TZxShape \/ TZxMul \/ TZxAdj \/ TZxPlug \/ TZxCmp \/ TRat \/ TAngle
ZSpec == TInit /\ [][ZNext]_vars
=============================================================================
