------------------------------- MODULE AlgTrace -------------------------------
(* recorded behaviour of the algorithm generators against AlgSem *)
EXTENDS CircTrace, AlgSem
Ds(E1) == M(E1.s)
\* the final state is the Fourier transform of the initial vector E.v
TQft == /\ Is("qft") /\ Keep12
        /\ Len(M(E.s).br) = 1
        /\ Q!EqVec(M(E.s).br[1].v, Fourier(VecOf(E.v), E.n, E.w), E.n, E.tol)
\* the results are distributed like the Fourier transform of E.v
TQftM == /\ Is("qftm") /\ Keep12
         /\ LET f == Fourier(VecOf(E.v), E.n, E.w)
            IN \A x \in Q!Dim(E.n) : AbsI(Prob(M(E.s), BitsOf(x, E.n)) - Norm2(f[x])) <= E.tol
TQpe == /\ Is("qpe") /\ Keep12
        /\ LET ps == TLCEval([x \in Q!Dim(E.n) |-> Norm2(QPEAmp(E.u, E.n, E.w, x))])
           IN /\ \A x \in Q!Dim(E.n) : AbsI(Prob(M(E.s), BitsOf(x, E.n)) - ps[x]) <= E.tol
              /\ E.kind = "exact" => \E x \in Q!Dim(E.n) : x # 0 /\ ps[x] > S28 - 100000
              \* an inexact phase lies half way between two results, each of which has probability of at least 4/pi^2
              /\ E.kind = "inexact" => \E x \in Q!Dim(E.n) : /\ AbsI(ps[x] - ps[(x + 1) % Q!P2[E.n]]) < 100000
                                                             /\ ps[x] > 108000000 /\ ps[x] < 140000000
\* results x \in E.xs have probability 1
TBv == Is("bv") /\ Keep12 /\ AbsI(Prob(M(E.s), E.x) - S28) <= E.tol
TGrover == /\ Is("grover") /\ Keep12
           /\ LET a == GroverAmp(E.n, E.it)
              IN /\ E.it >= 1 /\ FMul(a[1], a[1]) >= (S28 \div 2) - 100000
                 /\ \A x \in Q!Dim(E.n) : LET b == BitsOf(x, E.n)  y == IF b = E.x THEN a[1] ELSE a[2]
                                          IN AbsI(Prob(M(E.s), b) - FMul(y, y)) <= E.tol
TGhz == /\ Is("ghz") /\ Keep12 /\ Q!EqVec(M(E.s).br[1].v, GHZ(M(E.s).n), M(E.s).n, E.tol)
TW == /\ Is("wstate") /\ Keep12
      /\ AbsI(M(E.s).n * FMul(E.r, E.r) - S28) <= 1000
      /\ Q!EqVec(M(E.s).br[1].v, W(M(E.s).n, <<E.r, 0>>), M(E.s).n, E.tol)
TClifford == /\ Is("clifford") /\ Keep12 /\ IsClifford(M(E.s).br[1].v, M(E.s).n \div 2, E.tol)
TBrick == Is("brick") /\ Keep12 /\ E.pairs = Brick(E.n, E.d, 0)
ANext == TNext \/ TQft \/ TQftM \/ TQpe \/ TBv \/ TGrover \/ TGhz \/ TW \/ TClifford \/ TBrick
ASpec == TInit /\ [][ANext]_vars
===============================================================================
