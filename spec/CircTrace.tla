------------------------------ MODULE CircTrace ------------------------------
(***************************************************************************)
(* Trace specification: every line of the trace is one step of one of two  *)
(* machines (side 1, side 2), or an observation of the real code that must *)
(* agree with the machine state.  A behaviour that consumes the whole      *)
(* trace exists iff everything the code did is allowed by CircMachine.     *)
(***************************************************************************)
EXTENDS CircMachine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m1, m2
vars == <<l, m1, m2>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Set(s, m) == IF s = 1 THEN m1' = TLCEval(m) /\ UNCHANGED m2 ELSE m2' = TLCEval(m) /\ UNCHANGED m1
M(s) == IF s = 1 THEN m1 ELSE m2
Keep12 == UNCHANGED <<m1, m2>>
VecOf(d) == [i \in 0 .. (Len(d) \div 2 - 1) |-> <<d[2 * i + 1], d[2 * i + 2]>>]
None == Fresh(0, 0, [i \in {0} |-> One])
Cond == IF "if" \in DOMAIN E THEN E.if ELSE <<>>

TInit == l = 1 /\ m1 = None /\ m2 = None
\* a new case; kind: "id" = identity matrix, "b" = basis state, "v" = given vector
TCase == /\ Is("case")
         /\ LET v == CASE E.init = "id" -> Q!Ident(E.n)
                       [] E.init = "b" -> Q!Basis(E.n, E.b)
                       [] E.init = "v" -> VecOf(E.v)
                k == IF E.init = "id" THEN 2 * E.n ELSE E.n
            IN m1' = Fresh(k, E.nc, v) /\ m2' = Fresh(k, E.nc, v)
\* an operation must address existing, distinct qubits
OpOK(m) == LET qs == {E.t[j] : j \in DOMAIN E.t} \cup {E.c[j][1] : j \in DOMAIN E.c}
           IN \/ E.g = "barrier"
              \/ (\A x \in qs : x \in 0 .. (m.n - 1)) /\ Cardinality(qs) = Len(E.t) + Len(E.c)
TStart == Is("start") /\ Keep12
TOp == Is("op") /\ OpOK(M(E.s)) /\ Set(E.s, DoOp(M(E.s), [g |-> E.g, t |-> E.t, c |-> E.c, p |-> E.p], Cond))
TMeas == Is("m") /\ Set(E.s, DoMeasure(M(E.s), E.q, E.b, Cond))
TAdj == Is("adj") /\ LET F(x) == [x EXCEPT !.v = Q!AdjMat(x.v, M(E.s).n)] IN Set(E.s, MapBr(M(E.s), F))
TReset == Is("r") /\ Set(E.s, DoReset(M(E.s), E.q, Cond))
TPerm == Is("perm") /\ Set(E.s, DoPerm(M(E.s), E.f))
TGrow == Is("grow") /\ Set(E.s, Grow(M(E.s), E.k))
TCopy == Is("copy") /\ m2' = m1 /\ UNCHANGED m1
\* the code reports outcome b on q with probability E.pr (both sides advance alike)
TOutcome == /\ Is("out")
            /\ LET m == DoOutcome(M(E.s), E.q, E.b)
               IN /\ m.br # <<>>
                  /\ "pr" \in DOMAIN E => AbsI(FMul(E.pr, Mass(M(E.s))) - Mass(m)) <= E.tol
                  /\ Set(E.s, IF "k" \in DOMAIN E THEN [m EXCEPT !.br[1].k[E.k + 1] = E.b] ELSE m)
\* reset resolved by an (unlogged) outcome: the code drew b, then flipped
TResetOut == /\ Is("rout")
             /\ LET m == DoOutcome(M(E.s), E.q, E.b)
                IN /\ m.br # <<>>
                   /\ Set(E.s, IF E.b = 1 THEN DoOp(m, XOp(E.q), <<>>) ELSE m)
\* the same, but the hidden outcome is inferred: some outcome explains the observed state
TResetInf == /\ Is("rinf")
             /\ LET m == M(E.s)
                    w == TLCEval(VecOf(E.d))
                    After(b) == LET z == DoOutcome(m, E.q, b) IN IF b = 1 THEN DoOp(z, XOp(E.q), <<>>) ELSE z
                    ok == {b \in 0..1 : LET z == After(b) IN z.br # <<>> /\ Proportional(z.br[1].v, w, m.n, E.tol)}
                \* (a candidate with negligible weight is proportional to anything: prefer the heavier one)
                IN ok # {} /\ Set(E.s, After(CHOOSE b \in ok : \A c \in ok : Mass(After(c)) <= Mass(After(b))))
\* index i has non-zero probability
TSupp == /\ Is("supp") /\ Keep12
         /\ \E j \in DOMAIN M(E.s).br : Norm2(M(E.s).br[j].v[E.i]) > Eps
\* ---- observations ----
TObs == /\ Is("obs") /\ Keep12
        /\ LET m == M(E.s)  w == TLCEval(VecOf(E.d))
           IN /\ Len(m.br) = 1 /\ Len(E.d) = 2 * Q!P2[m.n]
              /\ CASE E.rel = "eq" -> Q!EqVec(m.br[1].v, w, m.n, E.tol)
                   [] E.rel = "phase" -> EqPhase(m.br[1].v, w, m.n, E.tol)
                   [] E.rel = "prop" -> Proportional(m.br[1].v, w, m.n, E.tol)
\* the state, where the positions E.free may be exchanged arbitrarily (outputs that are not specified)
TObsFree == /\ Is("obsfree") /\ Keep12
            /\ LET m == M(E.s)  w == TLCEval(VecOf(E.d))  Fr == {E.free[i] : i \in DOMAIN E.free}
               IN /\ Len(m.br) = 1 /\ Len(E.d) = 2 * Q!P2[m.n]
                  /\ (\E g \in [Fr -> Fr] :
                        /\ {g[x] : x \in Fr} = Fr
                        /\ Q!EqVec(Q!Permute(m.br[1].v, m.n, [j \in 1 .. m.n |-> IF j - 1 \in Fr THEN g[j - 1] ELSE j - 1]), w, m.n, E.tol)) = TRUE
\* matrix entries with zeroed rows/columns: only rows with (row and zr)=0 and columns with (col and zc)=0 survive
TObsMask == /\ Is("obsm") /\ Keep12
            /\ LET m == M(E.s)  w == TLCEval(VecOf(E.d))  h == m.n \div 2
               IN \A i \in Q!Dim(m.n) :
                    LET r == i % Q!P2[h]  c == i \div Q!P2[h]
                        live == /\ \A j \in DOMAIN E.zr : Q!Bit(r, E.zr[j]) = 0
                                /\ \A j \in DOMAIN E.zc : Q!Bit(c, E.zc[j]) = 0
                            rows == {x \in Q!Dim(h) : \A j \in 0..(h - 1) : j \in {E.zr[y] : y \in DOMAIN E.zr} \/ Q!Bit(x, j) = Q!Bit(r, j)}
                        F(x) == <<Norm2(m.br[1].v[x + c * Q!P2[h]]), 0>>
                    IN IF ~live THEN Close(Zero, w[i], E.tol)
                       ELSE IF E.zr = <<>> THEN Close(m.br[1].v[i], w[i], E.tol)
                       ELSE AbsI(SumSet(F, rows)[1] - Norm2(w[i])) <= 4 * E.tol
TCmp == /\ Is("cmp") /\ Keep12
        /\ CASE E.rel = "eq" -> m1.n = m2.n /\ Q!EqVec(m1.br[1].v, m2.br[1].v, m1.n, E.tol)
             [] E.rel = "phase" -> m1.n = m2.n /\ EqPhase(m1.br[1].v, m2.br[1].v, m1.n, E.tol)
             [] E.rel = "prop" -> m1.n = m2.n /\ Proportional(m1.br[1].v, m2.br[1].v, m1.n, E.tol)
             [] E.rel = "stats" -> SameStats(m1, m2, E.tol)
             [] E.rel = "statsel" -> SameStatsSel(m1, E.ba, m2, E.bb, E.tol)
             [] E.rel = "chan" -> SameChannel(m1, E.ka, m2, E.kb, E.tol)
\* observed sampling counts: cnt is a sequence of <<bits (sequence), count>>
TSample == /\ Is("sample") /\ Keep12
           /\ LET m == M(E.s)
                  Seen(k) == \E j \in DOMAIN E.cnt : E.cnt[j][1] = k
                  RECURSIVE Tot(_)
                  Tot(j) == IF j = 0 THEN 0 ELSE E.cnt[j][2] + Tot(j - 1)
                  Freq(k) == IF Seen(k) THEN (LET j == CHOOSE j \in DOMAIN E.cnt : E.cnt[j][1] = k IN E.cnt[j][2]) ELSE 0
                  all == {E.cnt[j][1] : j \in DOMAIN E.cnt} \cup Classical(m)
              IN /\ Tot(Len(E.cnt)) = E.shots
                 /\ \A j \in DOMAIN E.cnt : Prob(m, E.cnt[j][1]) > 64
                 /\ \A k \in all : AbsI(Freq(k) * (S28 \div E.shots) - Prob(m, k)) <= E.tol
\* a permutation as a partial map: the empty one is the identity, others reject what is outside (r = -1)
TPApp == /\ Is("papp") /\ Keep12
         /\ LET ks == {E.f[j][1] : j \in DOMAIN E.f}  vs == {E.f[j][2] : j \in DOMAIN E.f}
                Mx(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
            IN /\ E.r = (IF E.f = <<>> THEN E.q ELSE IF E.q \in ks THEN E.f[CHOOSE j \in DOMAIN E.f : E.f[j][1] = E.q][2] ELSE -1)
               /\ E.mk = Mx(ks) /\ E.mv = Mx(vs)
TFlag == Is("flag") /\ Keep12 /\ E.ok = TRUE
TNote == Is("note") /\ Keep12

TNext == TStart \/ TAdj \/ TResetInf \/ TSupp \/ TCase \/ TOp \/ TMeas \/ TReset \/ TPerm \/ TGrow \/ TCopy \/ TOutcome \/ TResetOut
         \/ TObs \/ TObsFree \/ TObsMask \/ TCmp \/ TSample \/ TPApp \/ TFlag \/ TNote
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
=============================================================================
