-------------------------------- MODULE DDAlg --------------------------------
(***************************************************************************)
(* Trace specification of the decision-diagram package.  The abstract      *)
(* state of a package is the set of functions (vectors and matrices) its   *)
(* live handles denote; every package operation is an action that adds a   *)
(* handle denoting the function linear algebra prescribes.  Collecting     *)
(* garbage is a stuttering step on all referenced handles.  A second,      *)
(* structural layer (the "graph" event) describes the shared node store:   *)
(* reference counts, canonicity, normalisation and table occupancy.        *)
(*                                                                         *)
(* A vector on n qubits is 0..2^n-1 -> amplitude, a matrix on n qubits is  *)
(* 0..4^n-1 -> amplitude with index row + 2^n * column.                    *)
(***************************************************************************)
EXTENDS FixNum, TLC, FiniteSets, Json, IOUtils
Q == INSTANCE QSem
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
VecOf(d) == TLCEval([i \in 0 .. (Len(d) \div 2 - 1) |-> <<d[2 * i + 1], d[2 * i + 2]>>])
P2 == Q!P2
Bit(i, q) == Q!Bit(i, q)

RECURSIVE SumTo(_, _)
SumTo(F(_), i) == IF i < 0 THEN Zero ELSE Add(F(i), SumTo(F, i - 1))
Entry(m, n, r, c) == m[r + P2[n] * c]
\* ---- the operations of linear algebra ----
MatVec(m, v, n) == [r \in Q!Dim(n) |-> LET F(c) == Mul(Entry(m, n, r, c), v[c]) IN SumTo(F, P2[n] - 1)]
MatMat(a, b, n) == [i \in Q!Dim(2 * n) |-> LET r == i % P2[n]  c == i \div P2[n]
                                              F(k) == Mul(Entry(a, n, r, k), Entry(b, n, k, c)) IN SumTo(F, P2[n] - 1)]
VAdd(a, b) == [i \in DOMAIN a |-> Add(a[i], b[i])]
VConj(a) == [i \in DOMAIN a |-> Conj(a[i])]
MAdj(m, n) == Q!AdjMat(m, 2 * n)
\* Kronecker product, x on the more significant qubits
VKron(x, y, ny) == [i \in 0 .. ((Cardinality(DOMAIN x) * P2[ny]) - 1) |-> Mul(x[i \div P2[ny]], y[i % P2[ny]])]
MKron(x, nx, y, ny) == LET n == nx + ny IN
  [i \in Q!Dim(2 * n) |-> LET r == i % P2[n]  c == i \div P2[n] IN
     Mul(Entry(x, nx, r \div P2[ny], c \div P2[ny]), Entry(y, ny, r % P2[ny], c % P2[ny]))]
Lift(m, n, k) == MKron(Q!Ident(k - n), k - n, m, n)
Inner(x, y, n) == Q!Inner(x, y, P2[n] - 1)
RECURSIVE Halve(_, _)
Halve(x, k) == IF k = 0 THEN x ELSE Halve(Mul(Half, x), k - 1)
Trace0(m, n) == LET F(i) == Halve(Entry(m, n, i, i), n) IN SumTo(F, P2[n] - 1)
\* partial trace: kept qubits move down, normalised by 2^(number of traced qubits)
Kept(n, el) == SelectSeq([j \in 1..n |-> j - 1], LAMBDA q : el[q + 1] = 0)
RECURSIVE Place(_, _, _)
Place(i, qs, j) == IF j > Len(qs) THEN 0 ELSE P2[qs[j]] * Bit(i, j - 1) + Place(i, qs, j + 1)
PTrace(m, n, el) ==
  LET kq == Kept(n, el)  gone == SelectSeq([j \in 1..n |-> j - 1], LAMBDA q : el[q + 1] = 1)
      k == Len(kq)  g == Len(gone)
  IN [i \in Q!Dim(2 * k) |->
        LET r == Place(i % P2[k], kq, 1)  c == Place(i \div P2[k], kq, 1)
            F(x) == LET o == Place(x, gone, 1) IN Halve(Entry(m, n, r + o, c + o), g)
        IN SumTo(F, P2[g] - 1)]
\* a small matrix (first target most significant) on targets t, applied if the controls are satisfied
RECURSIVE SubIx(_, _, _)
SubIx(i, t, j) == IF j > Len(t) THEN 0 ELSE Bit(i, t[j]) * P2[Len(t) - j] + SubIx(i, t, j + 1)
Embed(x, t, c, n) ==
  [i \in Q!Dim(2 * n) |->
     LET r == i % P2[n]  k == i \div P2[n]
     IN IF \E j \in DOMAIN c : Bit(k, c[j][1]) # c[j][2] THEN (IF r = k THEN One ELSE Zero)
        ELSE IF \E q \in 0 .. (n - 1) : q \notin {t[j] : j \in DOMAIN t} /\ Bit(r, q) # Bit(k, q) THEN Zero
        ELSE Entry(x, Len(t), SubIx(r, t, 1), SubIx(k, t, 1))]
\* ancilla reduction: columns (regular) or rows with an ancilla at 1 vanish ... and
\* the ancilla rows of the identity part stay as they are
AncBad(i, anc) == \E q \in DOMAIN anc : anc[q] = 1 /\ Bit(i, q - 1) = 1
RedAnc(m, n, anc, regular) ==
  [i \in Q!Dim(2 * n) |-> IF AncBad(IF regular THEN i \div P2[n] ELSE i % P2[n], anc) THEN Zero ELSE m[i]]
\* garbage reduction merges entries that differ in garbage qubits only; the
\* merged entry's squared magnitude is the sum of theirs
GarbSet(n, ga) == {x \in Q!Dim(n) : \A q \in 0..(n - 1) : ga[q + 1] = 0 => Bit(x, q) = 0}
GarbOK(v, w, n, ga, mag, tol) ==
  LET gs == GarbSet(n, ga) IN
  \A i \in Q!Dim(n) :
    IF AncBad(i, ga) THEN Close(w[i], Zero, tol)
    ELSE IF gs = {0} /\ ~mag THEN Close(w[i], v[i], tol)
    ELSE LET S[s \in SUBSET gs] == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN Norm2(v[i + x]) + S[s \ {x}]
         IN /\ AbsI(S[gs] - Norm2(w[i])) <= 4 * tol
            /\ mag => w[i][1] >= -tol /\ AbsI(w[i][2]) <= tol
GarbMOK(m, w, n, ga, regular, mag, tol) ==
  \A o \in Q!Dim(n) : LET Sl(x) == [i \in Q!Dim(n) |-> IF regular THEN Entry(x, n, i, o) ELSE Entry(x, n, o, i)]
                      IN GarbOK(Sl(m), Sl(w), n, ga, mag, tol)

EqV(a, b, tol) == DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : Close(a[i], b[i], tol)

\* ---- actions ----
H(j) == st[E.a[j]]
Res(kind, n, exp) == LET w == VecOf(E.d) IN
   /\ EqV(exp, w, E.tol)
   /\ st' = TLCEval([h \in DOMAIN st \cup {E.h} |-> IF h = E.h THEN [k |-> kind, n |-> n, v |-> w] ELSE st[h]])
TInit == l = 1 /\ st = <<>>
TStart == Is("start") /\ UNCHANGED st
TCase == Is("pkg") /\ st' = <<>>
TNew == Is("new") /\ Res(E.k, E.n, VecOf(E.x))
RECURSIVE ApplySeq(_, _, _, _)
ApplySeq(v, n, ops, j) == IF j > Len(ops) THEN v ELSE ApplySeq(Q!ApplyOp(v, n, ops[j]), n, ops, j + 1)
TGate == Is("gate") /\ Res("m", E.n, ApplySeq(Q!Ident(E.n), 2 * E.n, E.ops, 1))
TOp == /\ Is("dd")
       /\ CASE E.f = "add"  -> H(1).k = H(2).k /\ H(1).n = H(2).n /\ Res(H(1).k, H(1).n, VAdd(H(1).v, H(2).v))
            [] E.f = "mv"   -> H(1).n = H(2).n /\ Res("v", H(1).n, MatVec(H(1).v, H(2).v, H(1).n))
            [] E.f = "mm"   -> H(1).n = H(2).n /\ Res("m", H(1).n, MatMat(H(1).v, H(2).v, H(1).n))
            [] E.f = "vkron" -> Res("v", H(1).n + H(2).n, VKron(H(1).v, H(2).v, H(2).n))
            [] E.f = "mkron" -> Res("m", H(1).n + H(2).n, MKron(H(1).v, H(1).n, H(2).v, H(2).n))
            [] E.f = "vkronz" -> Res("v", E.n, VKron([i \in Q!Dim(E.n - H(1).n) |-> IF i = 0 THEN One ELSE Zero], H(1).v, H(1).n))
            [] E.f = "conj" -> Res("v", H(1).n, VConj(H(1).v))
            [] E.f = "adj"  -> Res("m", H(1).n, MAdj(H(1).v, H(1).n))
            [] E.f = "lift" -> Res("m", E.n, Lift(H(1).v, H(1).n, E.n))
            [] E.f = "same" -> Res(H(1).k, H(1).n, H(1).v)       \* transfer, serialisation
            [] E.f = "ptrace" -> Res("m", Len(Kept(H(1).n, E.el)), PTrace(H(1).v, H(1).n, E.el))
            [] E.f = "del" -> Res("v", H(1).n, [i \in DOMAIN H(1).v |-> IF Bit(i, E.q) = E.b THEN Zero ELSE H(1).v[i]])
            [] E.f = "anc"  -> Res("m", H(1).n, RedAnc(H(1).v, H(1).n, E.el, E.reg))
            [] E.f = "vgarb" -> LET w == VecOf(E.d) IN GarbOK(H(1).v, w, H(1).n, E.el, E.mag, E.tol) /\ Res("v", H(1).n, w)
            [] E.f = "mgarb" -> LET w == VecOf(E.d) IN GarbMOK(H(1).v, w, H(1).n, E.el, E.reg, E.mag, E.tol) /\ Res("m", H(1).n, w)
            \* the state after q was found to be b: the projection, normalised
            [] E.f = "proj" -> LET v == H(1).v  n == H(1).n  w == VecOf(E.d)
                                   pr == TLCEval([i \in DOMAIN v |-> IF Bit(i, E.q) = E.b THEN v[i] ELSE Zero])
                                   s == Inner(w, pr, n)[1]
                               IN /\ s > 0 /\ AbsI(Q!NormSq(w, n)[1] - One[1]) <= 4 * E.tol
                                  /\ \A i \in DOMAIN v : Close(Mul(<<s, 0>>, w[i]), pr[i], E.tol)
                                  /\ Res("v", n, w)
            [] E.f = "flip" -> Res("v", H(1).n, [i \in DOMAIN H(1).v |-> H(1).v[IF E.b = 0 THEN i ELSE IF Bit(i, E.q) = 1 THEN i - P2[E.q] ELSE i + P2[E.q]]])
            [] E.f = "embed" -> Res("m", E.n, Embed(VecOf(E.x), E.t, E.c, E.n))
TScalar == /\ Is("sc") /\ UNCHANGED st
           /\ LET z == <<E.re, E.im>>  n == H(1).n  tol == E.tol
              IN CASE E.f = "inner" -> Close(z, Inner(H(1).v, H(2).v, n), tol)
                   [] E.f = "fid" -> AbsI(E.re - Norm2(Inner(H(1).v, H(2).v, n))) <= tol
                   [] E.f = "trace" -> Close(z, Trace0(H(1).v, n), tol)
                   [] E.f = "exp" -> Close(z, Inner(H(2).v, TLCEval(MatVec(H(1).v, H(2).v, n)), n), tol)
                   \* E.sq: square roots of the given probabilities, E.mg: magnitudes of the amplitudes
                   [] E.f = "fmo" -> /\ \A i \in DOMAIN E.mg : E.mg[i] >= 0 /\ AbsI(FMul(E.mg[i], E.mg[i]) - Norm2(H(1).v[i - 1])) <= tol
                                     /\ LET F(i) == <<FMul(E.mg[i + 1], E.sq[i + 1]), 0>> IN Close(z, SumTo(F, P2[n] - 1), tol)
                   [] E.f = "norm" -> AbsI(E.re - Q!NormSq(H(1).v, n)[1]) <= tol
                   \* entry (E.r, E.c) of a matrix / E.r of a vector
                   [] E.f = "elem" -> Close(z, IF H(1).k = "v" THEN H(1).v[E.r] ELSE Entry(H(1).v, n, E.r, E.c), tol)
\* edges identical iff the functions are equal
TSame == /\ Is("same") /\ UNCHANGED st
         /\ \A j \in DOMAIN E.eq : EqV(st[E.h].v, st[E.eq[j]].v, 3000)
         /\ \A j \in DOMAIN E.ne : ~EqV(st[E.h].v, st[E.ne[j]].v, 100)
\* garbage collection: the listed handles survive, unchanged
TGC == /\ Is("gc")
       /\ \A j \in DOMAIN E.obs : EqV(st[E.obs[j][1]].v, VecOf(E.obs[j][2]), 64)
       /\ LET keep == {E.obs[j][1] : j \in DOMAIN E.obs} IN st' = [h \in keep |-> st[h]]
TReset == Is("reset") /\ st' = <<>>
TDrop == Is("drop") /\ st' = [h \in DOMAIN st \ {E.h} |-> st[h]]

\* ---- the shared node store ----
Ids(s) == {s[j].id : j \in DOMAIN s}
RECURSIVE Closure(_, _)
Closure(byId, s) == LET t == s \cup UNION {{byId[i].c[j][1] : j \in DOMAIN byId[i].c} \ {0} : i \in s}
                    IN IF t = s THEN s ELSE Closure(byId, t)
RECURSIVE Cnt(_, _, _)   \* occurrences of x in position p of the sequences in s
Cnt(p(_), s, j) == IF j = 0 THEN 0 ELSE (IF p(s[j]) THEN 1 ELSE 0) + Cnt(p, s, j - 1)
RECURSIVE SumS(_, _)
SumS(F(_), s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN F(x) + SumS(F, s \ {x})
GraphOK ==
  LET N == E.nodes
      byId == TLCEval([i \in Ids(N) |-> N[CHOOSE j \in DOMAIN N : N[j].id = i]])
      held == {j \in DOMAIN E.roots : E.roots[j].hold > 0}
      act == TLCEval(Closure(byId, {E.roots[j].id : j \in held} \ {0}))
      HoldsOf(i) == LET F(j) == IF E.roots[j].id = i THEN E.roots[j].hold ELSE 0 IN SumS(F, held)
      EdgesTo(i) == LET F(k) == LET G(x) == x[1] = i IN Cnt(G, byId[k].c, Len(byId[k].c)) IN SumS(F, act)
      Kind(k) == {i \in act : byId[i].k = k}
  IN \* reference counts equal the outstanding references
     /\ "refs" \in DOMAIN E =>
        /\ \A j \in DOMAIN N : N[j].ref = IF N[j].id \in act THEN HoldsOf(N[j].id) + EdgesTo(N[j].id) ELSE 0
        /\ LET use == [x \in {E.nums[j][1] : j \in DOMAIN E.nums} |->
                         LET F(j) == LET r == E.roots[j] IN r.hold * ((IF r.w[1] = x THEN 1 ELSE 0) + (IF r.w[2] = x THEN 1 ELSE 0))
                             G(k) == LET A(z) == z[4] = x  B(z) == z[5] = x  c == byId[k].c IN Cnt(A, c, Len(c)) + Cnt(B, c, Len(c))
                         IN SumS(F, held) + SumS(G, act)]
           IN \A j \in DOMAIN E.nums : E.nums[j][2] = use[E.nums[j][1]]
        /\ E.vact = Cardinality(Kind("v")) /\ E.mact = Cardinality(Kind("m"))
        \* right after a forced collection only referenced nodes and numbers remain
        /\ E.swept => /\ E.vent = E.vact /\ E.ment = E.mact
                      /\ E.nent <= E.base + Cardinality({E.nums[j][1] : j \in {x \in DOMAIN E.nums : E.nums[x][2] > 0}})
     \* canonicity and normalisation
     /\ "canon" \in DOMAIN E =>
        /\ \A i, j \in DOMAIN N : i # j => ~(N[i].k = N[j].k /\ N[i].v = N[j].v /\ N[i].s = N[j].s)
        /\ \A j \in DOMAIN E.roots : E.roots[j].sz = Cardinality(Closure(byId, {E.roots[j].id} \ {0})) + 1
        /\ \A j \in DOMAIN N :
             LET c == N[j].c
                 M(x) == FMul(c[x][2], c[x][2]) + FMul(c[x][3], c[x][3])
             IN IF N[j].k = "v"
                THEN /\ AbsI(M(1) + M(2) - S28) <= 200
                     \* children: the next level, or the zero terminal, or (at level 0) the terminal
                     /\ \A x \in 1..2 : IF c[x][1] = 0 THEN N[j].v = 0 \/ M(x) = 0 ELSE byId[c[x][1]].v = N[j].v - 1
                ELSE /\ \A x \in 1..4 : M(x) <= S28 + 200
                     /\ \E x \in 1..4 : AbsI(M(x) - S28) <= 200
                     /\ \A x \in 1..4 : c[x][1] # 0 => byId[c[x][1]].v < N[j].v
                     \* identity nodes are skipped
                     /\ ~(c[1] = c[4] /\ c[2][1] = 0 /\ M(2) = 0 /\ c[3][1] = 0 /\ M(3) = 0)
TGraph == Is("graph") /\ UNCHANGED st /\ GraphOK
TFlag == Is("flag") /\ UNCHANGED st /\ E.ok = TRUE
TNote == Is("note") /\ UNCHANGED st
TNext == TStart \/ TCase \/ TNew \/ TGate \/ TOp \/ TScalar \/ TSame \/ TGC \/ TDrop \/ TReset \/ TGraph \/ TFlag \/ TNote
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
=============================================================================
