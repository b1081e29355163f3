------------------------------ MODULE NoiseTrace ------------------------------
(* recorded noise-aware simulations against NoiseSem: k = "d" a density matrix, k = "s" a state vector, of n qubits *)
EXTENDS NoiseSem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, n, v
vars == <<l, k, n, v>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
VecOf(d) == TLCEval([i \in 0 .. (Len(d) \div 2 - 1) |-> <<d[2 * i + 1], d[2 * i + 2]>>])
Keep == UNCHANGED <<k, n, v>>
Eps == 4096
Dims == IF k = "d" THEN 2 * n ELSE n
Cfg == E.cfg
Close2(a, b, m, tol) == NQ!EqVec(a, b, m, tol)
Big(w, m) == CHOOSE i \in NQ!Dim(m) : \A j \in NQ!Dim(m) : Norm2(w[j]) <= Norm2(w[i])
Proportional(a, w, m, tol) == LET i0 == TLCEval(Big(w, m))
   IN \A i \in NQ!Dim(m) : Close(Mul(a[i], w[i0]), Mul(w[i], a[i0]), tol)
Init == l = 1 /\ k = "d" /\ n = 0 /\ v = NQ!Basis(0, 0)
Case == /\ Is("case") /\ k' = E.k /\ n' = E.n /\ v' = NQ!Basis(IF E.k = "d" THEN 2 * E.n ELSE E.n, 0)
Op == /\ Is("op")
      /\ LET op == [g |-> E.g, t |-> E.t, c |-> E.c, p |-> E.p]
         IN v' = (IF k = "d" THEN Evolve(v, n, op) ELSE NQ!ApplyOp(v, n, op))
      /\ UNCHANGED <<k, n>>
\* the exact channel
DNoise == Is("noise") /\ k = "d" /\ v' = Noise(v, n, Cfg, E.eff, E.qs, 1) /\ UNCHANGED <<k, n>>
Obs == /\ Is("obs") /\ Keep /\ Len(E.d) = 2 * NQ!P2[Dims] /\ Close2(v, VecOf(E.d), Dims, E.tol)
\* the diagonal of a density matrix
Diag == /\ Is("diag") /\ Keep /\ k = "d" /\ Len(E.d) = NQ!P2[n]
        /\ \A i \in NQ!Dim(n) : AbsI(v[i + i * NQ!P2[n]][1] - E.d[i + 1]) <= E.tol
\* a collapsing measurement: outcome b is possible, E.d the normalised projection
DMeas == /\ Is("dmeas") /\ k = "d"
         /\ LET p == TLCEval(DProject(v, n, E.q, E.b))  w == VecOf(E.d)
            IN /\ DTrace(p, n) > Eps
               /\ AbsI(DTrace(w, n) - S28) <= E.tol
               /\ Proportional(p, w, 2 * n, E.tol)
               /\ v' = w
         /\ UNCHANGED <<k, n>>
\* out of E.shots measurements of qubit q E.ones gave 1
DFreq == /\ Is("dfreq") /\ k = "d" /\ Keep
         /\ AbsI(E.ones * (S28 \div E.shots) - DTrace(DProject(v, n, E.q, 1), n)) <= E.tol
\* one random realisation: the observed state is a normalised version of a possible one
SNoise == /\ Is("noise") /\ k = "s"
          /\ LET w == VecOf(E.d)
             IN /\ AbsI(NQ!NormSq(w, n)[1] - S28) <= E.tol
                /\ \E r \in Results(v, n, Cfg, E.eff, E.qs, 1) : NQ!NormSq(r, n)[1] > 1000 /\ Proportional(r, w, n, E.tol)
                /\ v' = w
          /\ UNCHANGED <<k, n>>
\* a configuration is accepted iff it makes sense
Config == /\ Is("config") /\ Keep
          /\ E.ok = /\ \A j \in DOMAIN E.p : E.p[j] \in 0 .. S28
                    /\ \A j \in DOMAIN E.eff : E.eff[j] \in {"A", "P", "D", "I"}
Flag == Is("flag") /\ E.ok = TRUE /\ Keep
Note == (Is("note") \/ Is("start")) /\ Keep
Next == Case \/ Op \/ DNoise \/ Obs \/ Diag \/ DMeas \/ DFreq \/ SNoise \/ Config \/ Flag \/ Note
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
===============================================================================
