-------------------------------- MODULE SSASem --------------------------------
(***************************************************************************)
(* The machine that a quantum program in value semantics with control flow *)
(* (the mqtopt dialect of MLIR) runs on.  A program is a sequence of basic *)
(* blocks, each with arguments, operations and a terminator.  Values are   *)
(*   <<"q", wire, version>>     the state of a qubit                       *)
(*   <<"r", version, slots>>    a register; slots: wire or -1 (extracted)  *)
(*   <<"b", 0 or 1>>            a classical bit                            *)
(* A state of a qubit exists once: using it yields a new version, and the  *)
(* old one must not be used any more (no cloning).  Measurements make the  *)
(* run branch; a run is cut off before the measurement that would exceed   *)
(* the bound (programs with loops).                                        *)
(***************************************************************************)
EXTENDS CircMachine, Sequences, Naturals, SequencesExt
CONSTANT MaxMeas, MaxBlocks

\* a run: block, position, values, current versions of wires and registers, outcomes per wire, state
Start(P) == [b |-> 1, i |-> 1, env |-> <<>>, ver |-> [w \in 0 .. (P.n - 1) |-> 0], next |-> 0, rv |-> 0, home |-> 0 .. (P.n - 1), nm |-> 0, nb |-> 0,
             log |-> [w \in 0 .. (P.n - 1) |-> <<>>], v |-> IF P.init = "id" THEN Q!Ident(P.n) ELSE Q!Basis(P.n, P.b)]
Dims(P) == IF P.init = "id" THEN 2 * P.n ELSE P.n
Bind(env, id, val) == (id :> val) @@ env
RECURSIVE BindAll(_, _, _, _)
BindAll(env, ids, vals, j) == IF j > Len(ids) THEN env ELSE BindAll(Bind(env, ids[j], vals[j]), ids, vals, j + 1)
Vals(st, ids) == [j \in DOMAIN ids |-> st.env[ids[j]]]
\* the qubits listed are current, and no two of them are the same
Current(st, ids) ==
  /\ \A j \in DOMAIN ids : ids[j] \in DOMAIN st.env
  /\ \A j \in DOMAIN ids : st.env[ids[j]][1] = "q" /\ st.ver[st.env[ids[j]][2]] = st.env[ids[j]][3]
  /\ Cardinality({st.env[ids[j]][2] : j \in DOMAIN ids}) = Len(ids)
Wires(st, ids) == [j \in DOMAIN ids |-> st.env[ids[j]][2]]
\* new versions for the qubits that an operation hands on
Renew(st, ws, outs) ==
  LET ver == [w \in DOMAIN st.ver |-> IF \E j \in DOMAIN ws : ws[j] = w THEN st.ver[w] + 1 ELSE st.ver[w]]
  IN [st EXCEPT !.ver = ver, !.env = BindAll(st.env, outs, [j \in DOMAIN ws |-> <<"q", ws[j], ver[ws[j]]>>], 1)]
RegOK(st, id) == id \in DOMAIN st.env /\ st.env[id][1] = "r" /\ st.env[id][2] = st.rv
Known(st, ids) == \A j \in DOMAIN ids : ids[j] \in DOMAIN st.env
Bad(why) == {[bad |-> why]}

RECURSIVE Run(_, _)
\* outcomes of measuring the wires ws from the j-th on
RECURSIVE Outcomes(_, _, _)
Outcomes(st, ws, j) ==
  IF j > Len(ws) THEN {<<st, <<>>>>}
  ELSE UNION {LET s2 == [st EXCEPT !.log[ws[j]] = Append(@, x), !.v = Q!Project(st.v, st.dim, ws[j], x)]
              IN {<<y[1], <<x>> \o y[2]>> : y \in Outcomes(s2, ws, j + 1)} : x \in 0 .. 1}
Step(P, st) ==
  LET o == P.blocks[st.b].ops[st.i]
      Next(s) == Run(P, [s EXCEPT !.i = @ + 1])
  IN CASE o.g = "alloc" ->
            Next([st EXCEPT !.next = @ + o.size, !.rv = @ + 1,
                            !.env = Bind(st.env, o.r[1], <<"r", st.rv + 1, [j \in 1 .. o.size |-> st.next + j - 1]>>)])
       [] o.g = "extract" ->
            IF ~RegOK(st, o.i[1]) THEN Bad("register used twice")
            ELSE LET R == st.env[o.i[1]][3] IN
                 IF o.x + 1 \notin DOMAIN R \/ R[o.x + 1] = -1 THEN Bad("no such qubit in the register")
                 ELSE LET w == R[o.x + 1] IN
                      Next([st EXCEPT !.rv = @ + 1, !.home = @ \ {w},
                        !.env = Bind(Bind(st.env, o.r[1], <<"r", st.rv + 1, [R EXCEPT ![o.x + 1] = -1]>>), o.r[2], <<"q", w, st.ver[w]>>)])
       [] o.g = "insert" ->
            IF ~RegOK(st, o.i[1]) THEN Bad("register used twice")
            ELSE IF ~Current(st, <<o.i[2]>>) THEN Bad("qubit used twice")
            ELSE LET w == st.env[o.i[2]][2] IN
                 Next([st EXCEPT !.rv = @ + 1, !.ver[w] = @ + 1, !.home = @ \cup {w},
                   !.env = Bind(st.env, o.r[1], <<"r", st.rv + 1, [st.env[o.i[1]][3] EXCEPT ![o.x + 1] = w]>>)])
       [] o.g = "dealloc" -> IF ~RegOK(st, o.i[1]) THEN Bad("register used twice") ELSE Next([st EXCEPT !.rv = @ + 1])
       [] o.g = "const" -> Next([st EXCEPT !.env = Bind(st.env, o.r[1], <<"b", o.v>>)])
       [] o.g = "measure" ->
            IF ~Current(st, o.i) THEN Bad("qubit used twice")
            ELSE IF st.nm + Len(o.i) > MaxMeas THEN {}
            ELSE LET ws == Wires(st, o.i)
                     k == Len(ws)
                     s1 == [st EXCEPT !.nm = @ + k]
                 IN UNION {LET s2 == Renew(y[1], ws, SubSeq(o.r, 1, k))
                           IN Next([s2 EXCEPT !.env = BindAll(s2.env, SubSeq(o.r, k + 1, 2 * k), [j \in 1 .. k |-> <<"b", y[2][j]>>], 1)])
                           : y \in Outcomes(s1, ws, 1)}
       [] OTHER ->
            LET cs == [j \in DOMAIN o.c |-> o.c[j][1]]
                all == o.i \o cs
            IN IF ~Current(st, all) THEN Bad("qubit used twice")
               ELSE IF Len(o.r) # Len(all) THEN Bad("qubits lost")
               ELSE LET ws == Wires(st, all)
                        k == Len(o.i)
                        op == [g |-> o.g, t |-> SubSeq(ws, 1, k), p |-> o.p, c |-> [j \in DOMAIN o.c |-> <<ws[k + j], o.c[j][2]>>]]
                    IN Next(Renew([st EXCEPT !.v = Q!ApplyOp(st.v, st.dim, op)], ws, o.r))
Jump(P, st, d, args) ==
  IF ~Known(st, args) THEN Bad("undefined value")
  ELSE IF Len(args) # Len(P.blocks[d].args) THEN Bad("wrong number of block arguments")
  ELSE IF st.nb >= MaxBlocks THEN {}
  ELSE LET qs == SelectSeq([j \in DOMAIN args |-> j], LAMBDA j : st.env[args[j]][1] = "q")
           s1 == [st EXCEPT !.b = d, !.i = 1, !.nb = @ + 1, !.env = BindAll(st.env, P.blocks[d].args, Vals(st, args), 1)]
           ids == [j \in DOMAIN qs |-> args[qs[j]]]
       IN IF ~Current(st, ids) THEN Bad("qubit used twice")
          \* passing a qubit to a block is a use of it
          ELSE Run(P, Renew(s1, Wires(st, ids), [j \in DOMAIN qs |-> P.blocks[d].args[qs[j]]]))
Terminate(P, st) ==
  LET t == P.blocks[st.b].t IN
  CASE t.k = "br" -> Jump(P, st, t.d, t.a)
    [] t.k = "cond" -> IF ~Known(st, <<t.c>>) THEN Bad("undefined condition")
                       ELSE IF st.env[t.c][2] = 1 THEN Jump(P, st, t.d, t.a) ELSE Jump(P, st, t.d2, t.a2)
    [] t.k = "ret" ->
         IF ~Known(st, t.a) THEN Bad("undefined value returned")
         ELSE {[log |-> st.log, v |-> st.v,
                \* the qubits that are still there: in their register or returned
                kept |-> st.home \cup {st.env[t.a[j]][2] : j \in {i \in DOMAIN t.a : st.env[t.a[i]][1] = "q" /\ st.ver[st.env[t.a[i]][2]] = st.env[t.a[i]][3]}},
                ret |-> [j \in DOMAIN t.a |-> LET x == st.env[t.a[j]] IN CASE x[1] = "b" -> x[2] [] x[1] = "q" -> 10 + x[2] [] x[1] = "r" -> 2]]}
Run(P, st) == IF st.i > Len(P.blocks[st.b].ops) THEN Terminate(P, st) ELSE Step(P, TLCEval(st))

Runs(P) == TLCEval(Run(P, ("dim" :> Dims(P)) @@ Start(P)))
Good(rs) == \A r \in rs : "bad" \notin DOMAIN r
\* the same outcomes lead to the same results and states
SameRuns(P, A, B, tol) ==
  /\ {r.log : r \in A} = {r.log : r \in B}
  /\ \A r \in A : \A s \in B : r.log = s.log =>
       /\ r.ret = s.ret /\ r.kept = s.kept
       /\ \/ Q!EqVec(r.v, s.v, Dims(P), tol)
          \* qubits that were dropped do not count (neither does the phase)
          \/ /\ r.kept # 0 .. (P.n - 1)
             /\ LET k == SetToSeq(r.kept) \o [j \in 1 .. (Dims(P) - P.n) |-> P.n + j - 1]
                    M(x) == [n |-> Dims(P), br |-> << [k |-> <<>>, v |-> x.v] >>]
                IN SameChannel(M(r), k, M(s), k, tol)
===============================================================================
