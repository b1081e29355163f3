----------------------------- MODULE RegMachine -----------------------------
(***************************************************************************)
(* Bookkeeping of a circuit under edits.  State m:                          *)
(*   lay : physical qubit -> logical qubit (initial layout)                 *)
(*   out : physical qubit -> output index (output permutation)              *)
(*   anc, gar : sets of logical qubits flagged ancillary / garbage          *)
(*   ap  : physical qubits that live in ancilla registers                   *)
(*   nc  : number of classical bits                                         *)
(*   ops : sequence of [k, q, b] (kind, qubits, classical bits)             *)
(*   ever: logical qubits that may be added (back) at any time              *)
(* Where a new qubit or bit is placed is the implementation's choice: the   *)
(* actions take the chosen values as arguments and say which are allowed.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [lay |-> <<>>, out |-> <<>>, anc |-> {}, gar |-> {}, ap |-> {}, nc |-> 0, ops |-> <<>>, ever |-> {}]
Img(f) == {f[x] : x \in DOMAIN f}
Inj(f) == Cardinality(Img(f)) = Cardinality(DOMAIN f)
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
MaxS(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
PhysOf(m, lq) == CHOOSE p \in DOMAIN m.lay : m.lay[p] = lq
NumW(m) == Cardinality(DOMAIN m.lay) - Cardinality(m.anc)     \* without ancillae
OpQ(o) == {o.q[j] : j \in DOMAIN o.q}
OpB(o) == {o.b[j] : j \in DOMAIN o.b}
Idle(m, p) == \A j \in DOMAIN m.ops : p \notin OpQ(m.ops[j])

Inv(m) == /\ Inj(m.lay) /\ Inj(m.out) /\ DOMAIN m.out \subseteq DOMAIN m.lay
          /\ m.anc \subseteq Img(m.lay) /\ m.gar \subseteq Img(m.lay) /\ m.ap \subseteq DOMAIN m.lay

\* ---- edits -------------------------------------------------------------
\* the new qubits get physical indices P, a layout nl and outputs no (functions on P)
NewQubitsOK(m, P, nl, no) ==
  /\ P \cap DOMAIN m.lay = {} /\ DOMAIN nl = P /\ Inj(nl) /\ Img(nl) \cap Img(m.lay) = {}
  /\ DOMAIN no \subseteq P /\ Inj(no) /\ Img(no) \cap Img(m.out) = {}
NewQubits(m, P, nl, no, isAnc, gar) ==
  [m EXCEPT !.lay = nl @@ m.lay, !.out = no @@ m.out,
            !.anc = IF isAnc THEN @ \cup Img(nl) ELSE @, !.ap = IF isAnc THEN @ \cup P ELSE @,
            !.gar = @ \cup gar, !.ever = @ \cup Img(nl)]
RemoveQubit(m, lq) ==
  LET p == PhysOf(m, lq)
  IN [m EXCEPT !.lay = Without(@, {p}), !.out = Without(@, {p}), !.anc = @ \ {lq}, !.gar = @ \ {lq}, !.ap = @ \ {p}]
SetAnc(m, S) == [m EXCEPT !.anc = @ \cup S]
SetGar(m, S) == [m EXCEPT !.gar = @ \cup S, !.out = Without(@, {p \in DOMAIN @ : @[p] \in S})]
Relabel(f, lq) == [p \in DOMAIN f |-> IF f[p] > lq THEN f[p] - 1 ELSE f[p]]
Shift(S, lq) == {IF x > lq THEN x - 1 ELSE x : x \in S}
StripOne(m, p) ==
  LET lq == m.lay[p]  r == RemoveQubit(m, lq)
  IN [r EXCEPT !.lay = Relabel(@, lq), !.out = IF lq \in Img(@) THEN @ ELSE Relabel(@, lq), !.anc = Shift(@, lq), !.gar = Shift(@, lq)]
Strippable(m, p, force) ==
  /\ p \in DOMAIN m.lay /\ Idle(m, p)
  /\ force \/ (p \notin DOMAIN m.out /\ m.lay[p] \notin Img(m.out))
RECURSIVE StripFrom(_, _, _)
StripFrom(m, p, force) ==
  IF p < 0 THEN [m EXCEPT !.ever = Img(m.lay)]
  ELSE StripFrom(IF Strippable(m, p, force) THEN StripOne(m, p) ELSE m, p - 1, force)
Strip(m, force) == StripFrom(m, MaxS(DOMAIN m.lay), force)
Unify(m) == [m EXCEPT !.anc = {}, !.ap = {}]
Push(m, o) == [m EXCEPT !.ops = Append(@, o)]
Drop(m, i) == [m EXCEPT !.ops = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
OpOK(m, o) == /\ OpQ(o) \subseteq DOMAIN m.lay
              /\ \A b \in OpB(o) : b < m.nc
              /\ o.k = "m" => Len(o.q) = Len(o.b)

\* ---- deriving the output mapping from measurements -----------------------
RECURSIVE FirstMeas(_, _)     \* physical qubit -> bit of its first measurement
FirstMeas(ops, n) ==
  IF n = 0 THEN <<>>
  ELSE LET f == FirstMeas(ops, n - 1)  o == ops[n]
           First(j) == o.q[j] \notin DOMAIN f /\ \A i \in 1..(j - 1) : o.q[i] # o.q[j]
           new == IF o.k = "m" THEN {j \in DOMAIN o.q : First(j)} ELSE {}
       IN [p \in {o.q[j] : j \in new} |-> o.b[CHOOSE j \in new : o.q[j] = p]] @@ f
IOMap(m) ==
  LET f == FirstMeas(m.ops, Len(m.ops))
      o1 == IF \E j \in DOMAIN m.ops : m.ops[j].k = "m" THEN f ELSE m.out
      idleAnc == {lq \in m.anc : Idle(m, PhysOf(m, lq))}
  IN [m EXCEPT !.gar = {lq \in Img(m.lay) : lq \notin Img(o1)} \cup idleAnc,
               !.out = Without(o1, {p \in DOMAIN o1 : o1[p] \in idleAnc})]

\* ---- derived quantities ---------------------------------------------------
RECURSIVE DepthOf(_, _)       \* physical qubit -> depth after the first n operations
DepthOf(m, n) ==
  IF n = 0 THEN [p \in 0 .. MaxS(DOMAIN m.lay \cup UNION {OpQ(m.ops[j]) : j \in DOMAIN m.ops}) |-> 0]
  ELSE LET d == DepthOf(m, n - 1)  o == m.ops[n]
       IN IF o.k = "b" \/ o.q = <<>> THEN d
          ELSE IF o.k \in {"m", "r"}   \* the targets are measured / reset independently
          THEN [p \in DOMAIN d |-> d[p] + Cardinality({j \in DOMAIN o.q : o.q[j] = p})]
          ELSE LET t == 1 + MaxS({d[q] : q \in OpQ(o)}) IN [p \in DOMAIN d |-> IF p \in OpQ(o) THEN t ELSE d[p]]
Depth(m) == IF m.ops = <<>> THEN 0 ELSE MaxS(Img(DepthOf(m, Len(m.ops))))
=============================================================================
