------------------------------- MODULE IRQuery -------------------------------
(***************************************************************************)
(* What a circuit's and an operation's queries report about their          *)
(* operations.  An operation is a record                                   *)
(*   k: "g" gate, "b" barrier, "m" measurement, "r" reset, "if" condition, *)
(*      "c" compound                                                       *)
(*   t, c: sequences of target and control qubits; b: classical bits       *)
(*   a: what identifies gate and parameters; in: operations inside (if, c) *)
(* State: the operations of the circuit at hand.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ops
vars == <<l, ops>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Same == UNCHANGED ops
Range(s) == {s[i] : i \in DOMAIN s}
MaxS(s) == CHOOSE x \in s : \A y \in s : y <= x
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
\* the qubits an operation acts on, the bits it refers to
RECURSIVE Used(_)
Used(o) == Range(o.t) \cup Range(o.c) \cup UNION {Used(o.in[i]) : i \in DOMAIN o.in}
RECURSIVE Bits(_)
Bits(o) == Range(o.b) \cup UNION {Bits(o.in[i]) : i \in DOMAIN o.in}
RECURSIVE Unitary(_)
Unitary(o) == CASE o.k \in {"g", "b"} -> TRUE
                [] o.k = "c" -> \A i \in DOMAIN o.in : Unitary(o.in[i])
                [] OTHER -> FALSE
RECURSIVE NonUnitary(_)
NonUnitary(o) == CASE o.k \in {"m", "r"} -> TRUE
                   [] o.k = "c" -> \E i \in DOMAIN o.in : NonUnitary(o.in[i])
                   [] OTHER -> FALSE
\* sub-operations of compound operations count, what a condition guards does not
RECURSIVE Leaves(_)
Leaves(o) == IF o.k = "c" THEN Sum([i \in DOMAIN o.in |-> Leaves(o.in[i])], 1) ELSE 1
RECURSIVE Singles(_)
Singles(o) == CASE o.k = "c" -> Sum([i \in DOMAIN o.in |-> Singles(o.in[i])], 1)
                [] o.k = "g" -> IF Len(o.c) = 0 /\ Len(o.t) = 1 THEN 1 ELSE 0
                [] OTHER -> 0
\* depth: every gate takes one step on its qubits together, measurements and resets one on each of theirs, a conditional
\* operation as many as without its condition, and barriers none
RECURSIVE Deepen(_, _)
RECURSIVE DeepenAll(_, _, _)
Deepen(d, o) ==
  CASE o.k = "b" -> d
    [] o.k \in {"c", "if"} -> DeepenAll(d, o.in, 1)
    [] o.k \in {"m", "r"} -> [q \in DOMAIN d |-> IF q \in Range(o.t) THEN d[q] + 1 ELSE d[q]]
    [] OTHER -> LET u == Used(o) IN IF u = {} THEN d ELSE LET x == MaxS({d[q] : q \in u}) + 1 IN [q \in DOMAIN d |-> IF q \in u THEN x ELSE d[q]]
DeepenAll(d, s, i) == IF i > Len(s) THEN d ELSE DeepenAll(Deepen(d, s[i]), s, i + 1)
Depth(n) == LET d == DeepenAll([q \in 0 .. n - 1 |-> 0], ops, 1) IN MaxS({d[q] : q \in 0 .. n - 1})
\* resets, conditions, and gates on qubits that have been measured make a circuit dynamic
RECURSIVE Dyn(_, _)
RECURSIVE DynAll(_, _, _)
Dyn(st, o) == \* st: <<dynamic, measured>>
  IF st[1] THEN st
  ELSE CASE o.k \in {"r", "if"} -> <<TRUE, st[2]>>
         [] o.k = "m" -> <<FALSE, st[2] \cup Range(o.t)>>
         [] o.k = "c" -> DynAll(st, o.in, 1)
         [] OTHER -> <<Used(o) \cap st[2] # {}, st[2]>>
DynAll(st, s, i) == IF i > Len(s) THEN st ELSE DynAll(Dyn(st, s[i]), s, i + 1)
Dynamic == DynAll(<<FALSE, {}>>, ops, 1)[1]
\* a gate acting on all qubits, or the same uncontrolled gate on all of them
Global(o, n) == CASE o.k = "g" -> Cardinality(Used(o)) = n
                  [] o.k = "b" -> Cardinality(Used(o)) = n
                  [] o.k = "c" -> /\ o.in # <<>>
                                  /\ Cardinality(Used(o)) = n
                                  /\ \A i \in DOMAIN o.in : o.in[i].k \in {"g", "b"} /\ o.in[i].c = <<>> /\ o.in[i].a = o.in[1].a
                  [] OTHER -> FALSE
Circ == Is("circ") /\ ops' = E.ops
QCirc == /\ Is("qcirc") /\ Same
         /\ E.nops = Len(ops) /\ E.nind = Sum([i \in DOMAIN ops |-> Leaves(ops[i])], 1)
         /\ E.nsingle = Sum([i \in DOMAIN ops |-> Singles(ops[i])], 1)
         /\ E.depth = (IF ops = <<>> THEN 0 ELSE Depth(E.n))
         /\ E.dyn = Dynamic
         /\ Range(E.idle) = {q \in 0 .. E.n - 1 : \A i \in DOMAIN ops : q \notin Used(ops[i])}
QOp == /\ Is("qop") /\ Same
       /\ LET o == ops[E.i] IN
          /\ Range(E.used) = Used(o) /\ E.nq = Cardinality(Used(o)) /\ Range(E.acts) = Used(o)
          /\ E.unitary = Unitary(o) /\ E.nonunitary = NonUnitary(o) /\ E.isif = (o.k = "if") /\ E.iscomp = (o.k = "c")
          /\ E.isstd = (o.k \in {"g", "b"})
          /\ E.global = Global(o, E.n)
          /\ (o.k \in {"g", "b", "m", "r"}) => E.nt = Len(o.t) /\ E.nc = Len(o.c) /\ E.ctrl = (o.c # <<>>)
\* a circuit made of a compound operation has its operations, and room for all qubits and bits
From == LET o == ops[E.i] IN
        /\ Is("from") /\ Same /\ E.ops = o.in
        /\ E.nq = (IF Used(o) = {} THEN 1 ELSE MaxS(Used(o)) + 1)
        /\ E.nb = (IF Bits(o) = {} THEN 1 ELSE MaxS(Bits(o)) + 1)
\* a copy (by construction, assignment, or cloning of the operations) is made of the same operations
Copied == Is("copied") /\ Same /\ E.ops = ops
Removed == Is("erase") /\ ops' = SubSeq(ops, 1, E.i - 1) \o SubSeq(ops, E.i + 1, Len(ops))
Inserted == Is("insert") /\ ops' = SubSeq(ops, 1, E.i - 1) \o <<E.op>> \o SubSeq(ops, E.i, Len(ops))
Cleared == Is("clear") /\ ops' = <<>>
Start == Is("start") /\ ops' = <<>>
Note == Is("note") /\ Same
Flag == Is("flag") /\ Same /\ E.ok = TRUE
Init == l = 1 /\ ops = <<>>
Next == Circ \/ QCirc \/ QOp \/ From \/ Copied \/ Removed \/ Inserted \/ Cleared \/ Start \/ Note \/ Flag
QSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
===============================================================================
