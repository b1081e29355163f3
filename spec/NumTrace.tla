------------------------------- MODULE NumTrace -------------------------------
(***************************************************************************)
(* Recorded behaviour of the table of real numbers against NumTable.       *)
(***************************************************************************)
EXTENDS NumTable, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, entries>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Init == l = 1 /\ entries = [i \in {} |-> 0]
\* the constants, and one half, which the table is created with and holds on to
New == Is("new") /\ entries' = [i \in 0..3 |-> [v |-> <<i, 0>>, ref |-> IF i = 3 THEN 1 ELSE -1]]
\* sign: minus v is looked up; what comes back is the negated number, unless it is zero
Look == /\ Is("look") /\ Lookup(E.v, E.i)
        /\ entries'[E.i].v = E.w
        /\ E.neg = (E.sign /\ E.i # 0)
IncR == Is("inc") /\ Inc(E.i) /\ (Const(E.i) \/ entries'[E.i].ref = E.ref)
DecR == Is("dec") /\ Dec(E.i) /\ (Const(E.i) \/ entries'[E.i].ref = E.ref)
Stored == {i \in DOMAIN entries : ~Const(i)}
\* a table with a single number in it (one half, usually) is not worth collecting
GC == /\ Is("gc")
      /\ IF Cardinality(Stored) <= 1 THEN E.removed = 0 /\ UNCHANGED entries ELSE Collect /\ E.removed = Cardinality(Dead)
\* how many numbers the table says it has, and how many its lists have
Cnt == Is("count") /\ E.stat = Cardinality(Stored) /\ E.r = Cardinality(Stored) /\ UNCHANGED entries
Clear == Is("clear") /\ Forget
Start == Is("start") /\ UNCHANGED entries
Note == Is("note") /\ UNCHANGED entries
Next == New \/ Look \/ IncR \/ DecR \/ GC \/ Cnt \/ Clear \/ Start \/ Note
Spec == Init /\ [][Next]_vars
Inv == Separated
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
===============================================================================
