--------------------------------- MODULE NAMC ---------------------------------
(* consequences of the rules, for all short programs of two or three atoms on a small grid *)
EXTENDS NAMachine
CONSTANTS Atoms, W, MaxOps
VARIABLES loc, held, loads, stores, last, n
Grid == {<<x, y>> : x \in 0 .. W, y \in 0 .. W}
Init == /\ loc \in [Atoms -> Grid] /\ \A a, b \in Atoms : a # b => loc[a] # loc[b]
        /\ held = {} /\ loads = [a \in Atoms |-> 0] /\ stores = loads /\ last = <<>> /\ n = 0
Seqs(S) == {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}
Ops == [k : {"load", "move", "store"}, a : Seqs(Atoms)]
Step == /\ n < MaxOps
        /\ \E o \in Ops : \E ts \in (IF o.k = "move" THEN {} ELSE {<<>>}) \cup [1 .. Len(o.a) -> Grid] :
             LET op == [k |-> o.k, a |-> o.a, t |-> ts] IN
             /\ Enabled(loc, held, op)
             /\ loc' = Moved(loc, op) /\ held' = Held(held, op) /\ n' = n + 1
             /\ last' = <<op, loc>>
             /\ loads' = IF op.k = "load" THEN [a \in Atoms |-> loads[a] + (IF a \in Range(op.a) THEN 1 ELSE 0)] ELSE loads
             /\ stores' = IF op.k = "store" THEN [a \in Atoms |-> stores[a] + (IF a \in Range(op.a) THEN 1 ELSE 0)] ELSE stores
Spec == Init /\ [][Step]_<<loc, held, loads, stores, last, n>>
\* loads and stores of an atom alternate
Alternate == \A a \in Atoms : loads[a] - stores[a] = (IF a \in held THEN 1 ELSE 0)
\* atoms moved together never coincide and keep their relative order; only they move
Together == last # <<>> =>
   LET op == last[1]  old == last[2] IN
   /\ \A a \in Atoms \ Range(op.a) : loc[a] = old[a]
   /\ \A a, b \in Range(op.a) : a # b /\ old[a] # old[b] => /\ loc[a] # loc[b]
                                                            /\ old[a][1] < old[b][1] => loc[a][1] < loc[b][1]
                                                            /\ old[a][2] = old[b][2] => loc[a][2] = loc[b][2]
\* the order of the atoms in the list is irrelevant
Symmetric == \A a, b \in Atoms : \A s, t \in Grid : a # b =>
   (Enabled(loc, held, [k |-> "move", a |-> <<a, b>>, t |-> <<s, t>>]) = Enabled(loc, held, [k |-> "move", a |-> <<b, a>>, t |-> <<t, s>>]))
===============================================================================
