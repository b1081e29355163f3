------------------------------ MODULE LayerTrace ------------------------------
(***************************************************************************)
(* Behaviour of the layer scheduler.  "circ" gives the qubits (and kind)   *)
(* of every operation of the circuit; "exec" is the step of executing one  *)
(* offered operation: it must have been offered and happens once;          *)
(* "offer" states which operations are offered after the steps so far.     *)
(* The executed operations run on machine 2, the circuit on machine 1.     *)
(***************************************************************************)
EXTENDS CircTrace
VARIABLES ops, done, off
lvars == <<ops, done, off>>
LKeep == UNCHANGED lvars
Range(s) == {s[j] : j \in DOMAIN s}
LCirc == /\ Is("circ") /\ Keep12
         /\ ops' = E.ops /\ done' = {} /\ off' = {}
\* operations none of whose unexecuted predecessors share a qubit with them
Shares(i, j) == Range(ops[i].q) \cap Range(ops[j].q) # {}
Front == {i \in DOMAIN ops \ done : \A j \in 1 .. (i - 1) : j \in done \/ ~Shares(i, j)}
LOffer == /\ Is("offer") /\ Keep12 /\ UNCHANGED <<ops, done>>
          /\ off' = Range(E.off)
          /\ Cardinality(off') = Len(E.off)
          /\ off' \subseteq DOMAIN ops \ done
          \* the execution can always be completed
          /\ (off' = {}) <=> (done = DOMAIN ops)
          /\ E.mode = "inorder" => off' = Front
          /\ E.mode = "commute" => Front \subseteq off'
LExec == /\ Is("exec") /\ Keep12 /\ UNCHANGED ops
         /\ E.i \in off /\ done' = done \cup {E.i} /\ off' = {}
\* executing what is not offered is refused
LRefuse == /\ Is("refuse") /\ Keep12 /\ LKeep /\ E.i \notin off
LKinds == /\ Is("kinds") /\ Keep12 /\ LKeep
          /\ Range(E.r) = {i \in off : ops[i].g = E.g /\ ops[i].nc = E.nc} /\ Cardinality(Range(E.r)) = Len(E.r)
\* interaction graph: edges are sequences <<a, b, i>>
LInter == /\ Is("inter") /\ Keep12 /\ LKeep
          /\ LET want == {i \in off : ops[i].g = E.g /\ ops[i].nc = 1}
             IN /\ {{x[1], x[2]} : x \in Range(E.edges)} = {Range(ops[i].q) : i \in want}
                /\ \A x \in Range(E.edges) : x[3] \in want /\ {x[1], x[2]} = Range(ops[x[3]].q)
LInit == TInit /\ ops = <<>> /\ done = {} /\ off = {}
LNext == (TNext /\ LKeep) \/ LCirc \/ LOffer \/ LExec \/ LRefuse \/ LKinds \/ LInter
LSpec == LInit /\ [][LNext]_<<vars, lvars>>
===============================================================================
