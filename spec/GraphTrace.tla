------------------------------ MODULE GraphTrace ------------------------------
(***************************************************************************)
(* The containers as mathematical objects: state of a directed (kind "d"), *)
(* acyclic ("a") or undirected graph ("u"), of a partition ("p") and of a  *)
(* symmetric matrix ("s"); every line is one operation with its result.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kind, vs, es, lab
vars == <<l, kind, vs, es, lab>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Same == UNCHANGED <<kind, vs, es, lab>>
Range(s) == {s[j] : j \in DOMAIN s}
\* es: set of pairs <<u, v>>; undirected: both orientations; lab: function on es
Init == l = 1 /\ kind = "" /\ vs = {} /\ es = {} /\ lab = <<>>
New == Is("new") /\ kind' = E.kind /\ vs' = Range(E.vs) /\ es' = {} /\ lab' = [x \in {} |-> 0]
RECURSIVE ReachFrom(_, _)
ReachFrom(S, edges) == LET T == S \cup {y[2] : y \in {z \in edges : z[1] \in S}} IN IF T = S THEN S ELSE ReachFrom(T, edges)
Reach(u, v) == v \in ReachFrom({u}, es)
AddV == /\ Is("addv")
        /\ E.ok = (E.v \notin vs)
        /\ vs' = vs \cup {E.v} /\ UNCHANGED <<kind, es, lab>>
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
\* a rejected edge may still have added its end points
AddE == /\ Is("adde")
        /\ E.ok = (CASE kind = "d" -> TRUE
                     [] kind = "a" -> ~Reach(E.v, E.u) /\ E.u # E.v
                     [] kind = "u" -> <<E.u, E.v>> \notin es)
        /\ vs' = vs \cup {E.u, E.v}
        /\ IF ~E.ok THEN UNCHANGED <<es, lab>>
           ELSE /\ es' = es \cup (IF kind = "u" THEN {<<E.u, E.v>>, <<E.v, E.u>>} ELSE {<<E.u, E.v>>})
                /\ lab' = IF kind = "u" THEN Put(Put(lab, <<E.u, E.v>>, E.x), <<E.v, E.u>>, E.x) ELSE lab
        /\ UNCHANGED kind
Count == Is("count") /\ Same /\ E.nv = Cardinality(vs) /\ Range(E.vs) = vs /\ Len(E.vs) = Cardinality(vs)
         /\ E.ne = (IF kind = "u" THEN Cardinality({{x[1], x[2]} : x \in es}) ELSE Cardinality(es))
\* queries about vertices that do not exist are rejected (r = -1)
B(x) == IF x THEN 1 ELSE 0
QEdge == Is("edge") /\ Same /\ E.r = (IF E.u \in vs /\ E.v \in vs THEN B(<<E.u, E.v>> \in es) ELSE -1)
QDeg == Is("deg") /\ Same
        /\ E.in = (IF E.v \in vs THEN Cardinality({x \in es : x[2] = E.v}) ELSE -1)
        /\ E.out = (IF E.v \in vs THEN Cardinality({x \in es : x[1] = E.v}) ELSE -1)
QReach == Is("reach") /\ Same /\ E.r = (IF E.u \in vs /\ E.v \in vs THEN B(Reach(E.u, E.v)) ELSE -1)
QTopo == Is("topo") /\ Same /\ Len(E.r) = Cardinality(vs) /\ Range(E.r) = vs
         /\ \A i \in DOMAIN E.r : \A j \in DOMAIN E.r : <<E.r[i], E.r[j]>> \in es => i < j
QLabel == Is("label") /\ Same /\ E.r = (IF <<E.u, E.v>> \in es THEN lab[<<E.u, E.v>>] ELSE -1)
QNeigh == Is("neigh") /\ Same
          /\ IF E.v \notin vs THEN ~E.ok
             ELSE /\ E.ok /\ Range(E.r) = {x[2] : x \in {y \in es : y[1] = E.v}} /\ Cardinality(Range(E.r)) = Len(E.r)
                  /\ Range(E.ae) = {y \in es : y[1] = E.v} /\ Cardinality(Range(E.ae)) = Len(E.ae)
\* the DOT description lists exactly the vertices and edges (undirected edges once, in either orientation)
QDot == Is("dot") /\ Same /\ Range(E.vs) = vs /\ Len(E.vs) = Cardinality(vs)
        /\ IF kind = "u" THEN /\ {{x[1], x[2]} : x \in Range(E.es)} = {{x[1], x[2]} : x \in es}
                              /\ Len(E.es) = Cardinality({{x[1], x[2]} : x \in es})
           ELSE Range(E.es) = es /\ Len(E.es) = Cardinality(es)
QAdjE == Is("adje") /\ Same /\ (E.r = 1) = (Range(E.x) \cap Range(E.y) # {})
\* disjoint sets: es holds the unions made so far (both orientations)
Union == Is("union") /\ es' = es \cup {<<E.u, E.v>>, <<E.v, E.u>>} /\ UNCHANGED <<kind, vs, lab>>
\* representatives of all elements, in the order of E.vs: equal iff in the same set, and a member of it
Find == Is("find") /\ Same /\ Range(E.vs) = vs
        /\ \A i \in DOMAIN E.vs : /\ Reach(E.vs[i], E.r[i])
                                  /\ \A j \in DOMAIN E.vs : (E.r[i] = E.r[j]) = Reach(E.vs[i], E.vs[j])
\* symmetric matrices: lab maps unordered pairs to values
SNew == Is("snew") /\ lab' = [x \in {{i, j} : i \in 0 .. (E.n - 1), j \in 0 .. (E.n - 1)} |-> E.x] /\ vs' = 0 .. (E.n - 1)
        /\ kind' = "s" /\ es' = {}
SSet == Is("sset") /\ lab' = [lab EXCEPT ![{E.u, E.v}] = E.x] /\ UNCHANGED <<kind, vs, es>>
SGet == Is("sget") /\ Same /\ E.n = Cardinality(vs) /\ E.r = lab[{E.u, E.v}]
Note == (Is("note") \/ Is("start")) /\ Same
Flag == Is("flag") /\ Same /\ E.ok = TRUE
Next == New \/ AddV \/ AddE \/ Count \/ QEdge \/ QDeg \/ QReach \/ QTopo \/ QLabel \/ QNeigh \/ QDot \/ QAdjE \/ Union \/ Find
        \/ SNew \/ SSet \/ SGet \/ Note \/ Flag
GSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
===============================================================================
