-------------------------------- MODULE NATrace --------------------------------
(***************************************************************************)
(* Recorded neutral-atom programs: "atoms" starts a program, "na" appends  *)
(* one operation and reports what validate() says of the program so far;   *)
(* "at", "text" and "loc" are observations of positions, of the printed    *)
(* program and of comparisons and distances of locations.                  *)
(***************************************************************************)
EXTENDS NAMachine, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, loc, held, hist, prog, ini, bad
vars == <<l, loc, held, hist, prog, ini, bad>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Same == UNCHANGED <<loc, held, hist, prog, ini, bad>>
Init == l = 1 /\ loc = <<>> /\ held = {} /\ hist = <<>> /\ prog = <<>> /\ ini = <<>> /\ bad = 0
\* atoms are numbered from 1; hist[i] = positions after operation i; bad = number of the first operation that is impossible
Atoms == Is("atoms") /\ loc' = E.loc /\ ini' = E.loc /\ held' = {} /\ hist' = <<>> /\ prog' = <<>> /\ bad' = 0
NA == /\ Is("na")
      /\ prog' = Append(prog, E.op)
      /\ LET ok == Enabled(loc, held, E.op)  nb == IF bad > 0 THEN bad ELSE IF ok THEN 0 ELSE Len(prog) + 1 IN
         /\ bad' = nb
         /\ IF nb = 0 THEN loc' = Moved(loc, E.op) /\ held' = Held(held, E.op) /\ hist' = Append(hist, loc')
            ELSE UNCHANGED <<loc, held, hist>>
         /\ E.valid = (nb = 0)
         \* operations are counted from 2 (the first one initializes the atoms)
         /\ nb > 0 => E.at = nb + 1
      /\ UNCHANGED ini
At == Is("at") /\ Same /\ E.i <= Len(hist) /\ E.r = hist[E.i][E.a]
\* ---- printed form ----
Num(x) == (IF x < 0 THEN "-" ELSE "") \o ToString(IF x < 0 THEN -x ELSE x)
LocStr(p) == "(" \o Num(p[1]) \o ".000, " \o Num(p[2]) \o ".000)"
RECURSIVE Params(_)
Params(p) == IF p = <<>> THEN "" ELSE Num(p[1]) \o ".00000 " \o Params(Tail(p))
\* sequences of text items
Item(op, i) == CASE Shuttle(op) -> (IF op.t = <<>> THEN "" ELSE LocStr(op.t[i]) \o " ") \o E.names[op.a[i]]
                 [] op.k = "local" -> Params(op.p) \o E.names[op.a[i]]
                 [] OTHER -> Params(op.p) \o E.znames[op.a[i]]
OpName(op) == IF Shuttle(op) THEN op.k ELSE op.g
RECURSIVE Items(_, _)
Items(op, i) == IF i > Len(op.a) THEN "" ELSE "    " \o Item(op, i) \o "\n" \o Items(op, i + 1)
OpStr(op) == "@+ " \o OpName(op) \o " " \o (IF Len(op.a) = 1 THEN Item(op, 1) ELSE "[\n" \o Items(op, 1) \o "]")
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
RECURSIVE AtomLines(_)
AtomLines(S) == IF S = {} THEN "" ELSE
   LET a == CHOOSE x \in S : \A y \in S \ {x} : Less(ini[x], ini[y])
   IN "atom " \o LocStr(ini[a]) \o " " \o E.names[a] \o "\n" \o AtomLines(S \ {a})
RECURSIVE OpLines(_)
OpLines(i) == IF i > Len(prog) THEN "" ELSE OpStr(prog[i]) \o "\n" \o OpLines(i + 1)
Text == Is("text") /\ Same /\ E.s = AtomLines(DOMAIN ini) \o OpLines(1)
\* ---- locations ----
B(x) == IF x THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
LocEv == /\ Is("loc") /\ Same
         /\ LET p == E.p  q == E.q  d == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) IN
            /\ E.cmp = <<B(Less(p, q)), B(Less(q, p)), B(~Less(q, p)), B(~Less(p, q)), B(p = q), B(p # q)>>
            /\ E.add = <<p[1] + q[1], p[2] + q[2]>> /\ E.sub = <<p[1] - q[1], p[2] - q[2]>>
            /\ E.d2 = d /\ E.e2 = d /\ E.len2 = p[1] * p[1] + p[2] * p[2]
            /\ E.mx = Abs(p[1] - q[1]) /\ E.my = Abs(p[2] - q[2])
            /\ E.str = LocStr(p)
            /\ p = q => E.hash
\* a zone contains a location iff it lies within its extent; asking a zone without extent is an error (r = -1)
Zone == Is("zone") /\ Same /\ E.r = (IF E.x = <<>> THEN -1 ELSE B(E.x[1] <= E.p[1] /\ E.p[1] <= E.x[3] /\ E.x[2] <= E.p[2] /\ E.p[2] <= E.x[4]))
Note == (Is("note") \/ Is("start")) /\ Same
Flag == Is("flag") /\ Same /\ E.ok = TRUE
Next == Atoms \/ NA \/ At \/ Text \/ LocEv \/ Zone \/ Note \/ Flag
NSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
================================================================================
