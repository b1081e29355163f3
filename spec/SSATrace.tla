------------------------------- MODULE SSATrace -------------------------------
(* Programs before and after the passes of the MLIR dialect (C28). *)
EXTENDS SSASem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p1, r1
vars == <<l, p1, r1>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
SInit == l = 1 /\ p1 = <<>> /\ r1 = {}
\* the program given to the pass: it must be well-formed
SProg == Is("prog") /\ E.s = 1 /\ p1' = E /\ r1' = Runs(E) /\ Good(r1')
\* the program that the pass made of it
SAfter == /\ Is("prog") /\ E.s = 2
          /\ LET R == Runs(E) IN Good(R) /\ SameRuns(p1, r1, R, E.tol)
          /\ UNCHANGED <<p1, r1>>
SStart == Is("start") /\ UNCHANGED <<p1, r1>>
SNote == Is("note") /\ UNCHANGED <<p1, r1>>
SFlag == Is("flag") /\ E.ok = TRUE /\ UNCHANGED <<p1, r1>>
\* what counts as a gate: numbers of targets and parameters, and which parameters are static
Targets(g) == CASE g = "gphase" -> 0
                [] g \in {"swap", "iswap", "iswapdg", "peres", "peresdg", "dcx", "ecr", "rxx", "ryy", "rzz", "rzx"} -> 2
                [] OTHER -> 1
Params(g) == CASE g = "u" -> 3
               [] g = "u2" -> 2
               [] g \in {"gphase", "p", "rx", "ry", "rz", "rxx", "ryy", "rzz", "rzx"} -> 1
               [] OTHER -> 0
IsGate(o) ==
  /\ IF o.g = "barrier" THEN o.c = 0 ELSE o.t = Targets(o.g)
  /\ o.np = Params(o.g)
  /\ o.outs = o.t + o.c
  /\ IF o.has THEN /\ Len(o.mask) = o.np
                   /\ Cardinality({j \in DOMAIN o.mask : o.mask[j] = 1}) = o.sta
     ELSE o.sta \in {0, o.np}
SVerdict == Is("verdict") /\ E.ok = IsGate(E) /\ UNCHANGED <<p1, r1>>
SNext == SVerdict \/ SStart \/ SNote \/ SFlag \/ SProg \/ SAfter
SSpec == SInit /\ [][SNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
===============================================================================
