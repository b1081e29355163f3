----------------------------- MODULE QasmTrace -----------------------------
(***************************************************************************)
(* Programs: every "st" line is one statement of an OpenQASM program; side  *)
(* 1 executes what the statement means.  The "op", "m", "r" lines of side 2 *)
(* are what the importer made of the program, "regs" the registers it       *)
(* declared; a "cmp" line compares the two machines.                        *)
(***************************************************************************)
EXTENDS CircTrace
P == INSTANCE QasmSem
VARIABLE q
RECURSIVE Run(_, _, _)
Run(m, steps, j) ==
  IF j > Len(steps) THEN m
  ELSE LET s == steps[j] IN
       Run(TLCEval(CASE s.k = "op" -> DoOp(m, [g |-> s.g, t |-> s.t, c |-> s.c, p |-> s.p], s.if)
             [] s.k = "m" -> DoMeasure(m, s.t[1], s.b, s.if)
             [] s.k = "r" -> DoReset(m, s.t[1], s.if)), steps, j + 1)
QBegin == Is("qbegin") /\ q' = [P!Empty EXCEPT !.v = E.v] /\ Keep12
QStmt == /\ Is("st")
         /\ P!Ok(q, E.st) = TRUE
         /\ q' = TLCEval(P!Declare(q, E.st))
         /\ m1' = Run(m1, P!StmtSteps(q, E.st, <<>>), 1) /\ UNCHANGED m2
\* C18: programs that may be ill-formed are accepted if and only if all of their statements are fine
QCheck == Is("wf") /\ Keep12 /\ q' = TLCEval(P!Check(q, E.st))
QVerdict == Is("verdict") /\ Keep12 /\ UNCHANGED q /\ (E.accepted = q.ok)
RegsAre(f, s) == /\ DOMAIN f = {s[j][1] : j \in DOMAIN s} /\ Cardinality(DOMAIN f) = Len(s)
                 /\ \A j \in DOMAIN s : f[s[j][1]] = <<s[j][2], s[j][3]>>
QRegs == /\ Is("regs") /\ Keep12 /\ UNCHANGED q
         /\ E.nq = q.nq /\ E.nb = q.nb /\ RegsAre(q.qr, E.qr) /\ RegsAre(q.cr, E.cr)
QInit == TInit /\ q = P!Empty
QNext == (TNext /\ UNCHANGED q) \/ QBegin \/ QStmt \/ QRegs \/ QCheck \/ QVerdict
QSpec == QInit /\ [][QNext]_<<vars, q>>
=============================================================================
