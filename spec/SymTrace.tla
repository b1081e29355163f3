------------------------------ MODULE SymTrace ------------------------------
(* Histories of the real expression classes against SymExpr *)
EXTENDS SymExpr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bank
vars == <<l, bank>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Init == l = 1 /\ bank = [s \in Slots |-> ZeroE]
Start == Is("start") /\ bank' = [s \in Slots |-> ZeroE]
New == Is("new") /\ bank' = [bank EXCEPT ![E.k] = AddE(SumTerms(E.ts, Len(E.ts)), ConstE(E.c))]
Op == Is("op") /\ bank' = [bank EXCEPT ![E.k] = TLCEval(Result(E.op, bank[E.i], bank[E.j], E.v, E.a))]
Obs == /\ Is("obs") /\ UNCHANGED bank
       /\ NormalForm(E.ts, bank[E.k]) /\ E.c = bank[E.k].c
       /\ E.zero = (bank[E.k] = ZeroE) /\ E.const = (Used(bank[E.k]) = {})
       /\ {E.vars[j] : j \in DOMAIN E.vars} = Used(bank[E.k])
Eq == Is("eq") /\ UNCHANGED bank /\ E.r = (bank[E.i] = bank[E.j]) /\ (E.r => E.h)
\* as: values in units of 1/4 for the variables in dom
Eval == /\ Is("eval") /\ UNCHANGED bank
        /\ LET missing == Used(bank[E.i]) \ {E.dom[j] : j \in DOMAIN E.dom}
           IN IF missing # {} THEN E.err = TRUE ELSE E.err = FALSE /\ E.r = Dot(bank[E.i], E.as, 3)
Flag == Is("flag") /\ E.ok = TRUE /\ UNCHANGED bank
Note == Is("note") /\ UNCHANGED bank
Next == Start \/ New \/ Op \/ Obs \/ Eq \/ Eval \/ Flag \/ Note
TSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
=============================================================================
