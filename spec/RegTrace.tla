------------------------------ MODULE RegTrace ------------------------------
(***************************************************************************)
(* Edit histories of the real QuantumComputation against RegMachine.  Every *)
(* event carries the request, whether it was accepted, and a full dump of   *)
(* the circuit's bookkeeping afterwards.                                    *)
(***************************************************************************)
EXTENDS RegMachine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, regs
vars == <<l, m, regs>>
E == Trace[l]
S == E.st
Fn(s) == [k \in {s[j][1] : j \in DOMAIN s} |-> s[CHOOSE j \in DOMAIN s : s[j][1] = k][2]]
SetOf(s) == {s[j] : j \in DOMAIN s}
Range(r) == r[2] .. (r[2] + r[3] - 1)
Names(s) == {s[j][1] : j \in DOMAIN s}
Cover(s) == UNION {Range(s[j]) : j \in DOMAIN s}
Disjoint(s) == \A i, j \in DOMAIN s : i # j => Range(s[i]) \cap Range(s[j]) = {}
\* what the dump says, as a machine state
Seen == [lay |-> Fn(S.lay), out |-> Fn(S.out), anc |-> SetOf(S.anc), gar |-> SetOf(S.gar), ap |-> Cover(S.ar),
         nc |-> S.nc, ops |-> S.ops, ever |-> m.ever]
\* every query of the real circuit agrees with the state
Queries(x) ==
  /\ Len(S.lay) = Cardinality(DOMAIN x.lay)
  /\ S.nq = Cardinality(DOMAIN x.lay) /\ S.na = Cardinality(x.anc) /\ S.nw = NumW(x)
  /\ S.ng = Cardinality(x.gar) /\ S.nm = S.nq - S.ng /\ S.nops = Len(x.ops)
  /\ DOMAIN x.lay # {} => S.hp = MaxS(DOMAIN x.lay) /\ S.hl = MaxS(Img(x.lay))
  /\ S.depth = Depth(x)
  /\ SetOf(S.idle) = {p \in DOMAIN x.lay : Idle(x, p)}
  \* registers partition the qubits and bits
  /\ Cover(S.qr) \cup Cover(S.ar) = DOMAIN x.lay /\ Cover(S.ar) = x.ap
  /\ Disjoint(S.qr \o S.ar) /\ Cardinality(Names(S.qr \o S.ar)) = Len(S.qr \o S.ar)
  /\ Disjoint(S.cr) /\ Cover(S.cr) = 0 .. (x.nc - 1) /\ Cardinality(Names(S.cr)) = Len(S.cr)
  /\ \A j \in DOMAIN S.qr : S.qr[j][3] > 0
  \* lookups: <<logical, physical or -1, reported contained>>
  /\ \A j \in DOMAIN S.find : LET f == S.find[j] IN
        IF f[1] \in Img(x.lay) THEN f[2] = PhysOf(x, f[1]) /\ f[3] = f[2] ELSE f[2] = -1 /\ f[3] = -1
  \* a copy compares equal
  /\ S.copyeq = TRUE
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
To(x) == m' = TLCEval([x EXCEPT !.ever = @]) /\ regs' = <<S.qr, S.ar, S.cr>>
Same == m' = m /\ regs' = regs
\* an accepted request: the dump is the state x, and all queries agree
Acc(x) == /\ E.ok = TRUE /\ Seen = [x EXCEPT !.ever = m.ever] /\ Inv(x) /\ Queries(x) /\ To(x)
Rej == /\ E.ok = FALSE /\ Seen = m /\ Queries(m) /\ <<S.qr, S.ar, S.cr>> = regs /\ Same
If(valid, x) == IF valid THEN Acc(x) ELSE Rej
\* placement chosen by the code, read off the dump
NewP == DOMAIN Seen.lay \ DOMAIN m.lay
NewL == Restrict(Seen.lay, NewP)
NewO == Restrict(Seen.out, NewP)
AllNames == Names(regs[1]) \cup Names(regs[2])
SameC == S.cr = regs[3]
SameQ == S.qr = regs[1] /\ S.ar = regs[2]

Init == l = 1 /\ m = Empty /\ regs = <<<<>>, <<>>, <<>>>>
Start == Is("start") /\ m' = Empty /\ regs' = <<<<>>, <<>>, <<>>>>
AddQReg == /\ Is("addq")
           /\ IF E.n > 0 /\ E.name \notin AllNames /\ m.anc = {}
              THEN /\ Cardinality(NewP) = E.n /\ NewQubitsOK(m, NewP, NewL, NewO) /\ DOMAIN NewO = NewP
                   /\ E.name \in Names(S.qr) /\ (\E j \in DOMAIN S.qr : S.qr[j][1] = E.name /\ Range(S.qr[j]) = NewP)
                   /\ E.ret = <<E.name, MaxS(NewP) - E.n + 1, E.n>>
                   /\ Acc(NewQubits(m, NewP, NewL, NewO, FALSE, {})) /\ SameC
              ELSE Rej
AddAReg == /\ Is("adda")
           /\ IF E.n > 0 /\ E.name \notin AllNames
              THEN /\ Cardinality(NewP) = E.n /\ NewQubitsOK(m, NewP, NewL, NewO) /\ DOMAIN NewO = NewP
                   /\ (\E j \in DOMAIN S.ar : S.ar[j][1] = E.name /\ Range(S.ar[j]) = NewP)
                   /\ E.ret = <<E.name, MaxS(NewP) - E.n + 1, E.n>>
                   /\ Acc(NewQubits(m, NewP, NewL, NewO, TRUE, {})) /\ SameC
              ELSE Rej
AddCReg == /\ Is("addc")
           /\ IF E.n > 0 /\ E.name \notin Names(regs[3])
              THEN Acc([m EXCEPT !.nc = @ + E.n]) /\ SameQ
                   /\ (\E j \in DOMAIN S.cr : S.cr[j] = <<E.name, m.nc, E.n>>) /\ Len(S.cr) = Len(regs[3]) + 1
              ELSE Rej
Remove == /\ Is("rem")
          /\ IF E.l \in Img(m.lay)
             THEN /\ E.p = PhysOf(m, E.l) /\ E.o = (IF E.p \in DOMAIN m.out THEN m.out[E.p] ELSE -1)
                  /\ Acc(RemoveQubit(m, E.l)) /\ SameC
             ELSE Rej
AddQubit == /\ Is("add")
            /\ LET no == IF E.o < 0 THEN <<>> ELSE [x \in {E.p} |-> E.o]
                   nl == [x \in {E.p} |-> E.l]
                   valid == NewQubitsOK(m, {E.p}, nl, no)
                   mustAccept == E.l <= NumW(m) \/ E.l \in m.ever
               IN IF valid /\ (mustAccept \/ E.ok) THEN Acc(NewQubits(m, {E.p}, nl, no, FALSE, {})) /\ SameC ELSE Rej
AddAnc == /\ Is("addanc")
          /\ LET no == IF E.o < 0 THEN <<>> ELSE [x \in {E.p} |-> E.o]
             IN IF E.p \notin DOMAIN m.lay
                THEN /\ NewP = {E.p} /\ NewQubitsOK(m, NewP, NewL, no)
                     /\ Acc(NewQubits(m, NewP, NewL, no, TRUE, IF E.o < 0 THEN Img(NewL) ELSE {})) /\ SameC
                ELSE Rej
Mark == /\ Is("mark")
        /\ LET ls == E.a .. E.b
           IN IF ls \subseteq Img(m.lay)
              THEN Acc(IF E.anc THEN SetAnc(m, ls) ELSE SetGar(m, ls)) /\ SameC /\ SameQ
              ELSE Cardinality(ls) = 1 /\ Rej
StripE == Is("strip") /\ Acc(Strip(m, E.force)) /\ SameC
UnifyE == Is("unify") /\ Acc(Unify(m)) /\ SameC /\ Len(S.qr) = 1 /\ S.qr[1][1] = E.name /\ S.ar = <<>>
OpE == Is("op") /\ If(OpOK(m, E.o), Push(m, E.o)) /\ SameC /\ SameQ
DropE == Is("drop") /\ Acc(Drop(m, E.i)) /\ SameC /\ SameQ
Barrier == /\ Is("barrier") /\ E.ok = TRUE /\ SameC /\ SameQ
           /\ LET o == S.ops[Len(S.ops)] IN o.k = "b" /\ OpQ(o) = DOMAIN m.lay /\ Len(o.q) = Cardinality(OpQ(o)) /\ Acc(Push(m, o))
\* a barrier followed by measurements of exactly the pairs in f (any order)
MTail(f, x) ==
  LET k == Cardinality(DOMAIN f)  n == Len(S.ops)
      ms == {<<S.ops[j].q[1], S.ops[j].b[1]>> : j \in (n - k + 1)..n}
  IN /\ n = Len(m.ops) + k + 1
     /\ S.ops[n - k].k = "b" /\ OpQ(S.ops[n - k]) = DOMAIN m.lay
     /\ \A j \in (n - k + 1)..n : S.ops[j].k = "m" /\ Len(S.ops[j].q) = 1 /\ Len(S.ops[j].b) = 1
     /\ ms = {<<p, f[p]>> : p \in DOMAIN f}
     /\ SubSeq(S.ops, 1, Len(m.ops)) = m.ops
     /\ Acc([x EXCEPT !.ops = S.ops])
Index(p) == Cardinality({x \in DOMAIN m.lay : x < p})
MeasureAll == /\ Is("mall")
              /\ LET n == Cardinality(DOMAIN m.lay)
                 IN IF E.add
                    THEN IF "meas" \notin Names(regs[3]) /\ n > 0
                         THEN MTail([p \in DOMAIN m.lay |-> m.nc + Index(p)], [m EXCEPT !.nc = @ + n]) /\ SameQ
                         ELSE Rej
                    ELSE IF n > 0 => m.nc > MaxS(DOMAIN m.lay) THEN MTail([p \in DOMAIN m.lay |-> p], m) /\ SameC /\ SameQ ELSE Rej
SetLayout == Is("layout") /\ Acc([m EXCEPT !.lay = Fn(E.lay), !.out = Fn(E.out)]) /\ SameC /\ SameQ
Derive == Is("derive") /\ Acc(IOMap(m)) /\ SameC /\ SameQ
\* measurements according to the output permutation; missing classical bits are added in a new register
AppendM == /\ Is("append") /\ SameQ
           /\ LET need == IF m.out = <<>> THEN 0 ELSE MaxS(Img(m.out)) + 1
                  grow == need > m.nc \/ (m.out = <<>> /\ m.nc = 0)
              IN IF grow /\ (E.name \in Names(regs[3]) \/ need = 0) THEN Rej
                 ELSE /\ IF grow THEN Len(S.cr) = Len(regs[3]) + 1 ELSE SameC
                      /\ MTail(m.out, [m EXCEPT !.nc = IF grow THEN need ELSE @])
ResetE == Is("reset") /\ Acc(Empty) /\ S.qr = <<>> /\ S.ar = <<>> /\ S.cr = <<>>
\* the Boolean question whether the circuit is dynamic, and similar ones
Flag == Is("flag") /\ E.ok = TRUE /\ UNCHANGED <<m, regs>>
Note == Is("note") /\ UNCHANGED <<m, regs>>
Next == Start \/ AddQReg \/ AddAReg \/ AddCReg \/ Remove \/ AddQubit \/ AddAnc \/ Mark \/ StripE \/ UnifyE \/ OpE \/ DropE
        \/ Barrier \/ MeasureAll \/ SetLayout \/ Derive \/ AppendM \/ ResetE \/ Flag \/ Note
TSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
=============================================================================
