-------------------------------- MODULE PySeq --------------------------------
(***************************************************************************)
(* The containers of the Python interface.  State: four lists of           *)
(* operations (circuits and compound operations; an operation is a pair of *)
(* its identity and the qubit it acts on), a mapping (a permutation), the  *)
(* registers at hand and the attributes of a circuit.  The actions are     *)
(* those of Python's mutable sequences and mappings; an action that Python *)
(* rejects leaves the state unchanged.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ls, pm, at
vars == <<l, ls, pm, at>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Range(s) == {s[i] : i \in DOMAIN s}
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Slots == 1 .. 4
\* ---- positions (counted from 0; negative ones from the end) and slices ----
Pos(i, n) == IF i < 0 THEN i + n ELSE i
Valid(i, n) == Pos(i, n) \in 0 .. (n - 1)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
None == 99
Step(c) == IF c = None THEN 1 ELSE c
Low(a, c, n) == IF Step(c) > 0 THEN (IF a = None THEN 0 ELSE Clamp(Pos(a, n), 0, n))
                ELSE (IF a = None THEN n - 1 ELSE Clamp(Pos(a, n), -1, n - 1))
High(b, c, n) == IF Step(c) > 0 THEN (IF b = None THEN n ELSE Clamp(Pos(b, n), 0, n))
                 ELSE (IF b = None THEN -1 ELSE Clamp(Pos(b, n), -1, n - 1))
RECURSIVE Walk(_, _, _)
Walk(i, stop, st) == IF (st > 0 /\ i >= stop) \/ (st < 0 /\ i <= stop) THEN <<>> ELSE <<i>> \o Walk(i + st, stop, st)
Slice(x, n) == Walk(Low(x[1], x[3], n), High(x[2], x[3], n), Step(x[3]))
At(s, i) == s[Pos(i, Len(s)) + 1]
Pick(s, ix) == [j \in DOMAIN ix |-> s[ix[j] + 1]]
Without(s, S) == LET keep == SelectSeq([j \in DOMAIN s |-> j], LAMBDA j : (j - 1) \notin S) IN [j \in DOMAIN keep |-> s[keep[j]]]
Insert(s, i, x) == LET k == Clamp(Pos(i, Len(s)), 0, Len(s)) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
IndexIn(ix, j) == CHOOSE i \in DOMAIN ix : ix[i] = j
L == ls[E.k]
Put(s) == ls' = [ls EXCEPT ![E.k] = s] /\ UNCHANGED <<pm, at>>
Keep == UNCHANGED <<ls, pm, at>>
Attr0 == [n |-> 0, nc |-> 0, anc |-> {}, gar |-> {}, ph |-> 0, q |-> <<>>, c |-> <<>>, a |-> <<>>]
Init == l = 1 /\ ls = [s \in Slots |-> <<>>] /\ pm = <<>> /\ at = Attr0
Start == Is("start") /\ ls' = [s \in Slots |-> <<>>] /\ pm' = <<>> /\ at' = Attr0
\* ---- mutable sequences ----
New == Is("new") /\ Put(E.ids)
Get == Is("get") /\ Keep /\ E.err = ~Valid(E.i, Len(L)) /\ (E.err \/ E.r = At(L, E.i))
GetS == Is("gets") /\ Keep /\ E.r = Pick(L, Slice(E.x, Len(L)))
SetI == Is("set") /\ E.err = ~Valid(E.i, Len(L))
        /\ Put(IF E.err THEN L ELSE [L EXCEPT ![Pos(E.i, Len(L)) + 1] = E.id])
SetS == /\ Is("sets")
        /\ LET ix == Slice(E.x, Len(L))
           IN /\ E.err = (Len(ix) # Len(E.ids))
              /\ Put(IF E.err THEN L ELSE [j \in DOMAIN L |-> IF (j - 1) \in Range(ix) THEN E.ids[IndexIn(ix, j - 1)] ELSE L[j]])
DelI == Is("del") /\ E.err = ~Valid(E.i, Len(L))
        /\ Put(IF E.err THEN L ELSE Without(L, {Pos(E.i, Len(L))}))
DelS == Is("dels") /\ Put(Without(L, Range(Slice(E.x, Len(L)))))
Ins == Is("ins") /\ Put(Insert(L, E.i, E.id))
App == Is("app") /\ Put(Append(L, E.id))
Reverse == Is("rev") /\ Put(Rev(L))
Clear == Is("clear") /\ Put(<<>>)
\* the operation at a position is edited in place: what the list holds changes, nothing else does
Edit == Is("edit") /\ Put([L EXCEPT ![Pos(E.i, Len(L)) + 1] = <<@[1], E.t>>])
Copy == Is("copy") /\ ls' = [ls EXCEPT ![E.k] = ls[E.j]] /\ UNCHANGED <<pm, at>>
Obs == Is("obs") /\ Keep /\ E.r = L /\ E.len = Len(L) /\ E.iter = L /\ E.empty = (L = <<>>)
\* ---- mappings ----
PNew == Is("pnew") /\ UNCHANGED <<ls, at>> /\ pm' = [x \in {E.items[i][1] : i \in DOMAIN E.items} |->
                         E.items[CHOOSE i \in DOMAIN E.items : E.items[i][1] = x][2]]
PGet == Is("pget") /\ Keep /\ E.err = (E.i \notin DOMAIN pm) /\ (E.err \/ E.r = pm[E.i])
PSet == Is("pset") /\ UNCHANGED <<ls, at>> /\ pm' = [x \in DOMAIN pm \cup {E.i} |-> IF x = E.i THEN E.v ELSE pm[x]]
PDel == Is("pdel") /\ UNCHANGED <<ls, at>> /\ E.err = (E.i \notin DOMAIN pm) /\ pm' = [x \in DOMAIN pm \ {E.i} |-> pm[x]]
PClear == Is("pclear") /\ UNCHANGED <<ls, at>> /\ pm' = <<>>
PObs == /\ Is("pobs") /\ Keep
        /\ E.len = Cardinality(DOMAIN pm) /\ Len(E.keys) = E.len /\ Range(E.keys) = DOMAIN pm
        /\ Len(E.items) = E.len /\ Range(E.items) = {<<x, pm[x]>> : x \in DOMAIN pm}
        /\ E.has = [i \in 1 .. 8 |-> (i - 1) \in DOMAIN pm]
\* application to targets (in order) and to controls (a set of qubit and polarity); the empty permutation is the identity
Img(x) == IF DOMAIN pm = {} THEN x ELSE pm[x]
PApp == Is("papp") /\ Keep /\ E.r = [i \in DOMAIN E.q |-> Img(E.q[i])]
PAppC == Is("pappc") /\ Keep /\ Range(E.r) = {<<Img(E.q[i][1]), E.q[i][2]>> : i \in DOMAIN E.q} /\ Len(E.r) = Len(E.q)
PEq == /\ Is("peq") /\ Keep
       /\ LET o == [x \in {E.items[i][1] : i \in DOMAIN E.items} |-> E.items[CHOOSE i \in DOMAIN E.items : E.items[i][1] = x][2]]
          IN E.eq = (o = pm) /\ E.ne = (o # pm) /\ (o = pm => E.h)
\* ---- registers: E.g = <<start, size>> ----
Reg == /\ Is("reg") /\ Keep
       /\ E.end = E.g[1] + E.g[2] - 1
       /\ \A j \in DOMAIN E.at : E.at[j] = IF j - 1 < E.g[2] THEN E.g[1] + j - 1 ELSE -1
       /\ \A j \in DOMAIN E.in : E.in[j] = ((j - 1) \in E.g[1] .. (E.g[1] + E.g[2] - 1))
\* ---- attributes of circuits; angles in units of pi/16 ----
Norm(x) == x % 32
Regs(s) == {<<s[i][1], s[i][2], s[i][3]>> : i \in DOMAIN s}
ANew == Is("anew") /\ UNCHANGED <<ls, pm>>
        /\ at' = [Attr0 EXCEPT !.n = E.n, !.nc = E.nc, !.q = IF E.n > 0 THEN <<<<"q", 0, E.n>>>> ELSE <<>>,
                                !.c = IF E.nc > 0 THEN <<<<"c", 0, E.nc>>>> ELSE <<>>]
ASet(r) == at' = r /\ UNCHANGED <<ls, pm>>
APhase == Is("aphase") /\ ASet([at EXCEPT !.ph = Norm(IF E.set THEN E.v ELSE at.ph + E.v)])
\* a register is returned with what it consists of; names are unique
NamesOf(s) == {s[i][1] : i \in DOMAIN s}
AReg == /\ Is("areg")
        /\ E.err = CASE E.kind = "c" -> E.name \in NamesOf(at.c)
                     [] E.kind = "q" -> at.anc # {} \/ E.name \in NamesOf(at.q) \cup NamesOf(at.a)
                     [] E.kind = "a" -> E.name \in NamesOf(at.q) \cup NamesOf(at.a)
        /\ IF E.err THEN Keep
           ELSE LET first == IF E.kind = "c" THEN at.nc ELSE at.n  g == <<E.name, first, E.size>>
                IN /\ E.r = g
                   /\ ASet(CASE E.kind = "c" -> [at EXCEPT !.nc = @ + E.size, !.c = Append(@, g)]
                             [] E.kind = "q" -> [at EXCEPT !.n = @ + E.size, !.q = Append(@, g)]
                             [] E.kind = "a" -> [at EXCEPT !.n = @ + E.size, !.a = Append(@, g), !.anc = @ \cup (first .. (first + E.size - 1))])
AAnc == Is("aanc") /\ ASet([at EXCEPT !.anc = @ \cup (E.lo .. E.hi)])
AGar == Is("agar") /\ ASet([at EXCEPT !.gar = @ \cup (E.lo .. E.hi)])
Flags(S) == [i \in 1 .. at.n |-> (i - 1) \in S]
AObs == /\ Is("aobs") /\ Keep
        /\ E.n = at.n /\ E.nc = at.nc /\ E.ph = at.ph
        /\ E.na = Cardinality(at.anc) /\ E.ng = Cardinality(at.gar)
        /\ E.nd = at.n - E.na /\ E.nm = at.n - E.ng
        /\ E.anc = Flags(at.anc) /\ E.ancq = Flags(at.anc) /\ E.gar = Flags(at.gar) /\ E.garq = Flags(at.gar)
        /\ Regs(E.qr) = Regs(at.q) /\ Regs(E.cr) = Regs(at.c) /\ Regs(E.ar) = Regs(at.a)
        /\ Len(E.qr) = Len(at.q) /\ Len(E.cr) = Len(at.c) /\ Len(E.ar) = Len(at.a)
Flag == Is("flag") /\ E.ok = TRUE /\ Keep
Note == Is("note") /\ Keep
Next == \/ Start \/ New \/ Get \/ GetS \/ SetI \/ SetS \/ DelI \/ DelS \/ Ins \/ App \/ Reverse \/ Clear \/ Edit \/ Copy \/ Obs
        \/ PNew \/ PGet \/ PSet \/ PDel \/ PClear \/ PObs \/ PApp \/ PAppC \/ PEq \/ Reg
        \/ ANew \/ APhase \/ AReg \/ AAnc \/ AGar \/ AObs \/ Flag \/ Note
TSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Diam == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TraceAccepted
=============================================================================
