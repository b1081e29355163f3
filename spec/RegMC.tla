-------------------------------- MODULE RegMC --------------------------------
(* Exhaustive exploration of small edit histories: the bookkeeping invariant  *)
(* is inductive, removing and adding back restores, deriving twice is         *)
(* deriving once, stripping keeps the operations' qubits.                     *)
EXTENDS RegMachine
CONSTANTS MaxP, MaxOps
VARIABLES m, h
P == 0 .. MaxP
Fresh(S) == CHOOSE x \in 0 .. (MaxP + 3) : x \notin S /\ \A y \in 0 .. (x - 1) : y \in S
Init == m = Empty /\ h = Empty
Opt(S) == {<<>>} \cup {[x \in {y[1]} |-> y[2]] : y \in S}
AddQ == \E p \in P \ DOMAIN m.lay, anc \in BOOLEAN :
          LET lq == Fresh(Img(m.lay))
          IN \E no \in Opt({<<p, o>> : o \in {x \in 0 .. MaxP : x \notin Img(m.out)}}) :
               /\ NewQubitsOK(m, {p}, [x \in {p} |-> lq], no)
               /\ m' = NewQubits(m, {p}, [x \in {p} |-> lq], no, anc, IF anc /\ no = <<>> THEN {lq} ELSE {})
Rem == \E lq \in Img(m.lay) : /\ ~(\E j \in DOMAIN m.ops : PhysOf(m, lq) \in OpQ(m.ops[j]))
                              /\ m' = RemoveQubit(m, lq)
Anc == \E lq \in Img(m.lay) : m' = SetAnc(m, {lq})
Gar == \E lq \in Img(m.lay) : m' = SetGar(m, {lq})
Str == \E f \in BOOLEAN : m' = Strip(m, f)
Op == Len(m.ops) < MaxOps /\ \E p \in DOMAIN m.lay, k \in {"u", "m"}, b \in 0..1 :
        /\ k = "m" => b \notin UNION {OpB(m.ops[j]) : j \in DOMAIN m.ops}
        /\ m' = Push(m, [k |-> k, q |-> <<p>>, b |-> IF k = "m" THEN <<b>> ELSE <<>>])
IO == m' = IOMap(m)
Next == (AddQ \/ Rem \/ Anc \/ Gar \/ Str \/ Op \/ IO) /\ h' = m
Spec == Init /\ [][Next]_<<m, h>>
View == m
Consistent == Inv(m)
\* removing a qubit and adding it back with what the removal reported restores the layout
Restores == \A lq \in Img(m.lay) :
  LET p == PhysOf(m, lq)  r == RemoveQubit(m, lq)  nl == [x \in {p} |-> lq]  no == Restrict(m.out, {p})
  IN NewQubitsOK(r, {p}, nl, no)
     /\ LET b == NewQubits(r, {p}, nl, no, FALSE, {}) IN b.lay = m.lay /\ b.out = m.out
Idempotent == LET a == IOMap(m) IN IOMap(a) = a
\* appending the measurements the output permutation asks for and deriving again keeps it
RECURSIVE Measures(_)
Measures(f) == IF f = <<>> THEN <<>> ELSE LET p == MaxS(DOMAIN f) IN Append(Measures(Without(f, {p})), [k |-> "m", q |-> <<p>>, b |-> <<f[p]>>])
Unmeasured == \A j \in DOMAIN m.ops : m.ops[j].k # "m"
AppendDerive == Unmeasured /\ m.out # <<>> =>
   LET a == IOMap([m EXCEPT !.ops = @ \o Measures(m.out)])
       idleAnc == {lq \in m.anc : Idle(m, PhysOf(m, lq))}
   IN m.out = a.out \/ Img(m.out) \cap idleAnc # {}
StripKeeps == \A f \in BOOLEAN : LET s == Strip(m, f)
   IN /\ Inv(s) /\ \A j \in DOMAIN m.ops : OpQ(m.ops[j]) \subseteq DOMAIN s.lay
      /\ \A p, q \in DOMAIN s.lay : (m.lay[p] < m.lay[q]) <=> (s.lay[p] < s.lay[q])
=============================================================================
