------------------------------- MODULE NumTable -------------------------------
(***************************************************************************)
(* The table of real numbers, as a user of it sees it.  Numbers are pairs  *)
(* <<b, u>>: base point b plus u units; numbers of different base points   *)
(* are far apart.  Eps2 is twice the tolerance in units, an odd number, so *)
(* that no two numbers are exactly a tolerance apart.  Base 0 is zero.     *)
(*                                                                         *)
(* entries: identity of a stored number -> its value and reference count;  *)
(*          count -1: a constant (zero, one, 1/sqrt(2)), which is never     *)
(*          removed and stands for every number within a tolerance of it   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANT Eps2
VARIABLE entries
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(x, y) == IF x[1] = y[1] THEN 2 * Abs(x[2] - y[2]) ELSE Eps2 + 1000000000
\* the stored numbers that stand for v; since stored numbers are more than a tolerance apart, there are at most two
Match(v) == {i \in DOMAIN entries : Dist(entries[i].v, v) < Eps2}
Const(i) == entries[i].ref = -1
\* ... of which a constant comes first (with two candidates the table mostly, but not always, takes the nearer one)
For(v) == {i \in Match(v) : Const(i) \/ \A j \in Match(v) : ~Const(j)}
\* looking up v yields i
Lookup(v, i) ==
  IF Match(v) # {} THEN i \in For(v) /\ UNCHANGED entries
  ELSE /\ i \notin DOMAIN entries
       /\ entries' = [j \in DOMAIN entries \cup {i} |-> IF j = i THEN [v |-> v, ref |-> 0] ELSE entries[j]]
Inc(i) == i \in DOMAIN entries /\ entries' = [entries EXCEPT ![i].ref = IF @ < 0 THEN @ ELSE @ + 1]
Dec(i) == i \in DOMAIN entries /\ entries[i].ref # 0 /\ entries' = [entries EXCEPT ![i].ref = IF @ < 0 THEN @ ELSE @ - 1]
Dead == {i \in DOMAIN entries : entries[i].ref = 0}
Collect == entries' = [i \in DOMAIN entries \ Dead |-> entries[i]]
\* everything but the constants is forgotten
Forget == entries' = [i \in {j \in DOMAIN entries : Const(j)} |-> entries[i]]
\* what makes a number canonical
Separated == \A i, j \in DOMAIN entries : i # j => Dist(entries[i].v, entries[j].v) > Eps2
===============================================================================
