------------------------------ MODULE NumBuckets ------------------------------
(***************************************************************************)
(* Design of the table of real numbers: numbers 1..Max on a line that is   *)
(* cut into buckets of Width numbers, each a list in ascending order with  *)
(* access to its first and last element.  A number closer than the         *)
(* tolerance to a border is looked for in both buckets at that border.     *)
(* Refines the table of NumTable (Good, Separated); InFront chooses where  *)
(* a number at the upper border of its bucket is put: only FALSE is right. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Max, Width, Tol, InFront, Steps
VARIABLES buckets, held, res, n
vars == <<buckets, held, res, n>>
Key(v) == v \div Width
Keys == Key(1 - Tol) .. Key(Max + Tol)
Near(x, y) == x - y <= Tol /\ y - x <= Tol
D(x, y) == IF x < y THEN y - x ELSE x - y
\* first index whose successor scan stops, following the list as stored
RECURSIVE Scan(_, _, _)
Scan(s, i, v) ==
  IF i > Len(s) \/ s[i] > v + Tol THEN [hit |-> FALSE, at |-> i]
  ELSE IF Near(s[i], v)
       THEN IF i < Len(s) /\ v + Tol >= s[i + 1] /\ D(s[i + 1], v) < D(s[i], v) THEN [hit |-> TRUE, at |-> i + 1] ELSE [hit |-> TRUE, at |-> i]
       ELSE Scan(s, i + 1, v)
Ins(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))
Last(s) == s[Len(s)]
Inside(k, v) ==
  LET s == buckets[k] IN
  IF s = <<>> THEN [r |-> v, b |-> [buckets EXCEPT ![k] = <<v>>]]
  ELSE IF Last(s) <= v
       THEN IF Near(Last(s), v) THEN [r |-> Last(s), b |-> buckets] ELSE [r |-> v, b |-> [buckets EXCEPT ![k] = Append(s, v)]]
       ELSE LET q == Scan(s, 1, v) IN
            IF q.hit THEN [r |-> s[q.at], b |-> buckets] ELSE [r |-> v, b |-> [buckets EXCEPT ![k] = Ins(s, q.at, v)]]
Border(lo, hi, v) ==
  LET k == Key(v)
      a == buckets[lo]  c == buckets[hi]
      la == a # <<>> /\ Near(Last(a), v)
      lc == c # <<>> /\ Near(c[1], v)
  IN IF la /\ lc THEN [r |-> IF D(Last(a), v) < D(c[1], v) THEN Last(a) ELSE c[1], b |-> buckets]
     ELSE IF la THEN [r |-> Last(a), b |-> buckets]
     ELSE IF lc THEN [r |-> c[1], b |-> buckets]
     ELSE [r |-> v, b |-> [buckets EXCEPT ![k] = IF (k = lo) = InFront THEN <<v>> \o @ ELSE Append(@, v)]]
Find(v) == LET lo == Key(v - Tol)  hi == Key(v + Tol) IN IF lo = hi THEN Inside(lo, v) ELSE Border(lo, hi, v)
Stored == UNION {{buckets[k][i] : i \in DOMAIN buckets[k]} : k \in Keys}
Match(v) == {x \in Stored : Near(x, v)}
Init == buckets = [k \in Keys |-> <<>>] /\ held = {} /\ res = [v |-> 0, ok |-> TRUE] /\ n = 0
Step == n < Steps /\ n' = n + 1
Lookup == \E v \in 1..Max :
  LET f == Find(v) IN
  /\ buckets' = f.b /\ UNCHANGED held
  \* the abstract table would return: a match, or the number itself
  /\ res' = [v |-> v, ok |-> IF Match(v) = {} THEN f.r = v ELSE f.r \in Match(v) /\ f.b = buckets]
Hold == \E x \in Stored \ held : held' = held \cup {x} /\ UNCHANGED <<buckets, res>>
Release == \E x \in held : held' = held \ {x} /\ UNCHANGED <<buckets, res>>
Collect == buckets' = [k \in Keys |-> SelectSeq(buckets[k], LAMBDA x : x \in held)] /\ UNCHANGED <<held, res>>
Next == Step /\ (Lookup \/ Hold \/ Release \/ Collect)
Spec == Init /\ [][Next]_vars
Good == res.ok
Sorted == \A k \in Keys : \A i, j \in DOMAIN buckets[k] : i < j => buckets[k][i] < buckets[k][j]
Placed == \A k \in Keys : \A i \in DOMAIN buckets[k] : Key(buckets[k][i]) = k
Separated == \A x, y \in Stored : x # y => ~Near(x, y)
Kept == held \subseteq Stored
View == <<buckets, held, res.ok, n>>
===============================================================================
