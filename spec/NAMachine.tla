------------------------------- MODULE NAMachine -------------------------------
(***************************************************************************)
(* Neutral-atom computations: state = position of every atom and the set   *)
(* of atoms held by the AOD (loaded, not yet stored).  A shuttling step    *)
(*   [k |-> "load" | "move" | "store", a |-> sequence of atoms,            *)
(*    t |-> sequence of target locations, empty if there are none]         *)
(* is enabled iff the hardware can do it; so is a local gate iff it names  *)
(* no atom twice.  Locations are pairs <<x, y>>.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[j] : j \in DOMAIN s}
Distinct(a) == Cardinality(Range(a)) = Len(a)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
\* rows and columns of the AOD move as a whole and never cross
Keeps(s1, s2, e1, e2) == /\ Sgn(s1[1] - s2[1]) = Sgn(e1[1] - e2[1])
                         /\ Sgn(s1[2] - s2[2]) = Sgn(e1[2] - e2[2])
                         /\ e1 # e2
Shuttle(op) == op.k \in {"load", "move", "store"}
Enabled(loc, held, op) ==
  CASE Shuttle(op) -> /\ Distinct(op.a)
                      /\ op.k = "load" => Range(op.a) \cap held = {}
                      /\ op.k # "load" => Range(op.a) \subseteq held
                      /\ op.t # <<>> => \A i \in DOMAIN op.a : \A j \in (i + 1) .. Len(op.a) :
                            Keeps(loc[op.a[i]], loc[op.a[j]], op.t[i], op.t[j])
    [] op.k = "local" -> Distinct(op.a)
    [] OTHER -> TRUE
Index(a, x) == CHOOSE i \in DOMAIN a : a[i] = x
Moved(loc, op) == IF ~Shuttle(op) \/ op.t = <<>> THEN loc
                  ELSE [x \in DOMAIN loc |-> IF x \in Range(op.a) THEN op.t[Index(op.a, x)] ELSE loc[x]]
Held(held, op) == IF op.k = "load" THEN held \cup Range(op.a) ELSE IF op.k = "store" THEN held \ Range(op.a) ELSE held
================================================================================
