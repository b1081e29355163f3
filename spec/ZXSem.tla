-------------------------------- MODULE ZXSem --------------------------------
(***************************************************************************)
(* What a ZX-diagram denotes.  A diagram is a record                       *)
(*   vs  : sequence of <<type, cos, sin>>   (type 0 boundary, 1 Z, 2 X)    *)
(*   he  : sequence of half edges <<from, to, h>> (h = 1: Hadamard edge)   *)
(*   ins, outs : sequences of boundary vertices                            *)
(*   nv, ne : the number of vertices and edges the diagram claims to have  *)
(* It denotes the linear map with matrix entries, up to one scalar factor, *)
(*   sum over x in [spiders -> {0,1}] of                                   *)
(*     product over spiders v of e^(i phase(v) x_v)                        *)
(*     product over edges of  [x_u = x_v]  (plain)  or (-1)^(x_u x_v)  (H) *)
(* for the given values of the boundary vertices, after every X spider has *)
(* become a Z spider by putting a Hadamard on each of its legs.            *)
(* The sum is evaluated along a schedule st: +v introduces the variable of *)
(* vertex v, -v sums it out; any complete schedule gives the same value.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FixNum, TLC

ZP2 == [k \in 0..20 |-> 2^k]
ZBit(i, p) == (i \div ZP2[p]) % 2
HalfEdges(d, u, v, h) == Cardinality({j \in DOMAIN d.he : d.he[j] = <<u, v, h>>})
Legs(d, v) == {j \in DOMAIN d.he : d.he[j][1] = v}
\* the adjacency structure is consistent and boundary vertices have one leg and no phase
WellFormed(d) ==
  /\ d.nv = Len(d.vs) /\ 2 * d.ne = Len(d.he)
  /\ \A j \in DOMAIN d.he : d.he[j][1] \in DOMAIN d.vs /\ d.he[j][2] \in DOMAIN d.vs
  /\ \A j \in DOMAIN d.he : LET e == d.he[j] IN
       IF e[1] = e[2] THEN HalfEdges(d, e[1], e[1], e[3]) % 2 = 0
       ELSE HalfEdges(d, e[1], e[2], e[3]) = HalfEdges(d, e[2], e[1], e[3])
  /\ LET b == {d.ins[j] : j \in DOMAIN d.ins} \cup {d.outs[j] : j \in DOMAIN d.outs} IN
       /\ Cardinality(b) = Len(d.ins) + Len(d.outs)
       /\ b = {v \in DOMAIN d.vs : d.vs[v][1] = 0}
       /\ \A v \in b : Cardinality(Legs(d, v)) = 1 /\ d.vs[v][2] = S28 /\ d.vs[v][3] = 0
\* no two edges join the same vertices, no vertex is joined to itself, only Z spiders, plain edges only at the boundary
GraphLike(d) ==
  /\ \A v \in DOMAIN d.vs : d.vs[v][1] # 2
  /\ Cardinality({<<d.he[j][1], d.he[j][2]>> : j \in DOMAIN d.he}) = Len(d.he)
  /\ \A j \in DOMAIN d.he : LET e == d.he[j] IN
       e[1] # e[2] /\ (e[3] = 1 \/ d.vs[e[1]][1] = 0 \/ d.vs[e[2]][1] = 0)

Had(d, e) == (e[3] + (IF d.vs[e[1]][1] = 2 THEN 1 ELSE 0) + (IF d.vs[e[2]][1] = 2 THEN 1 ELSE 0)) % 2
PosOf(L, v) == CHOOSE j \in DOMAIN L : L[j] = v
Live(L, v) == \E j \in DOMAIN L : L[j] = v
\* the positions (bits) of live neighbours of v along edges of the given kind; Hadamard edges count modulo 2
Plain(d, L, v) == {PosOf(L, d.he[j][2]) - 1 : j \in {k \in Legs(d, v) : Live(L, d.he[k][2]) /\ Had(d, d.he[k]) = 0}}
HadPos(d, L, v) ==
  LET js == {k \in Legs(d, v) : Live(L, d.he[k][2]) /\ Had(d, d.he[k]) = 1}
      qs == {PosOf(L, d.he[j][2]) - 1 : j \in js}
  IN {p \in qs : Cardinality({j \in js : PosOf(L, d.he[j][2]) - 1 = p}) % 2 = 1}
SelfH(d, v) == (Cardinality({j \in Legs(d, v) : d.he[j][2] = v /\ Had(d, d.he[j]) = 1}) \div 2) % 2
RECURSIVE Parity(_, _)
Parity(i, ps) == IF ps = {} THEN 0 ELSE LET p == CHOOSE p \in ps : TRUE IN (ZBit(i, p) + Parity(i, ps \ {p})) % 2

Introduce(d, s, v) ==
  LET k == Len(s.L)
      pl == TLCEval(Plain(d, s.L, v))
      hd == TLCEval(HadPos(d, s.L, v))
      ph == LET z == <<d.vs[v][2], d.vs[v][3]>> IN IF SelfH(d, v) = 1 THEN Neg(z) ELSE z
      V(i) == LET x == ZBit(i, k)  b == i % ZP2[k]  z == s.v[b] IN
              IF z = Zero THEN Zero
              ELSE IF \E p \in pl : ZBit(b, p) # x THEN Zero
              ELSE IF x = 0 THEN z
              ELSE Mul(IF Parity(b, hd) = 1 THEN Neg(z) ELSE z, ph)
  IN [L |-> Append(s.L, v), v |-> [i \in 0 .. (ZP2[k + 1] - 1) |-> V(i)]]
Max2(a, b) == IF a < b THEN b ELSE a
Mag(z) == Max2(AbsI(z[1]), AbsI(z[2]))
RECURSIVE MaxMag(_, _)
MaxMag(v, i) == IF i < 0 THEN 0 ELSE Max2(Mag(v[i]), MaxMag(v, i - 1))
RECURSIVE Doublings(_)
Doublings(m) == IF m >= S28 \div 2 THEN 1 ELSE 2 * Doublings(2 * m)
\* amplitudes are kept between 1/2 and 1 (a common factor is immaterial); what is left after complete cancellation is 0
Rescale(v, n) ==
  LET m == MaxMag(v, n - 1) IN
  IF m < 2048 THEN [i \in 0 .. (n - 1) |-> Zero]
  ELSE IF m > S28 THEN [i \in 0 .. (n - 1) |-> <<v[i][1] \div 2, v[i][2] \div 2>>]
  ELSE LET f == Doublings(m) IN IF f = 1 THEN v ELSE [i \in 0 .. (n - 1) |-> <<v[i][1] * f, v[i][2] * f>>]
SumOut(s, v) ==
  LET k == Len(s.L)  p == PosOf(s.L, v) - 1
      At(i, b) == (i % ZP2[p]) + b * ZP2[p] + (i \div ZP2[p]) * ZP2[p + 1]
      w == TLCEval([i \in 0 .. (ZP2[k - 1] - 1) |-> Add(s.v[At(i, 0)], s.v[At(i, 1)])])
  IN [L |-> [j \in 1 .. (k - 1) |-> IF j <= p THEN s.L[j] ELSE s.L[j + 1]], v |-> Rescale(w, ZP2[k - 1])]
\* the schedule introduces every vertex once, sums out exactly the spiders, and only after all their neighbours came in
Complete(d) ==
  /\ \A v \in DOMAIN d.vs : Cardinality({j \in DOMAIN d.st : d.st[j] = v}) = 1
  /\ \A v \in DOMAIN d.vs : Cardinality({j \in DOMAIN d.st : d.st[j] = -v}) = (IF d.vs[v][1] = 0 THEN 0 ELSE 1)
  /\ \A j \in DOMAIN d.st : d.st[j] < 0 =>
       \A e \in Legs(d, -d.st[j]) : \E k \in 1 .. (j - 1) : d.st[k] = d.he[e][2]
  /\ \A j \in DOMAIN d.st : d.st[j] < 0 => \E k \in 1 .. (j - 1) : d.st[k] = -d.st[j]
RECURSIVE Contract(_, _, _)
Contract(d, s, j) ==
  IF j > Len(d.st) THEN s
  ELSE Contract(d, TLCEval(IF d.st[j] > 0 THEN Introduce(d, s, d.st[j]) ELSE SumOut(s, -d.st[j])), j + 1)
\* the matrix as a vector: outputs are the low bits of the index, inputs the high bits
Denote(d) ==
  LET s == Contract(d, [L |-> <<>>, v |-> [i \in {0} |-> One]], 1)
      bs == d.outs \o d.ins
      pos == TLCEval([j \in DOMAIN bs |-> PosOf(s.L, bs[j]) - 1])
      RECURSIVE Idx(_, _)
      Idx(i, j) == IF j = 0 THEN 0 ELSE Idx(i, j - 1) + ZBit(i, j - 1) * ZP2[pos[j]]
  IN [i \in 0 .. (ZP2[Len(bs)] - 1) |-> s.v[Idx(i, Len(bs))]]
IsZero(v, n) == \A i \in 0 .. (ZP2[n] - 1) : v[i] = Zero
\* (B A)[r, c] for maps on k qubits, entries scaled by 1/16 to stay in range
MatMulV(B, A, k) ==
  LET D == ZP2[k]
      Sh(z) == <<z[1] \div 4, z[2] \div 4>>
      RECURSIVE Dot(_, _, _)
      Dot(r, c, j) == IF j < 0 THEN Zero ELSE Add(Mul(Sh(B[r + j * D]), Sh(A[j + c * D])), Dot(r, c, j - 1))
  IN Rescale(TLCEval([i \in 0 .. (D * D - 1) |-> Dot(i % D, i \div D, D - 1)]), D * D)
=============================================================================
