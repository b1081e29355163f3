-------------------------------- MODULE QSem --------------------------------
(***************************************************************************)
(* Semantics of quantum operations over an abstract field of amplitudes    *)
(* (instantiated exactly by CycNum and in fixed point by FixNum).          *)
(*                                                                         *)
(* A register of n qubits is a function 0..2^n-1 -> amplitude; qubit q is  *)
(* bit q of the index.  An operation is a record                           *)
(*   [g |-> name, t |-> <<targets>>, c |-> <<controls>>, p |-> <<params>>] *)
(* a control being <<qubit, 1>> (positive) or <<qubit, 0>> (negative).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Zero, One, Im1, RSqrt2, Half, Add(_,_), Neg(_), Conj(_), Mul(_,_),
          Cis(_), CisH(_), CosH(_), SinH(_), Close(_,_,_), Norm2(_)

P2 == [k \in 0..20 |-> 2^k]
Bit(i, q) == (i \div P2[q]) % 2
Dim(n) == 0 .. (P2[n] - 1)
MI == Neg(Im1)
M1 == Neg(One)
Sqrt2Inv(x) == Mul(RSqrt2, x)
HalfOf(x) == Mul(Half, x)
MatMul2(A, B) == [i \in 1..2 |-> [j \in 1..2 |-> Add(Mul(A[i][1], B[1][j]), Mul(A[i][2], B[2][j]))]]
Adj(A) == LET d == Len(A) IN [i \in 1..d |-> [j \in 1..d |-> Conj(A[j][i])]]
RXm(p) == << <<CosH(p), Mul(MI, SinH(p))>>, <<Mul(MI, SinH(p)), CosH(p)>> >>

\* ---- the documented single-qubit gates ----
Gates1 == {"i","h","x","y","z","s","sdg","t","tdg","v","vdg","sx","sxdg","rx","ry","rz","p","u2","u"}
Mat1(g, p) ==
  CASE g = "i"   -> << <<One, Zero>>, <<Zero, One>> >>
    [] g = "h"   -> << <<RSqrt2, RSqrt2>>, <<RSqrt2, Neg(RSqrt2)>> >>
    [] g = "x"   -> << <<Zero, One>>, <<One, Zero>> >>
    [] g = "y"   -> << <<Zero, MI>>, <<Im1, Zero>> >>
    [] g = "z"   -> << <<One, Zero>>, <<Zero, M1>> >>
    [] g = "s"   -> << <<One, Zero>>, <<Zero, Im1>> >>
    [] g = "sdg" -> << <<One, Zero>>, <<Zero, MI>> >>
    [] g = "t"   -> << <<One, Zero>>, <<Zero, Sqrt2Inv(Add(One, Im1))>> >>
    [] g = "tdg" -> << <<One, Zero>>, <<Zero, Sqrt2Inv(Add(One, MI))>> >>
    [] g = "v"   -> << <<RSqrt2, Sqrt2Inv(MI)>>, <<Sqrt2Inv(MI), RSqrt2>> >>
    [] g = "vdg" -> << <<RSqrt2, Sqrt2Inv(Im1)>>, <<Sqrt2Inv(Im1), RSqrt2>> >>
    [] g = "sx"  -> << <<HalfOf(Add(One, Im1)), HalfOf(Add(One, MI))>>, <<HalfOf(Add(One, MI)), HalfOf(Add(One, Im1))>> >>
    [] g = "sxdg"-> << <<HalfOf(Add(One, MI)), HalfOf(Add(One, Im1))>>, <<HalfOf(Add(One, Im1)), HalfOf(Add(One, MI))>> >>
    [] g = "rx"  -> RXm(p[1])
    [] g = "ry"  -> << <<CosH(p[1]), Neg(SinH(p[1]))>>, <<SinH(p[1]), CosH(p[1])>> >>
    [] g = "rz"  -> << <<Conj(CisH(p[1])), Zero>>, <<Zero, CisH(p[1])>> >>
    [] g = "p"   -> << <<One, Zero>>, <<Zero, Cis(p[1])>> >>
    [] g = "u2"  -> << <<RSqrt2, Neg(Sqrt2Inv(Cis(p[2])))>>,
                       <<Sqrt2Inv(Cis(p[1])), Sqrt2Inv(Mul(Cis(p[1]), Cis(p[2])))>> >>
    [] g = "u"   -> << <<CosH(p[1]), Neg(Mul(Cis(p[3]), SinH(p[1])))>>,
                       <<Mul(Cis(p[2]), SinH(p[1])), Mul(Mul(Cis(p[2]), Cis(p[3])), CosH(p[1]))>> >>

\* ---- the documented two-qubit gates; the first target is the more
\*      significant bit of the row/column index ----
Gates2 == {"swap","iswap","iswapdg","peres","peresdg","dcx","ecr","rxx","ryy","rzz","rzx","xx_minus_yy","xx_plus_yy"}
Mat2(g, p) ==
  CASE g = "swap"    -> << <<One,Zero,Zero,Zero>>, <<Zero,Zero,One,Zero>>, <<Zero,One,Zero,Zero>>, <<Zero,Zero,Zero,One>> >>
    [] g = "iswap"   -> << <<One,Zero,Zero,Zero>>, <<Zero,Zero,Im1,Zero>>, <<Zero,Im1,Zero,Zero>>, <<Zero,Zero,Zero,One>> >>
    [] g = "iswapdg" -> << <<One,Zero,Zero,Zero>>, <<Zero,Zero,MI,Zero>>, <<Zero,MI,Zero,Zero>>, <<Zero,Zero,Zero,One>> >>
    [] g = "peres"   -> << <<Zero,Zero,Zero,One>>, <<Zero,Zero,One,Zero>>, <<One,Zero,Zero,Zero>>, <<Zero,One,Zero,Zero>> >>
    [] g = "peresdg" -> << <<Zero,Zero,One,Zero>>, <<Zero,Zero,Zero,One>>, <<Zero,One,Zero,Zero>>, <<One,Zero,Zero,Zero>> >>
    [] g = "dcx"     -> << <<One,Zero,Zero,Zero>>, <<Zero,Zero,One,Zero>>, <<Zero,Zero,Zero,One>>, <<Zero,One,Zero,Zero>> >>
    [] g = "ecr"     -> LET r == RSqrt2  ri == Sqrt2Inv(Im1) IN
         << <<Zero,Zero,r,ri>>, <<Zero,Zero,ri,r>>, <<r,Neg(ri),Zero,Zero>>, <<Neg(ri),r,Zero,Zero>> >>
    [] g = "rxx"     -> LET c == CosH(p[1])  s == Mul(MI, SinH(p[1])) IN
         << <<c,Zero,Zero,s>>, <<Zero,c,s,Zero>>, <<Zero,s,c,Zero>>, <<s,Zero,Zero,c>> >>
    [] g = "ryy"     -> LET c == CosH(p[1])  s == Mul(MI, SinH(p[1])) IN
         << <<c,Zero,Zero,Neg(s)>>, <<Zero,c,s,Zero>>, <<Zero,s,c,Zero>>, <<Neg(s),Zero,Zero,c>> >>
    [] g = "rzz"     -> LET a == Conj(CisH(p[1]))  b == CisH(p[1]) IN
         << <<a,Zero,Zero,Zero>>, <<Zero,b,Zero,Zero>>, <<Zero,Zero,b,Zero>>, <<Zero,Zero,Zero,a>> >>
    [] g = "rzx"     -> LET c == CosH(p[1])  s == Mul(MI, SinH(p[1])) IN
         << <<c,s,Zero,Zero>>, <<s,c,Zero,Zero>>, <<Zero,Zero,c,Neg(s)>>, <<Zero,Zero,Neg(s),c>> >>
    [] g = "xx_minus_yy" -> LET c == CosH(p[1])  s == Mul(MI, SinH(p[1])) IN
         << <<c,Zero,Zero,Mul(s,Conj(Cis(p[2])))>>, <<Zero,One,Zero,Zero>>, <<Zero,Zero,One,Zero>>, <<Mul(s,Cis(p[2])),Zero,Zero,c>> >>
    [] g = "xx_plus_yy"  -> LET c == CosH(p[1])  s == Mul(MI, SinH(p[1])) IN
         << <<One,Zero,Zero,Zero>>, <<Zero,c,Mul(s,Cis(p[2])),Zero>>, <<Zero,Mul(s,Conj(Cis(p[2]))),c,Zero>>, <<Zero,Zero,Zero,One>> >>

\* ---- application to a register ----
RECURSIVE CtrlOn(_, _, _)
CtrlOn(c, i, j) == IF j > Len(c) THEN TRUE
                   ELSE Bit(i, c[j][1]) = c[j][2] /\ CtrlOn(c, i, j + 1)
SetBit(i, q, b) == i - Bit(i, q) * P2[q] + b * P2[q]
App1(v, n, m, t, c) ==
  [i \in Dim(n) |->
     IF CtrlOn(c, i, 1)
     THEN LET r == Bit(i, t) + 1
          IN Add(Mul(m[r][1], v[SetBit(i, t, 0)]), Mul(m[r][2], v[SetBit(i, t, 1)]))
     ELSE v[i]]
App2(v, n, m, t1, t0, c) ==
  [i \in Dim(n) |->
     IF CtrlOn(c, i, 1)
     THEN LET r == 2 * Bit(i, t1) + Bit(i, t0) + 1
              b == i - Bit(i, t1) * P2[t1] - Bit(i, t0) * P2[t0]
          IN Add(Add(Mul(m[r][1], v[b]), Mul(m[r][2], v[b + P2[t0]])),
                 Add(Mul(m[r][3], v[b + P2[t1]]), Mul(m[r][4], v[b + P2[t1] + P2[t0]])))
     ELSE v[i]]
Scale(v, n, c, z) == [i \in Dim(n) |-> IF CtrlOn(c, i, 1) THEN Mul(z, v[i]) ELSE v[i]]
ApplyOp(v, n, op) ==
  TLCEval(
  CASE op.g \in {"barrier", "none"} -> v
    [] op.g = "gphase" -> Scale(v, n, op.c, Cis(op.p[1]))
    [] op.g \in Gates1 -> LET m == TLCEval(Mat1(op.g, op.p)) IN App1(v, n, m, op.t[1], op.c)
    [] op.g \in Gates2 -> LET m == TLCEval(Mat2(op.g, op.p)) IN App2(v, n, m, op.t[1], op.t[2], op.c))
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(v, n, ops, k) == IF k > Len(ops) THEN v ELSE ApplyAll(ApplyOp(v, n, ops[k]), n, ops, k + 1)

Basis(n, b) == TLCEval([i \in Dim(n) |-> IF i = b THEN One ELSE Zero])
\* the identity map on n qubits as a vector on 2n: index = row + 2^n * column
Ident(n) == TLCEval([i \in Dim(2 * n) |-> IF i % P2[n] = i \div P2[n] THEN One ELSE Zero])
\* new bit j takes old bit f[j+1]
Permute(v, n, f) ==
  LET RECURSIVE Idx(_, _)
      Idx(i, j) == IF j = n THEN 0 ELSE P2[f[j + 1]] * Bit(i, j) + Idx(i, j + 1)
  IN TLCEval([i \in Dim(n) |-> v[Idx(i, 0)]])
AdjMat(v, n2) == LET n == n2 \div 2
   IN TLCEval([i \in Dim(n2) |-> Conj(v[(i \div P2[n]) + P2[n] * (i % P2[n])])])
Project(v, n, q, b) == TLCEval([i \in Dim(n) |-> IF Bit(i, q) = b THEN v[i] ELSE Zero])
RECURSIVE SumN(_, _)
SumN(v, i) == IF i < 0 THEN Zero ELSE Add(Mul(v[i], Conj(v[i])), SumN(v, i - 1))
NormSq(v, n) == SumN(v, P2[n] - 1)
EqVec(v, w, n, tol) == \A i \in Dim(n) : Close(v[i], w[i], tol)
RECURSIVE Inner(_, _, _)
Inner(v, w, i) == IF i < 0 THEN Zero ELSE Add(Mul(Conj(v[i]), w[i]), Inner(v, w, i - 1))
=============================================================================
