------------------------------ MODULE QasmSem ------------------------------
(***************************************************************************)
(* Meaning of OpenQASM 2/3 programs (the subset mqt-core supports).  A      *)
(* program is executed statement by statement.  The state is               *)
(*    [v  |-> language version,                                            *)
(*     nq, nb |-> numbers of qubits and bits declared so far,              *)
(*     qr, cr |-> name -> <<start, size>>,                                 *)
(*     ks |-> name -> value of a global constant,                          *)
(*     gs |-> name -> gate definition]                                     *)
(* and a statement yields a sequence of elementary steps                   *)
(*    [k |-> "op"|"m"|"r", g, t, c, p, b, if].                             *)
(* Values are <<kind, num, den>>: kind 0 = the number num/den, kind 1 = the*)
(* angle (num/den)*pi.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* ---- values ----
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Norm(k, n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                     g == Gcd(Abs(n), Abs(d))
                 IN <<k, (s * n) \div g, (s * d) \div g>>
Num(n) == <<0, n, 1>>
\* sums of a number and an angle have no exact value here; the number 0 is both
SumV(x, y, s) == IF x[2] = 0 THEN <<y[1], s * y[2], y[3]>> ELSE IF y[2] = 0 THEN x
                 ELSE Norm(x[1], x[2] * y[3] + s * y[2] * x[3], x[3] * y[3])
MulV(x, y) == Norm(x[1] + y[1], x[2] * y[2], x[3] * y[3])
DivV(x, y) == Norm(x[1] - y[1], x[2] * y[3], x[3] * y[2])
RECURSIVE PowV(_, _)
PowV(x, n) == IF n = 0 THEN Num(1) ELSE MulV(x, PowV(x, n - 1))
NegV(x) == <<x[1], -x[2], x[3]>>
\* values of functions at the arguments where they are rational
FnV(f, x) ==
  CASE f = "sqrt" -> Num(CHOOSE r \in 0 .. 100 : r * r = x[2])
    [] f = "exp" -> Num(1)                                  \* of 0
    [] f = "ln" -> Num(0)                                   \* of 1
    [] f = "cos" -> IF x[2] % 2 = 0 THEN Num(1) ELSE Num(-1)  \* of a multiple of pi
    [] f = "sin" -> IF x[3] = 1 THEN Num(0)                 \* of a multiple of pi/2
                    ELSE IF x[2] % 4 = 1 THEN Num(1) ELSE Num(-1)
    [] f = "tan" -> Num(0)                                  \* of a multiple of pi
RECURSIVE Eval(_, _)
Eval(e, env) ==
  CASE e[1] = "n" -> Norm(0, e[2], e[3])
    [] e[1] = "a" -> Norm(1, e[2], e[3])
    [] e[1] = "pi" -> <<1, 1, 1>>
    [] e[1] = "v" -> env[e[2]]
    [] e[1] = "+" -> SumV(Eval(e[2], env), Eval(e[3], env), 1)
    [] e[1] = "-" -> SumV(Eval(e[2], env), Eval(e[3], env), -1)
    [] e[1] = "*" -> MulV(Eval(e[2], env), Eval(e[3], env))
    [] e[1] = "/" -> DivV(Eval(e[2], env), Eval(e[3], env))
    [] e[1] = "^" -> PowV(Eval(e[2], env), e[3])
    [] e[1] = "neg" -> NegV(Eval(e[2], env))
    [] e[1] = "f" -> FnV(e[2], Eval(e[3], env))
IntOf(e, env) == LET x == Eval(e, env) IN x[2] \div x[3]
CosTab == <<268435456, 267860715, 266138953, 263277544, 259288740, 254189621, 248002024, 240752443, 232471924, 223195925, 212964166, 201820462, 189812531, 176991795, 163413152, 149134749, 134217728, 118725966, 102725802, 86285749, 69476208, 52369160, 35037858, 17556519, 0, -17556519, -35037858, -52369160, -69476208, -86285749, -102725802, -118725966, -134217728, -149134749, -163413152, -176991795, -189812531, -201820462, -212964166, -223195925, -232471924, -240752443, -248002024, -254189621, -259288740, -263277544, -266138953, -267860715, -268435456, -267860715, -266138953, -263277544, -259288740, -254189621, -248002024, -240752443, -232471924, -223195925, -212964166, -201820462, -189812531, -176991795, -163413152, -149134749, -134217728, -118725966, -102725802, -86285749, -69476208, -52369160, -35037858, -17556519, 0, 17556519, 35037858, 52369160, 69476208, 86285749, 102725802, 118725966, 134217728, 149134749, 163413152, 176991795, 189812531, 201820462, 212964166, 223195925, 232471924, 240752443, 248002024, 254189621, 259288740, 263277544, 266138953, 267860715>>
CosU(u) == CosTab[(u % 96) + 1]                            \* cos(u*pi/48)
Quad(x) == LET u == IF x[2] = 0 THEN 0 ELSE (x[2] * 48) \div x[3]
               h == IF x[2] = 0 THEN 0 ELSE (x[2] * 24) \div x[3]
           IN <<CosU(h), CosU(h - 24), CosU(u), CosU(u - 24)>>
\* (only angles that are multiples of pi/24 may reach a gate)
Exact(x) == x[2] = 0 \/ (x[1] = 1 /\ (x[2] * 24) % x[3] = 0)

\* ---- gates the language provides: name -> <<gate, number of leading controls>> ----
Plain == {"x","y","z","h","s","sdg","t","tdg","sx","sxdg","rx","ry","rz","p","u2","u","swap","iswap","iswapdg","dcx","ecr",
          "rxx","ryy","rzz","rzx","xx_minus_yy","xx_plus_yy","gphase"}
Alias == ("id" :> <<"i", 0>>) @@ ("phase" :> <<"p", 0>>) @@ ("u1" :> <<"p", 0>>) @@ ("u3" :> <<"u", 0>>) @@ ("U" :> <<"u", 0>>)
      @@ ("cx" :> <<"x", 1>>) @@ ("CX" :> <<"x", 1>>) @@ ("ccx" :> <<"x", 2>>) @@ ("c3x" :> <<"x", 3>>) @@ ("c4x" :> <<"x", 4>>)
      @@ ("cy" :> <<"y", 1>>) @@ ("cz" :> <<"z", 1>>) @@ ("ch" :> <<"h", 1>>) @@ ("cp" :> <<"p", 1>>) @@ ("cphase" :> <<"p", 1>>)
      @@ ("crx" :> <<"rx", 1>>) @@ ("cry" :> <<"ry", 1>>) @@ ("crz" :> <<"rz", 1>>) @@ ("cswap" :> <<"swap", 1>>)
      @@ ("c3sqrtx" :> <<"sxdg", 3>>)
      \* with the prefixes OpenQASM 2 programs may use
      @@ ("cu1" :> <<"p", 1>>) @@ ("cu3" :> <<"u", 1>>) @@ ("csx" :> <<"sx", 1>>) @@ ("ccz" :> <<"z", 2>>) @@ ("cccx" :> <<"x", 3>>)
      @@ ("cch" :> <<"h", 2>>) @@ ("crzz" :> <<"rzz", 1>>) @@ ("crxx" :> <<"rxx", 1>>) @@ ("ccp" :> <<"p", 2>>) @@ ("cs" :> <<"s", 1>>)
      @@ ("ct" :> <<"t", 1>>) @@ ("ccswap" :> <<"swap", 2>>) @@ ("cdcx" :> <<"dcx", 1>>) @@ ("cu2" :> <<"u2", 1>>) @@ ("ccrx" :> <<"rx", 2>>)
      @@ ("ciswap" :> <<"iswap", 1>>) @@ ("csdg" :> <<"sdg", 1>>)
\* gates with any number of controls; the last operand is the target
Many == ("mcx" :> "x") @@ ("mcx_gray" :> "x") @@ ("mcx_vchain" :> "x") @@ ("mcx_recursive" :> "x") @@ ("mcphase" :> "p")
Std(g) == IF g \in Plain THEN <<g, 0>> ELSE Alias[g]
IsStd(g) == g \in Plain \/ g \in DOMAIN Alias
\* gates the standard libraries define by a body
A(n, d) == <<"a", n, d>>
Call(g, ps, qs) == [k |-> "call", g |-> g, mods |-> <<>>, ps |-> ps, a |-> [j \in DOMAIN qs |-> [n |-> qs[j], i |-> <<>>]]]
LibGates ==
  ("cu" :> [ps |-> <<"th", "ph", "la", "ga">>, qs |-> <<"c", "t">>,
            b |-> << Call("p", << <<"v", "ga">> >>, <<"c">>), Call("cu3", << <<"v", "th">>, <<"v", "ph">>, <<"v", "la">> >>, <<"c", "t">>) >>])
  \* Margolus' gates: the controlled NOT up to relative phases
  @@ ("rccx" :> [ps |-> <<>>, qs |-> <<"a", "b", "c">>,
       b |-> << Call("h", <<>>, <<"c">>), Call("t", <<>>, <<"c">>), Call("cx", <<>>, <<"b", "c">>), Call("tdg", <<>>, <<"c">>),
                Call("cx", <<>>, <<"a", "c">>), Call("t", <<>>, <<"c">>), Call("cx", <<>>, <<"b", "c">>), Call("tdg", <<>>, <<"c">>),
                Call("h", <<>>, <<"c">>) >>])

\* ---- modifiers ----
InvGate == ("s" :> "sdg") @@ ("sdg" :> "s") @@ ("t" :> "tdg") @@ ("tdg" :> "t") @@ ("sx" :> "sxdg") @@ ("sxdg" :> "sx")
        @@ ("iswap" :> "iswapdg") @@ ("iswapdg" :> "iswap")
PI(n, d) == <<1, n, d>>
InvOp(o) ==
  CASE o.g \in DOMAIN InvGate -> [o EXCEPT !.g = InvGate[o.g]]
    [] o.g \in {"rx","ry","rz","p","rxx","ryy","rzz","rzx","gphase"} -> [o EXCEPT !.p = <<NegV(o.p[1])>>]
    [] o.g \in {"xx_minus_yy","xx_plus_yy"} -> [o EXCEPT !.p = <<NegV(o.p[1]), o.p[2]>>]
    [] o.g = "u" -> [o EXCEPT !.p = <<NegV(o.p[1]), NegV(o.p[3]), NegV(o.p[2])>>]
    [] o.g = "u2" -> [o EXCEPT !.g = "u", !.p = <<PI(-1, 2), NegV(o.p[2]), NegV(o.p[1])>>]
    [] o.g = "dcx" -> [o EXCEPT !.t = <<o.t[2], o.t[1]>>]
    [] OTHER -> o
Reverse(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
InvAll(s) == LET r == Reverse(s) IN [j \in DOMAIN r |-> InvOp(r[j])]
\* the controls the modifiers ask for, in order, as polarities; and whether the gate is inverted
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
RECURSIVE Pols(_, _, _)
Pols(mods, j, env) == IF j > Len(mods) THEN <<>>
  ELSE (CASE mods[j][1] = "ctrl" -> Rep(1, IntOf(mods[j][2], env)) [] mods[j][1] = "negctrl" -> Rep(0, IntOf(mods[j][2], env)) [] OTHER -> <<>>)
       \o Pols(mods, j + 1, env)
RECURSIVE Odd(_, _)
Odd(mods, j) == IF j > Len(mods) THEN FALSE ELSE (mods[j][1] = "inv") # Odd(mods, j + 1)

\* ---- gate calls ----
Bind(names, vals, env) == LET own == [x \in {names[j] : j \in DOMAIN names} |->
                                        vals[CHOOSE j \in DOMAIN names : names[j] = x]] IN own @@ env
RECURSIVE CallOps(_, _, _, _, _, _), BodyOps(_, _, _, _, _)
\* mods, parameters already evaluated, qubits already resolved
CallOps(S, g, mods, ps, qs, env) ==
  LET pol == Pols(mods, 1, env)
      k == Len(pol)
      ctl == [j \in 1 .. k |-> <<qs[j], pol[j]>>]
      rest == SubSeq(qs, k + 1, Len(qs))
      raw == IF g \in DOMAIN S.gs THEN LET d == S.gs[g] IN BodyOps(S, d.b, 1, Bind(d.ps, ps, S.ks), [x \in {d.qs[j] : j \in DOMAIN d.qs} |->
                                          rest[CHOOSE j \in DOMAIN d.qs : d.qs[j] = x]])
             ELSE IF IsStd(g) THEN LET s == Std(g) IN << [g |-> s[1], t |-> SubSeq(rest, s[2] + 1, Len(rest)),
                                                          c |-> [j \in 1 .. s[2] |-> <<rest[j], 1>>], p |-> ps] >>
             ELSE IF g \in DOMAIN Many THEN << [g |-> Many[g], t |-> <<rest[Len(rest)]>>,
                                                c |-> [j \in 1 .. (Len(rest) - 1) |-> <<rest[j], 1>>], p |-> ps] >>
             ELSE LET d == LibGates[g] IN BodyOps(S, d.b, 1, Bind(d.ps, ps, S.ks), [x \in {d.qs[j] : j \in DOMAIN d.qs} |->
                                          rest[CHOOSE j \in DOMAIN d.qs : d.qs[j] = x]])
      base == IF Odd(mods, 1) THEN InvAll(raw) ELSE raw
  IN [j \in DOMAIN base |-> [base[j] EXCEPT !.c = ctl \o @]]
BodyOps(S, b, j, env, qenv) ==
  IF j > Len(b) THEN <<>>
  ELSE (IF b[j].k = "barrier" THEN <<>>
        ELSE LET vals == [i \in DOMAIN b[j].ps |-> Eval(b[j].ps[i], env)]
                 qs == [i \in DOMAIN b[j].a |-> qenv[b[j].a[i].n]]
             IN CallOps(S, b[j].g, b[j].mods, vals, qs, env)) \o BodyOps(S, b, j + 1, env, qenv)

\* ---- operands and broadcasting ----
Range(r, x, env) == IF x.i = <<>> THEN [j \in 1 .. r[2] |-> r[1] + j - 1]
                    ELSE <<r[1] + IntOf(x.i, env)>>
Qs(S, x) == IF x.n = "$" THEN <<x.h>> ELSE Range(S.qr[x.n], x, S.ks)
Bs(S, x) == Range(S.cr[x.n], x, S.ks)
Width(rs) == LET RECURSIVE W(_)
                 W(j) == IF j > Len(rs) THEN 1 ELSE IF Len(rs[j]) > 1 THEN Len(rs[j]) ELSE W(j + 1) IN W(1)
At(r, i) == IF Len(r) = 1 THEN r[1] ELSE r[i]
RECURSIVE Cast(_, _, _, _, _, _)
Cast(S, st, vals, rs, i, w) ==
  IF i > w THEN <<>>
  ELSE CallOps(S, st.g, st.mods, vals, [j \in DOMAIN rs |-> At(rs[j], i)], S.ks) \o Cast(S, st, vals, rs, i + 1, w)
Step(o, cond) == [k |-> "op", g |-> o.g, t |-> o.t, c |-> o.c, p |-> [j \in DOMAIN o.p |-> Quad(o.p[j])], b |-> 0, if |-> cond]

\* ---- conditions ----
Flip == ("<" :> ">") @@ (">" :> "<") @@ ("<=" :> ">=") @@ (">=" :> "<=") @@ ("==" :> "==") @@ ("!=" :> "!=")
NotC == ("<" :> ">=") @@ (">=" :> "<") @@ (">" :> "<=") @@ ("<=" :> ">") @@ ("==" :> "!=") @@ ("!=" :> "==")
\* c.n register, c.i index or nothing, c.o comparison or "is"/"not", c.v constant, c.sw constant on the left
CondOf(S, c) ==
  LET r == S.cr[c.n]
      s == IF c.i = <<>> THEN r ELSE <<r[1] + IntOf(c.i, S.ks), 1>>
  IN CASE c.o = "is" -> <<s[1], s[2], "!=", 0>>
       [] c.o = "not" -> <<s[1], s[2], "==", 0>>
       [] OTHER -> <<s[1], s[2], IF c.sw THEN Flip[c.o] ELSE c.o, c.v>>
NotCond(x) == <<x[1], x[2], NotC[x[3]], x[4]>>

\* ---- statements that do something: sequences of elementary steps ----
RECURSIVE StmtSteps(_, _, _), BlockSteps(_, _, _, _)
StmtSteps(S, st, cond) ==
  CASE st.k = "call" ->
         LET rs == [j \in DOMAIN st.a |-> Qs(S, st.a[j])]
             vals == [j \in DOMAIN st.ps |-> Eval(st.ps[j], S.ks)]
             ops == Cast(S, st, vals, rs, 1, Width(rs))
         IN [j \in DOMAIN ops |-> Step(ops[j], cond)]
    [] st.k = "measure" -> LET q == Qs(S, st.q)  b == Bs(S, st.b) IN
         [j \in DOMAIN q |-> [k |-> "m", g |-> "", t |-> <<q[j]>>, c |-> <<>>, p |-> <<>>, b |-> b[j], if |-> cond]]
    [] st.k = "reset" -> LET q == Qs(S, st.a) IN
         [j \in DOMAIN q |-> [k |-> "r", g |-> "", t |-> <<q[j]>>, c |-> <<>>, p |-> <<>>, b |-> 0, if |-> cond]]
    [] st.k = "barrier" -> <<>>
    [] st.k = "if" -> LET x == CondOf(S, st.c) IN
         BlockSteps(S, st.t, 1, Append(cond, x)) \o BlockSteps(S, st.f, 1, Append(cond, NotCond(x)))
    [] OTHER -> <<>>
BlockSteps(S, b, j, cond) == IF j > Len(b) THEN <<>> ELSE StmtSteps(S, b[j], cond) \o BlockSteps(S, b, j + 1, cond)

\* ---- well-formedness ----
Funs == {"sqrt", "exp", "ln", "cos", "sin", "tan"}
Builtin == {"pi", "tau", "euler"}
RECURSIVE IntEx(_), VarsOk(_, _)
IntEx(e) == CASE e[1] = "n" -> e[3] = 1
              [] e[1] \in {"+", "-", "*"} -> IntEx(e[2]) /\ IntEx(e[3])
              [] e[1] = "neg" -> IntEx(e[2])
              [] OTHER -> FALSE
\* all names are known and functions exist
VarsOk(e, names) ==
  CASE e[1] \in {"n", "a", "pi"} -> TRUE
    [] e[1] = "v" -> e[2] \in names
    [] e[1] \in {"neg", "^"} -> VarsOk(e[2], names)
    [] e[1] = "f" -> e[2] \in Funs /\ VarsOk(e[3], names)
    [] OTHER -> VarsOk(e[2], names) /\ VarsOk(e[3], names)
\* nothing is divided by a literal zero
RECURSIVE Finite(_)
Finite(e) ==
  CASE e[1] \in {"n", "a", "pi", "v"} -> TRUE
    [] e[1] \in {"neg", "^"} -> Finite(e[2])
    [] e[1] = "f" -> Finite(e[3])
    [] OTHER -> Finite(e[2]) /\ Finite(e[3]) /\ ~(e[1] = "/" /\ e[3][1] = "n" /\ e[3][2] = 0)
Among(r, x) == /\ x.n \in DOMAIN r
               /\ x.i = <<>> \/ (IntEx(x.i) /\ LET v == IntOf(x.i, <<>>) IN v >= 0 /\ v < r[x.n][2])
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
\* operands and parameters of the gates the language provides
Sig(S, g) ==
  CASE g \in DOMAIN S.gs -> <<Len(S.gs[g].qs), Len(S.gs[g].ps)>>
    [] g \in DOMAIN LibGates -> <<Len(LibGates[g].qs), Len(LibGates[g].ps)>>
    [] OTHER -> LET s == Std(g)
                    two == s[1] \in {"swap","iswap","iswapdg","dcx","ecr","rxx","ryy","rzz","rzx","xx_minus_yy","xx_plus_yy"}
                IN << s[2] + (IF s[1] = "gphase" THEN 0 ELSE IF two THEN 2 ELSE 1),
                      CASE s[1] \in {"rx","ry","rz","p","rxx","ryy","rzz","rzx","gphase"} -> 1
                        [] s[1] \in {"u2","xx_minus_yy","xx_plus_yy"} -> 2
                        [] s[1] = "u" -> 3
                        [] OTHER -> 0 >>
Known(S, g) == g \in DOMAIN S.gs \/ IsStd(g) \/ g \in DOMAIN Many \/ g \in DOMAIN LibGates
ModsOk(mods) == \A j \in DOMAIN mods : mods[j][1] = "inv" \/ (mods[j][1] \in {"ctrl", "negctrl"} /\ IntEx(mods[j][2]) /\ IntOf(mods[j][2], <<>>) >= 1)
CallOk(S, st, names) ==
  /\ Known(S, st.g)
  /\ st.g \in DOMAIN S.gs => ~ S.gs[st.g].bad
  /\ ModsOk(st.mods)
  /\ \A j \in DOMAIN st.ps : VarsOk(st.ps[j], names) /\ Finite(st.ps[j])
  /\ \A j \in DOMAIN st.a : Among(S.qr, st.a[j])
  /\ LET k == Len(Pols(st.mods, 1, <<>>))
         rs == [j \in DOMAIN st.a |-> Range(S.qr[st.a[j].n], st.a[j], <<>>)]
         w == Width(rs)
     IN /\ IF st.g \in DOMAIN Many /\ st.g \notin DOMAIN S.gs
           THEN Len(st.a) >= k + 1 /\ Len(st.ps) = IF Many[st.g] = "p" THEN 1 ELSE 0
           ELSE <<Len(st.a) - k, Len(st.ps)>> = Sig(S, st.g)
        /\ \A j \in DOMAIN rs : Len(rs[j]) \in {1, w}
        /\ \A i \in 1 .. w : NoDup([j \in DOMAIN rs |-> At(rs[j], i)])
Ids(s) == {s[j] : j \in DOMAIN s}
\* the body of a gate, whose operands are single qubits
BodyState(S, st) == [S EXCEPT !.qr = [x \in Ids(st.qs) |-> <<CHOOSE j \in DOMAIN st.qs : st.qs[j] = x, 1>>]]
BodyOk(S, st) == \A j \in DOMAIN st.b : st.b[j].k = "call" => CallOk(BodyState(S, st), st.b[j], DOMAIN S.ks \cup Ids(st.ps) \cup Builtin)
\* ---- declarations ----
Empty == [v |-> 3, ok |-> TRUE, nq |-> 0, nb |-> 0, qr |-> <<>>, cr |-> <<>>, ks |-> <<>>, gs |-> <<>>]
Size(S, st) == IF st.z = <<>> THEN 1 ELSE IntOf(st.z, S.ks)
Declare(S, st) ==
  CASE st.k = "qreg" -> LET z == Size(S, st) IN [S EXCEPT !.qr = (st.n :> <<S.nq, z>>) @@ @, !.nq = @ + z]
    [] st.k = "creg" -> LET z == Size(S, st) IN [S EXCEPT !.cr = (st.n :> <<S.nb, z>>) @@ @, !.nb = @ + z]
    [] st.k = "const" -> [S EXCEPT !.ks = (st.n :> Eval(st.x, S.ks)) @@ @]
    [] st.k = "gate" -> [S EXCEPT !.gs = (st.n :> [ps |-> st.ps, qs |-> st.qs, b |-> st.b, bad |-> ~ BodyOk(S, st)]) @@ @]
    [] OTHER -> S

Fresh(S, n) == n \notin DOMAIN S.qr /\ n \notin DOMAIN S.cr /\ n \notin DOMAIN S.ks
CondOk(S, c) == Among(S.cr, c)
RECURSIVE Ok(_, _)
Ok(S, st) ==
  CASE st.k = "call" -> CallOk(S, st, DOMAIN S.ks \cup Builtin)
    [] st.k = "measure" -> /\ Among(S.qr, st.q) /\ Among(S.cr, st.b)
                           /\ Len(Qs(S, st.q)) = Len(Bs(S, st.b))
    [] st.k = "reset" -> Among(S.qr, st.a)
    [] st.k = "barrier" -> \A j \in DOMAIN st.a : Among(S.qr, st.a[j])
    [] st.k = "if" -> /\ CondOk(S, st.c)
                      /\ \A j \in DOMAIN st.t : Ok(S, st.t[j])
                      /\ \A j \in DOMAIN st.f : Ok(S, st.f[j])
    [] st.k \in {"qreg", "creg"} -> Fresh(S, st.n) /\ (st.z = <<>> \/ (IntEx(st.z) /\ IntOf(st.z, <<>>) >= 1))
    [] st.k = "const" -> Fresh(S, st.n) /\ Finite(st.x) /\ VarsOk(st.x, DOMAIN S.ks \cup Builtin)
    [] st.k = "gate" -> /\ st.n \notin DOMAIN S.gs
                        /\ IsStd(st.n) \/
                           /\ NoDup(st.ps) /\ NoDup(st.qs)
                           \* only the global phase has no operands
                           /\ \A j \in DOMAIN st.b : (st.b[j].k = "call" /\ st.b[j].a = <<>>) => st.b[j].g = "gphase"
                           \* only the gate's own qubits, and names that are visible in it
                           /\ \A j \in DOMAIN st.b : \A i \in DOMAIN st.b[j].a : st.b[j].a[i].n \in Ids(st.qs)
                           /\ \A j \in DOMAIN st.b : \A i \in DOMAIN st.b[j].ps : VarsOk(st.b[j].ps[i], DOMAIN S.ks \cup Ids(st.ps) \cup Builtin)
    [] OTHER -> FALSE
\* what is declared by a statement of a program that may be ill-formed
Check(S, st) == IF ~ S.ok \/ ~ Ok(S, st) THEN [S EXCEPT !.ok = FALSE]
                ELSE IF st.k = "gate" THEN (IF IsStd(st.n) THEN S ELSE Declare([S EXCEPT !.ok = TRUE], [st EXCEPT !.k = "gate"]))
                ELSE IF st.k = "const" THEN [S EXCEPT !.ks = (st.n :> <<0, 0, 1>>) @@ @]
                ELSE Declare(S, st)
=============================================================================
