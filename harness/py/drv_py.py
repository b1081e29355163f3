"""The Python interface of the package (C32): containers, construction of
circuits, symbolic expressions, decision diagrams."""
import gc, tempfile
from vf import *
import numpy as np
from mqt.core import dd
from mqt.core.ir import Permutation, QuantumComputation
from mqt.core.ir.operations import (ClassicControlledOperation, ComparisonKind, CompoundOperation, Control, NonUnitaryOperation, OpType,
                                    StandardOperation, SymbolicOperation)
from mqt.core.ir.registers import ClassicalRegister, QuantumRegister
from mqt.core.ir.symbolic import Expression, Term, Variable

TOL = 40000
NQ = 6
PN = {"rx": ("theta",), "ry": ("theta",), "rz": ("theta",), "p": ("theta",), "u2": ("phi", "lambda_"), "u": ("theta", "phi", "lambda_"),
      "rxx": ("theta",), "ryy": ("theta",), "rzz": ("theta",), "rzx": ("theta",), "xx_minus_yy": ("theta", "beta"), "xx_plus_yy": ("theta", "beta")}


def tries(f, kinds):
    """the result of f and whether it was rejected with one of the given errors"""
    try:
        return f(), False
    except kinds:
        return None, True


# ---------------------------------------------------------------- containers
def rx(i, t): return StandardOperation(t, OpType.rx, [i / 1000])


def ident(op): return [round(op.parameter[0] * 1000), op.targets[0]]


def seq_case(i, r, t):
    if r.randrange(10) < 2: return map_case(r, t)
    if r.randrange(10) < 3: return attr_case(r, t)
    box, nxt = {}, [0]

    def fresh(k, n=None):
        ids = [nop() for _ in range(r.randint(0, 5) if n is None else n)]
        ops = [rx(*x) for x in ids]
        if k <= 2:
            box[k] = QuantumComputation(NQ)
            for o in ops: box[k].append(o)
        else:
            box[k] = CompoundOperation(ops) if r.random() < .7 or not ops else CompoundOperation()
            if len(box[k]) != len(ops):
                for o in ops: box[k].append(o)
        t.ev(e="new", k=k, ids=ids)
        for o in ops:  # containers hold copies
            if r.random() < .3: o.targets = [r.randrange(NQ)]

    def nop():
        nxt[0] += 1
        return [nxt[0], r.randrange(NQ)]

    def obs(k):
        b = box[k]
        empty = len(b) == 0 if k <= 2 else b.empty()
        t.ev(e="obs", k=k, r=[ident(b[j]) for j in range(len(b))], len=len(b), iter=[ident(o) for o in b], empty=empty)
        if k <= 2: t.flag(b.num_qubits == NQ and b.num_ops == len(b), "a circuit keeps its qubits")

    def index(n): return r.randint(-n - 2, n + 1)

    def slc(n):
        x = [99 if r.random() < .35 else r.randint(-n - 2, n + 2) for _ in range(2)] + [99 if r.random() < .4 else r.choice([1, 2, 3, -1, -1, -2, -3])]
        return x, slice(*[None if y == 99 else y for y in x])

    t.note("containers")
    for k in range(1, 5):
        fresh(k)
        obs(k)
    for _ in range(14):
        k = r.randint(1, 4)
        b = box[k]
        n = len(b)
        c = r.randrange(16)
        if c == 0: fresh(k)
        elif c <= 2:
            j = index(n)
            v, err = tries(lambda: b[j], IndexError)
            t.ev(e="get", k=k, i=j, err=err, r=[] if err else ident(v))
        elif c <= 4:
            x, s = slc(n)
            t.ev(e="gets", k=k, x=x, r=[ident(o) for o in b[s]])
        elif c == 5:
            j, o = index(n), nop()
            def put(): b[j] = rx(*o)
            _, err = tries(put, IndexError)
            t.ev(e="set", k=k, i=j, err=err, id=o)
        elif c <= 7:
            x, s = slc(n)
            m = len(range(*s.indices(n)))
            src = r.randint(1, 4)
            how = r.randrange(4)
            if how == 0:
                ids = [nop() for _ in range(m if r.random() < .8 else m + 1)]
                ops = [rx(*o) for o in ids]
            else:  # operations of the same or of another container
                if how <= 2: src = k
                ops = list(box[src])
                r.shuffle(ops)
                ops = ops[:m]
                ids = [ident(o) for o in ops]
            def puts(): b[s] = ops
            _, err = tries(puts, (RuntimeError, ValueError))
            t.ev(e="sets", k=k, x=x, err=err, ids=ids)
            del ops
        elif c == 8:
            j = index(n)
            def rem(): del b[j]
            _, err = tries(rem, IndexError)
            t.ev(e="del", k=k, i=j, err=err)
        elif c <= 10:
            x, s = slc(n)
            del b[s]
            t.ev(e="dels", k=k, x=x)
        elif c == 11:
            j, o = index(n), nop()
            op = rx(*o)
            b.insert(j, op)
            op.targets = [r.randrange(NQ)]
            t.ev(e="ins", k=k, i=j, id=o)
        elif c == 12:
            if n and r.random() < .5:
                op = b[r.randrange(n)]
                o = ident(op)
            else:
                o = nop()
                op = rx(*o)
            b.append(op)
            t.ev(e="app", k=k, id=o)
        elif c == 13:
            if k <= 2 and r.random() < .6:
                b.reverse()
                t.ev(e="rev", k=k)
            elif r.random() < .3:
                b.clear()
                t.ev(e="clear", k=k)
        elif c == 14 and n:
            j, q = r.randint(-n, n - 1), r.randrange(NQ)
            op = b[j]
            op.targets = [q]
            t.ev(e="edit", k=k, i=j, t=q)
            del op
        elif c == 15:
            if k > 2:
                j = r.randint(1, 4)
                box[k] = CompoundOperation(list(box[j]))
                t.ev(e="copy", k=k, j=j)
                if len(box[j]):
                    box[j][0].targets = [0]
                    t.ev(e="edit", k=j, i=0, t=0)
                t.flag(box[k].is_compound_operation() and not box[k].is_standard_operation(), "kind of a compound operation")
        obs(k)
        if r.random() < .2: obs(r.randint(1, 4))


def map_case(r, t):
    t.note("permutations")

    def pobs():
        # iterators of temporaries, too
        t.ev(e="pobs", len=len(p), keys=[int(x) for x in p], items=[list(x) for x in p.items()], has=[x in p for x in range(8)])
        t.flag([x for x in Permutation(dict(p.items()))] == sorted(x for x in p), "keys of a temporary")

    def build(d): return Permutation(d) if r.random() < .8 or not d else fill(d)

    def fill(d):
        q = Permutation()
        for k, v in d.items(): q[k] = v
        return q

    n = r.randint(0, 6)
    keys, vals = r.sample(range(8), n), r.sample(range(8), n)
    d = dict(zip(keys, vals))
    p = build(d)
    t.ev(e="pnew", items=[list(x) for x in d.items()])
    pobs()
    for _ in range(12):
        c = r.randrange(8)
        k = r.randrange(8)
        if c <= 1:
            v, err = tries(lambda: p[k], KeyError)
            t.ev(e="pget", i=k, err=err, r=-1 if err else v)
        elif c == 2:
            v = r.randrange(8)
            p[k] = v
            t.ev(e="pset", i=k, v=v)
        elif c == 3:
            def rem(): del p[k]
            _, err = tries(rem, KeyError)
            t.ev(e="pdel", i=k, err=err)
        elif c == 4 and r.random() < .3:
            p.clear()
            t.ev(e="pclear")
        elif c == 5:
            keys = [int(x) for x in p] or list(range(4))
            q = r.sample(keys, r.randint(0, len(keys)))
            if r.random() < .5: t.ev(e="papp", q=q, r=p.apply(q))
            elif len({p[x] if len(p) else x for x in q}) == len(q):
                cs = [(x, r.randrange(2)) for x in q]
                got = p.apply({Control(x, Control.Type.Pos if b else Control.Type.Neg) for x, b in cs})
                t.ev(e="pappc", q=cs, r=[[x.qubit, int(x.type_ == Control.Type.Pos)] for x in got])
        elif c == 6:
            o = dict(p.items())
            if r.random() < .5 and o: o[r.choice(list(o))] = r.randrange(8)
            if r.random() < .2: o[r.randrange(8)] = r.randrange(8)
            o = dict(r.sample(list(o.items()), len(o)))
            w = build(o)
            t.ev(e="peq", items=[list(x) for x in o.items()], eq=p == w, ne=p != w, h=hash(p) == hash(w))
        pobs()


def attr_case(r, t):
    t.note("attributes")
    n, nc = r.randint(0, 5), r.randint(0, 3)
    qc = QuantumComputation(n, nc) if r.random() < .5 else QuantumComputation(nq=n, nc=nc)
    t.ev(e="anew", n=n, nc=nc)

    def regs(d):
        for k, g in d.items():
            if k != g.name: raise ValueError("name of a register")
        return [[g.name, g.start, g.size] for g in d.values()]

    def ph(x): return round(x / (math.pi / 16)) % 32

    def obs():
        N = qc.num_qubits
        t.ev(e="aobs", n=N, nc=qc.num_classical_bits, ph=ph(qc.global_phase), na=qc.num_ancilla_qubits, ng=qc.num_garbage_qubits,
             nd=qc.num_data_qubits, nm=qc.num_measured_qubits, anc=list(qc.ancillary), ancq=[qc.is_circuit_qubit_ancillary(q) for q in range(N)],
             gar=list(qc.garbage), garq=[qc.is_circuit_qubit_garbage(q) for q in range(N)], qr=regs(qc.qregs), cr=regs(qc.cregs), ar=regs(qc.ancregs))
        t.flag([(int(x), qc.initial_layout[x]) for x in qc.initial_layout] == [(q, q) for q in range(N)], "initial layout")

    obs()
    for _ in range(10):
        c, N = r.randrange(8), qc.num_qubits
        if c == 0:
            v = r.randint(-40, 40)
            qc.global_phase = v * math.pi / 16
            t.ev(e="aphase", set=True, v=v)
        elif c == 1:
            v = r.randint(-40, 40)
            qc.gphase(v * math.pi / 16)
            t.ev(e="aphase", set=False, v=v)
        elif c in (2, 3) and N < 9:
            kind = r.choice("qqca")
            f, default = {"q": (qc.add_qubit_register, "q"), "c": (qc.add_classical_register, "c"), "a": (qc.add_ancillary_register, "anc")}[kind]
            name, size = r.choice(["q", "r", "c", "d", "anc", "b"]), r.randint(1, 3)
            if r.random() < .3: g, err = tries(lambda: f(size), RuntimeError); name = default
            elif r.random() < .5: g, err = tries(lambda: f(size, name), RuntimeError)
            else: g, err = tries(lambda: f(n=size, name=name), RuntimeError)
            t.ev(e="areg", kind=kind, name=name, size=size, err=err, r=[] if err else [g.name, g.start, g.size])
        elif c in (4, 5) and N:
            lo = r.randrange(N)
            hi = r.randint(lo, N - 1)
            if r.random() < .5: hi = lo
            if c == 4: qc.set_circuit_qubit_ancillary(lo) if lo == hi and r.random() < .7 else qc.set_circuit_qubits_ancillary(lo, hi)
            else: qc.set_circuit_qubit_garbage(lo) if lo == hi and r.random() < .7 else qc.set_circuit_qubits_garbage(lo, hi)
            t.ev(e="aanc" if c == 4 else "agar", lo=lo, hi=hi)
        elif c == 6:
            x = r.choice(["a", "some name", ""])
            qc.name = x
            t.flag(qc.name == x, "name of a circuit")
        else:
            s, z = r.randint(0, 6), r.randint(1, 4)
            g = r.choice([QuantumRegister, ClassicalRegister])
            a = g(s, z, "w") if r.random() < .5 else g(start=0, size=1, name="w")
            a.start, a.size = s, z
            at = [tries(lambda: a[j], IndexError) for j in range(z + 2)]
            t.ev(e="reg", g=[a.start, a.size], end=a.end, at=[-1 if err else v for v, err in at], **{"in": [j in a for j in range(12)]})
            b, d = g(s, z, "w"), g(s + 1, z, "w")
            t.flag(a == b and hash(a) == hash(b) and a != d and not a == d and not a != b, "equality of registers")
            qc2 = r.choice([Control(s), Control(s, Control.Type.Pos), Control(qubit=s)])
            t.flag(qc2 == Control(s) and qc2 != Control(s, Control.Type.Neg) and hash(qc2) == hash(Control(s)) and len({qc2, Control(s), Control(s, Control.Type.Neg)}) == 2
                   and bool(Control.Type.Pos) and not bool(Control.Type.Neg), "controls")
        obs()


# ---------------------------------------------------------------- construction
def ctl(r, q, b):
    if b and r.random() < .5: return q
    return Control(q, Control.Type.Pos if b else Control.Type.Neg)


def call(r, f, names, args):
    """positional and keyword arguments alike"""
    k = r.choice([len(args), 0, r.randint(0, len(args))])
    f(*args[:k], **dict(zip(names[k:], args[k:])))


class Sym:
    """parameters are sometimes given as expressions in variables whose values are known"""
    def __init__(self, r):
        self.vals, self.used = {}, set()
        if r.random() < .3: self.vals = {v: r.randint(-8, 8) * math.pi / 8 for v in VARS[:3]}
        self.p = .6 if self.vals else 0

    def of(self, r, a):
        if r.random() >= self.p: return a
        v, c = r.choice(list(self.vals)), r.choice([1, 2, -1, .5])
        self.used.add(v)
        return Expression(Term(v, c), a - c * self.vals[v])


def build_gate(r, qc, g, tg, cs, p, sy=None):
    if sy and p: p = [sy.of(r, a) for a in p]
    pre = "" if not cs else "c" if len(cs) == 1 and r.random() < .6 else "mc"
    names, args = list(PN.get(g, ())), list(p)
    if pre == "c": names.append("control"); args.append(ctl(r, *cs[0]))
    if pre == "mc": names.append("controls"); args.append({ctl(r, *c) for c in cs})
    if len(tg) == 1: names.append("target" if pre else "q")
    else: names += ["target1", "target2"]
    call(r, getattr(qc, pre + g), names, args + list(tg))


def std_op(r, g, tg, cs, p):
    """the operation, constructed on its own"""
    ty = getattr(OpType, g)
    full = len(cs) != 1 or r.random() < .5
    if not cs and r.random() < .5: c = []
    elif full: c = [{Control(q, Control.Type.Pos if b else Control.Type.Neg) for q, b in cs}]
    else: c = [Control(cs[0][0], Control.Type.Pos if cs[0][1] else Control.Type.Neg)]
    x = list(tg) if len(tg) == 2 or r.random() < .4 else tg[0]
    return StandardOperation(*c, x, ty, list(p)) if p or r.random() < .5 else StandardOperation(*c, x, ty)


BUILD = [*ONE, *ONEP, *(x for x in TWO if x not in ("iswapdg",)), *TWOP]


def free_vars(op):
    if isinstance(op, CompoundOperation): return {v for o in op for v in free_vars(o)}
    if isinstance(op, ClassicControlledOperation): return free_vars(op.operation)
    if isinstance(op, SymbolicOperation): return {v for a in op.get_parameters() if isinstance(a, Expression) for v in a.variables}
    return set()


def build_case(i, r, t):
    n = r.randint(2, 4)
    dyn = r.random() < .4
    sy = Sym(r)
    nc = r.randint(1, 3) if dyn else 0
    qc = QuantumComputation(n, nc)
    t.case(n, nc, f"construction on {n} qubits", "b" if dyn else "id", **({"b": 0} if dyn else {}))
    meas = set()
    for _ in range(r.randint(2, 7)):
        c = r.randrange(100)
        if dyn and c < 18:
            k = r.randint(1, min(n, nc))
            qs, bs = r.sample(range(n), k), r.sample(range(nc), k)
            for q, b in zip(qs, bs): t.measure(1, q, b)
            how = r.randrange(3)
            if how == 0 or k > 1 and how == 1: call(r, qc.measure, ["qubits", "cbits"], [qs, bs])
            elif k == 1 and how == 1: call(r, qc.measure, ["qubit", "cbit"], [qs[0], bs[0]])
            else: qc.append(NonUnitaryOperation(qs, bs) if k > 1 or r.random() < .5 else NonUnitaryOperation(qs[0], bs[0]))
        elif dyn and c < 26:
            qs = r.sample(range(n), r.randint(1, n))
            for q in qs: t.reset(1, q)
            how = r.randrange(3)
            if how == 0 and len(qs) == 1: call(r, qc.reset, ["q"], qs)
            elif how <= 1: call(r, qc.reset, ["qubits"], [qs])
            else: qc.append(NonUnitaryOperation(qs, OpType.reset) if r.random() < .5 else NonUnitaryOperation(qs))
        elif dyn and c < 50:
            g, tg, cs, p = gate(r, n, [*ONE, "rx", "ry", "rz", "p"])
            cmp = r.choice(["eq", "eq", "neq", "lt", "leq", "gt", "geq"])
            sym = {"eq": "==", "neq": "!=", "lt": "<", "leq": "<=", "gt": ">", "geq": ">="}[cmp]
            whole = r.random() < .5
            b = r.randrange(nc)
            v = r.randint(0, 2 ** (nc if whole else 1) - 1)
            if not whole and cmp not in ("eq", "neq"): cmp, sym = "eq", "=="
            reg = qc.cregs["c"]
            cond = [[0, nc, sym, v]] if whole else [[b, 1, sym, v]]
            t.op(1, g, tg, cs, p, cond)
            kind = getattr(ComparisonKind, cmp)
            if r.random() < .6:
                names, args = ["op", "target"], [getattr(OpType, g), tg[0]]
                if cs:
                    if len(cs) == 1 and r.random() < .5: names.append("control"); args.append(Control(cs[0][0], Control.Type.Pos if cs[0][1] else Control.Type.Neg))
                    else: names.append("controls"); args.append({Control(q, Control.Type.Pos if x else Control.Type.Neg) for q, x in cs})
                names.append("creg" if whole else "cbit"); args.append(reg if whole else b)
                if not (v == 1 and cmp == "eq" and not p and r.random() < .5):
                    names += ["expected_value", "comparison_kind", "params"]
                    args += [v, kind, list(p)]
                call(r, qc.classic_controlled, names, args)
            else:
                o = std_op(r, g, tg, cs, p)
                x = ClassicControlledOperation(operation=o, control_register=reg, expected_value=v, comparison_kind=kind) if whole else \
                    ClassicControlledOperation(o, b, v, kind)
                t.flag(x.is_classic_controlled_operation() and not x.is_unitary() and
                       (x.control_register == reg if whole else x.control_bit == b), "what a condition consists of")
                qc.append(x)
        elif c < 54:
            how = r.randrange(3)
            qc.barrier() if how == 0 else qc.barrier(r.randrange(n)) if how == 1 else qc.barrier(r.sample(range(n), r.randint(1, n)))
        elif c < 60:
            a = angle(r)
            t.phase(1, a)
            if r.random() < .5: qc.gphase(a)
            else: qc.global_phase += a
        else:
            g, tg, cs, p = gate(r, n, BUILD)
            if r.random() < .6:
                t.op(1, g, tg, cs, p)
                build_gate(r, qc, g, tg, cs, p, sy)
                continue
            if p and r.random() < sy.p:
                x = SymbolicOperation({Control(q, Control.Type.Pos if b else Control.Type.Neg) for q, b in cs}, list(tg), getattr(OpType, g), [sy.of(r, a) for a in p])
                t.flag(x.is_symbolic_operation() == any(isinstance(a, Expression) for a in x.get_parameters()), "kind of a symbolic operation")
                t.op(1, g, tg, cs, p)
                if r.random() < .3: x = x.get_instantiated_operation(sy.vals)
                elif r.random() < .3: x.instantiate(sy.vals)
                qc.append(x)
                continue
            o = std_op(r, g, tg, cs, p)
            e = r.randrange(7)
            if e == 1:  # other controls
                o.clear_controls()
                cs = [(q, r.randrange(2)) for q in r.sample([q for q in range(n) if q not in tg], r.randint(0, n - len(tg)))]
                cc = [Control(q, Control.Type.Pos if b else Control.Type.Neg) for q, b in cs]
                if r.random() < .5: o.controls = set(cc)
                elif r.random() < .5: o.add_controls(set(cc))
                else:
                    for x in cc: o.add_control(x)
            elif e == 2 and cs:
                j = r.randrange(len(cs))
                x = Control(cs[j][0], Control.Type.Pos if cs[j][1] else Control.Type.Neg)
                o.remove_control(x) if r.random() < .5 else o.remove_controls({x})
                cs = cs[:j] + cs[j + 1:]
            elif e == 3 and p:
                p = [angle(r) for _ in p]
                if getattr(OpType, g) == o.type_: o.parameter = p
                else: o = std_op(r, g, tg, cs, p)
            elif e == 4:
                tg = r.sample([q for q in range(n) if q not in [c[0] for c in cs]], len(tg))
                o.targets = tg
            t.flag(set(o.get_used_qubits()) == set(tg) | {q for q, _ in cs} and all(o.acts_on(q) == (q in tg or q in [c[0] for c in cs]) for q in range(n))
                   and o.num_targets == len(tg) and o.num_controls == len(cs) and o.is_controlled() == bool(cs) and o.is_unitary()
                   and o.is_standard_operation(), "what an operation consists of")
            s = len(qc)
            if e == 5:
                x = CompoundOperation([o]) if r.random() < .5 else CompoundOperation([o, std_op(r, "x", [0], [], [])])
                t.op(1, g, tg, cs, p)
                if len(x) == 2: t.op(1, "x", [0])
                qc.append(x)
            elif e == 6:
                v = o.get_inverted()
                w = std_op(r, g, tg, cs, p)
                w.invert()
                t.flag(v == w and (v != o or v == o) and hash(v) == hash(w), "inverses agree")
                t.op(1, g, tg, cs, p)
                qc.insert(s, v)
                qc.insert(s, o)
                qc.append(o)
            else:
                t.op(1, g, tg, cs, p)
                qc.append(o)
    if sy.vals:
        open_ = {v for o in qc for v in free_vars(o)}
        t.flag(qc.is_variable_free() == (not open_) and open_ <= set(qc.variables) <= sy.used, "variables of a circuit")
        if r.random() < .5: qc.instantiate_inplace(sy.vals)
        else:
            n0 = str(qc)
            qd = qc.instantiate(sy.vals)
            t.flag(str(qc) == n0, "instantiation leaves the circuit alone")
            qc = qd
        t.flag(qc.is_variable_free() and not any(free_vars(o) for o in qc), "no variables are left")
    if dyn:
        t.phase(2, qc.global_phase)
        emit_mqt(t, 2, qc)
        t.cmp("stats", TOL)
        return
    t.phase(2, qc.global_phase)
    emit_mqt(t, 2, qc)
    t.cmp("eq", TOL)
    c = r.randrange(5)
    if c == 4:  # files
        with tempfile.TemporaryDirectory() as d:
            f = d + "/c.qasm"
            v3 = r.random() < .5
            text = qc.qasm3_str() if v3 else qc.qasm2_str()
            (qc.qasm3 if v3 else qc.qasm2)(f)
            with open(f) as h: t.flag(h.read() == text, "text of a file")
            qd = QuantumComputation.from_qasm(f) if r.random() < .5 else QuantumComputation.from_qasm_str(text)
        t.case(n, 0, "through a file")
        t.phase(1, qc.global_phase)
        emit_mqt(t, 1, qc)
        t.phase(2, qd.global_phase)
        emit_mqt(t, 2, qd)
        t.cmp("phase", TOL)
    if c <= 1 and n <= 3:
        m = np.array(dd.build_unitary(qc, recursive=True) if c else dd.build_unitary(qc), copy=False)
        t.ev(e="obs", s=1, rel="eq", tol=TOL, d=flat(m.T.reshape(-1)))
    if c == 2:
        qc.invert()
        t.ev(e="adj", s=1)
        t.phase(2, 0)
        t.case(n, 0, "inverse and forward")
        t.phase(1, qc.global_phase)
        emit_mqt(t, 1, qc)
        t.ev(e="adj", s=1)
        qc.invert()
        t.phase(2, qc.global_phase)
        emit_mqt(t, 2, qc)
        t.cmp("eq", TOL)
    if c == 3:
        t.case(n, 0, "state vector", "b", b=0)
        t.phase(1, qc.global_phase)
        emit_mqt(t, 1, qc)
        t.ev(e="obs", s=1, rel="eq", tol=TOL, d=flat(np.array(dd.simulate_statevector(qc), copy=False)))
        t.ev(e="obs", s=1, rel="eq", tol=TOL, d=held(r, qc))
        shots = r.randint(1, 40)
        res = dd.sample(qc, shots, 1 + r.randrange(1000)) if r.random() < .5 else dd.sample(qc=qc, shots=shots)
        t.flag(sum(res.values()) == shots and all(len(x) == n for x in res), "number of shots")
        for x in res: t.ev(e="supp", s=1, i=int(x, 2))


def held(r, qc):
    """simulate in a package that nothing but the results refers to"""
    n = qc.num_qubits
    p = dd.DDPackage(n)
    z = p.zero_state(n)
    v = dd.simulate(qc, z, p)
    del z, p
    gc.collect()
    junk = [dd.DDPackage(n).zero_state(n) for _ in range(3)]
    del junk
    return flat(np.array(v.get_vector(), copy=True)) if r.random() < .5 else flat([v[k] for k in range(2 ** n)])


def flat(v): return [fix(x) for z in v for x in (complex(z).real, complex(z).imag)]


# ---------------------------------------------------------------- expressions
VARS = [Variable(x) for x in ("alpha", "beta", "gamma", "delta")]
VI = {"alpha": 0, "beta": 1, "gamma": 2, "delta": 3}


def u(x): return round(x * 4096)


def expr_case(i, r, t):
    consts, factors, divisors = [0, 1, -1, .5, 2, 3, -.25, 1.75], [1, -1, 2, .5, 3, -2, 0, 4, .25], [1, -1, 2, .5, -2, 4, .25]
    bank = {}
    t.note("expression history")

    def terms(e): return [[VI[x.variable.name], u(x.coefficient)] for x in e]

    def obs(k):
        e = bank[k]
        t.ev(e="obs", k=k, ts=terms(e), c=u(e.constant), zero=e.is_zero(), const=e.is_constant(), vars=sorted(VI[v.name] for v in e.variables))
        t.flag([[VI[x.variable.name], u(x.coefficient)] for x in e.terms] == terms(e) == [[VI[e[j].variable.name], u(e[j].coefficient)] for j in range(len(e))]
               and len(e) == e.num_terms() and tries(lambda: e[len(e)], IndexError)[1], "terms of an expression")

    def fresh(k):
        ts = [(r.randrange(4), r.choice(consts)) for _ in range(r.randint(0, 4))]
        c = r.choice(consts)
        tt = [Term(VARS[v], a) if a != 1 or r.random() < .5 else Term(VARS[v]) for v, a in ts]
        if not ts and r.random() < .5: bank[k] = Expression(c) if r.random() < .7 else Expression(constant=c)
        elif len(ts) == 1 and r.random() < .6: bank[k] = Expression(tt[0], c)
        elif c == 0: bank[k] = Expression(tt)
        else: bank[k] = Expression(terms=tt, constant=c)
        t.ev(e="new", k=k, ts=[[v, u(a)] for v, a in ts], c=u(c))
        obs(k)

    for k in range(6): fresh(k)
    for _ in range(25):
        k, i, j = r.randrange(6), r.randrange(6), r.randrange(6)
        x, y = bank[i], bank[j]
        v, a, op, quarter = 0, 0, "", False
        c = r.randrange(12)
        a = r.choice(divisors if c == 3 else factors if c == 2 else consts)
        if c in (7, 8, 9):
            v = r.randrange(4)
            a = a or 1
        T = Term(VARS[v], a) if c in (7, 8, 9) else None
        if T and r.random() < .3:  # terms are scaled and built up
            T = Term(VARS[v], a / 2) * 2 if r.random() < .4 else 2 * Term(VARS[v], a / 2) if r.random() < .5 else Term(VARS[v], 2 * a) / 2
        if T and r.random() < .2:
            T = Term(VARS[v], a - 1)
            T.add_coefficient(1)
        if c == 0: op, res = "add", x + y
        elif c == 1: op, res = "sub", x - y
        elif c == 2: op, res, quarter = "mul", x * a if r.random() < .5 else a * x, True
        elif c == 3: op, res, quarter = "div", x / a, True
        elif c == 4: op, res = "addc", x + a if r.random() < .5 else a + x
        elif c == 5: op, res = "subc", x - a
        elif c == 6: op, res = "csub", a - x
        elif c == 7: op, res = "addt", x + T if r.random() < .5 else T + x
        elif c == 8: op, res = "subt", x - T
        elif c == 9: op, res = "tsub", T - x
        elif c == 10:
            op, res = "setc", x + 0.0
            res.constant = a
        else: op, res = "copy", x + 0.0
        if any(abs(z) > 200 or z * 1024 != round(z * 1024) for z in [res.constant, *(q.coefficient for q in res)]):
            fresh(k)
            continue
        bank[k] = res
        t.ev(e="op", op=op, k=k, i=i, j=j, v=v, a=round(a * 4) if quarter else u(a))
        obs(k)
        p, q = r.randrange(6), k
        t.ev(e="eq", i=p, j=q, r=bank[p] == bank[q], h=hash(bank[p]) == hash(bank[q]))
        t.flag((bank[p] == bank[q]) != (bank[p] != bank[q]), "equal or not")
        if r.random() < .5:
            dom = r.sample(range(4), r.randint(0, 4)) if r.random() < .4 else list(range(4))
            vals = [r.randint(-4, 4) if z in dom else 0 for z in range(4)]
            val, err = tries(lambda: bank[k].evaluate({VARS[z]: vals[z] / 4 for z in dom}), ValueError)
            t.ev(e="eval", i=k, dom=dom, **{"as": vals}, err=err, r=0 if err else u(val))
    a, b = r.sample(range(4), 2)
    va, vb, vc = VARS[a], VARS[b], Variable(list(VI)[a])
    t.flag(va == vc and hash(va) == hash(vc) and va != vb and not va == vb and (va < vb) != (va > vb) and len({va, vb, vc}) == 2, "variables")
    c = r.choice(factors)
    t.flag(Term(va, c) == Term(vc, c) and Term(va, 1) != Term(vb, 1) and Term(va, 1) != Term(va, 2) and Term(va, c).has_zero_coefficient() == (c == 0)
           and hash(Term(va, c)) == hash(Term(vc, c)) and Term(va, c).evaluate({vc: 3.0}) == 3 * c, "terms")


def div_probe(i, r, t):
    """a number divided by an expression (a known finding)"""
    t.note("2 / (4*alpha) for alpha = 1")
    for x in (Expression(Term(VARS[0], 4)), Term(VARS[0], 4)):
        y, err = tries(lambda: 2.0 / x, (TypeError, ValueError, RuntimeError))
        t.flag(err or abs(y.evaluate({VARS[0]: 1.0}) - .5) < 1e-9, "a number divided by an expression is what mathematics says, or rejected")


# ---------------------------------------------------------------- decision diagrams
DTOL = 800
STATES = {"zero": (1, 0), "one": (0, 1), "plus": (.5 ** .5, .5 ** .5), "minus": (.5 ** .5, -.5 ** .5), "right": (.5 ** .5, 1j * .5 ** .5), "left": (.5 ** .5, -1j * .5 ** .5)}


class H:
    def __init__(self, k, n, e, h, x): self.k, self.n, self.e, self.h, self.x = k, n, e, h, x


def dd_case(i, r, t):
    N = r.randint(1, 3)
    p = dd.DDPackage(N + 1) if r.random() < .5 else dd.DDPackage(num_qubits=1)
    if p.max_qubits < N + 1: p.resize(N + 1)
    t.ev(e="pkg")
    t.flag(p.max_qubits == N + 1, "number of qubits of the package")
    hs, nxt = [], [0]

    def dense(k, n, e):
        if k == "v":
            v = np.array(e.get_vector(), copy=True) if n else np.array([1])
            return v.reshape(-1)
        return np.array(e.get_matrix(n), copy=True).T.reshape(-1)

    def put(ev, _k, n, e, **kw):
        k = _k
        if ev != "dd" or kw["f"] == "embed": kw["n"] = n
        x = dense(k, n, e)
        if len(x) != 2 ** (n if k == "v" else 2 * n) or np.abs(x).max() > 3:
            if len(x) != 2 ** (n if k == "v" else 2 * n) and not e.is_zero_terminal(): t.flag(False, f"{ev}: wrong size {len(x)}")
            return None
        nxt[0] += 1
        t.ev(e=ev, h=nxt[0], tol=DTOL, d=flat(x), **kw)
        (p.inc_ref_vec if k == "v" else p.inc_ref_mat)(e)
        hs.append(H(k, n, e, nxt[0], x))
        return hs[-1]

    def pick(k, n=None):
        c = [h for h in hs if h.k == k and (n is None or h.n == n)]
        return r.choice(c) if c else None

    def scalar(f, a, z, **kw):
        if abs(z) < 6: t.ev(e="sc", f=f, a=a, re=fix(complex(z).real), im=fix(complex(z).imag), tol=4000, **kw)

    def rvec(n):
        v = np.array([complex(r.randint(-1, 1), r.randint(-1, 1)) if r.random() < .5 else complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(2 ** n)])
        if np.abs(v).max() == 0: v[r.randrange(2 ** n)] = 1
        return v / np.linalg.norm(v)

    def new_vec():
        n = r.randint(1, N)
        c = r.randrange(6)
        x = np.zeros(2 ** n, complex)
        if c == 0:
            x[0] = 1
            e = p.zero_state(n)
        elif c == 1:
            b = [r.random() < .5 for _ in range(n)]
            x[sum(2 ** j for j in range(n) if b[j])] = 1
            e = p.computational_basis_state(n, b)
        elif c == 2:
            b = [r.choice(list(STATES)) for _ in range(n)]
            x = np.array([1])
            for s in b: x = np.kron(np.array(STATES[s]), x)
            e = p.basis_state(num_qubits=n, state=[getattr(dd.BasisStates, s) for s in b])
        elif c == 3:
            x[0] = x[-1] = .5 ** .5
            e = p.ghz_state(n)
        elif c == 4:
            for j in range(n): x[2 ** j] = n ** -.5
            e = p.w_state(n)
        else:
            x = rvec(n)
            if r.random() < .3:  # a view that is not contiguous
                y = np.zeros(2 * len(x), complex)
                y[::2] = x
                e = p.from_vector(y[::2])
            else: e = p.from_vector(x)
        put("new", "v", n, e, k="v", x=flat(x))

    def u2(k):
        m = np.array([[complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(k)] for _ in range(k)])
        return np.linalg.qr(m)[0]

    def new_mat():
        n = r.randint(1, N)
        c = r.randrange(7)
        if c == 0:
            m = u2(2 ** n) if r.random() < .6 else np.array([[r.randint(-1, 1) for _ in range(2 ** n)] for _ in range(2 ** n)], complex) / 2
            if r.random() < .3: m = np.asfortranarray(m)
            if np.abs(m).max() == 0: return
            put("new", "m", n, p.from_matrix(m), k="m", x=flat(m.T.reshape(-1)))
        elif c == 1:
            put("new", "m", n, dd.DDPackage.identity(), k="m", x=flat(np.eye(2 ** n).reshape(-1)))
        elif c <= 3:
            g, tg, cs, pa = gate(r, n, BUILD if n > 1 else [*ONE, *ONEP])
            o = std_op(r, g, tg, cs, pa)
            inv = r.random() < .3
            op = dict(g=g, t=tg, c=cs, p=[[fix(math.cos(a / 2)), fix(math.sin(a / 2)), fix(math.cos(a)), fix(math.sin(a))] for a in pa])
            h = put("gate", "m", n, p.from_operation(o), ops=[op])
            if inv and h: put("dd", "m", n, p.from_operation(o, invert=True), f="adj", a=[h.h])
        else:  # gates from matrices
            two = n > 1 and r.random() < .5
            m = u2(4 if two else 2)
            q = r.sample(range(n), n)
            tg, rest = q[:2 if two else 1], q[2 if two else 1:]
            cs = [(z, r.randrange(2)) for z in rest[:r.randint(0, len(rest))]]
            cc = [Control(z, Control.Type.Pos if b else Control.Type.Neg) for z, b in cs]
            arr = m if r.random() < .7 else [[complex(z) for z in row] for row in m]
            pre = "two" if two else "single"
            if not cs: e = getattr(p, pre + "_qubit_gate")(arr, *tg)
            elif len(cs) == 1 and r.random() < .6: e = getattr(p, "controlled_" + pre + "_qubit_gate")(arr, cc[0], *tg)
            else: e = getattr(p, "multi_controlled_" + pre + "_qubit_gate")(arr, set(cc), *tg)
            put("dd", "m", n, e, f="embed", t=tg, c=cs, x=flat(m.T.reshape(-1)))

    for _ in range(14):
        c = r.randrange(22) if len(hs) > 3 else r.randrange(2)
        n = r.choice(hs).n if hs else 1
        v, w, m, o = pick("v", n), pick("v", n), pick("m", n), pick("m", n)
        if c == 0: new_vec()
        elif c == 1: new_mat()
        elif c == 2 and v: put("dd", "v", n, p.vector_add(v.e, w.e), f="add", a=[v.h, w.h])
        elif c == 3 and m: put("dd", "m", n, p.matrix_add(lhs=m.e, rhs=o.e), f="add", a=[m.h, o.h])
        elif c == 4 and m and v: put("dd", "v", n, p.matrix_vector_multiply(m.e, v.e), f="mv", a=[m.h, v.h])
        elif c == 5 and m: put("dd", "m", n, p.matrix_multiply(m.e, o.e), f="mm", a=[m.h, o.h])
        elif c == 6 and v: put("dd", "v", n, p.conjugate(v.e), f="conj", a=[v.h])
        elif c == 7 and m: put("dd", "m", n, p.conjugate_transpose(m.e), f="adj", a=[m.h])
        elif c == 8 and v:
            w = pick("v")
            if v.n + w.n <= N + 1 and v.n + w.n <= 3: put("dd", "v", v.n + w.n, p.vector_kronecker(v.e, w.e, w.n), f="vkron", a=[v.h, w.h])
        elif c == 9 and m:
            o = pick("m")
            if m.n + o.n <= N + 1 and m.n + o.n <= 3: put("dd", "m", m.n + o.n, p.matrix_kronecker(top=m.e, bottom=o.e, bottom_num_qubits=o.n), f="mkron", a=[m.h, o.h])
        elif c == 10 and m and not m.e.is_terminal():
            el = [r.random() < .45 for _ in range(n)]
            if not all(el): put("dd", "m", n - sum(el), p.partial_trace(m.e, el), f="ptrace", a=[m.h], el=[int(b) for b in el])
        elif c == 11 and v: scalar("inner", [v.h, w.h], p.inner_product(v.e, w.e))
        elif c == 12 and v: scalar("fid", [v.h, w.h], p.fidelity(v.e, w.e))
        elif c == 13 and m: scalar("trace", [m.h], p.trace(m.e, n))
        elif c == 14 and m and v and not m.e.is_terminal():
            # observables are Hermitian
            hm = (m.x.reshape(2 ** n, 2 ** n) + m.x.reshape(2 ** n, 2 ** n).conj().T) / 2
            if np.abs(hm).max() < .05: continue
            ob = put("new", "m", n, p.from_matrix(hm.T.copy()), k="m", x=flat(hm.reshape(-1)))
            if ob and not ob.e.is_terminal(): scalar("exp", [ob.h, v.h], p.expectation_value(observable=ob.e, state=v.e))
        elif c == 15 and v:
            k = r.randrange(2 ** n)
            scalar("elem", [v.h], v.e[k], r=k)
            scalar("elem", [v.h], v.e.get_amplitude(n, "".join(str(k >> j & 1) for j in range(n))), r=k)
            if not v.e.is_terminal(): t.flag(tries(lambda: v.e[2 ** n + r.randrange(5)], IndexError)[1], "positions beyond the end of a state")
        elif c == 16 and m:
            a, b = r.randrange(2 ** n), r.randrange(2 ** n)
            scalar("elem", [m.h], m.e.get_entry(n, a, b), r=a, c=b)
            scalar("elem", [m.h], m.e.get_entry_by_path(n, "".join(str(2 * (a >> j & 1) + (b >> j & 1)) for j in range(n))), r=a, c=b)
        elif c == 17:  # collection leaves what is held alone
            if r.random() < .6 and len(hs) > 2:
                g = hs.pop(r.randrange(len(hs)))
                (p.dec_ref_vec if g.k == "v" else p.dec_ref_mat)(g.e)
            p.garbage_collect(force=True)
            t.ev(e="gc", obs=[[h.h, flat(dense(h.k, h.n, h.e))] for h in hs])
        elif c == 18 and v and not v.e.is_terminal():
            g, tg, cs, pa = gate(r, n, BUILD if n > 1 else [*ONE, *ONEP])
            op = std_op(r, g, tg, cs, pa)
            perm = r.sample(range(n), n) if r.random() < .5 else list(range(n))
            f = Permutation(dict(enumerate(perm)))
            h = put("gate", "m", n, p.from_operation(std_op(r, g, [perm[q] for q in tg], [(perm[q], b) for q, b in cs], pa)),
                    ops=[dict(g=g, t=[perm[q] for q in tg], c=[(perm[q], b) for q, b in cs],
                              p=[[fix(math.cos(a / 2)), fix(math.sin(a / 2)), fix(math.cos(a)), fix(math.sin(a))] for a in pa])])
            if not h: continue
            p.inc_ref_vec(v.e)  # the application consumes a reference
            e = p.apply_unitary_operation(v.e, op, f) if perm != list(range(n)) or r.random() < .5 else p.apply_unitary_operation(v.e, op)
            put("dd", "v", n, e, f="mv", a=[h.h, v.h])
            p.dec_ref_vec(e)
        elif c == 19 and v and not v.e.is_terminal() and abs(np.linalg.norm(v.x) - 1) < 1e-6:
            res = p.measure_all(v.e) if r.random() < .5 else p.measure_all(v.e, collapse=False)
            k = int(res, 2)
            t.flag(len(res) == n and abs(v.x[k]) > 1e-4, "measured outcomes have a non-zero amplitude")
        elif c == 20 and v and not v.e.is_terminal() and abs(np.linalg.norm(v.x) - 1) < 1e-6:
            q = r.randrange(n)
            e = p.from_vector(v.x)
            b = int(p.measure_collapsing(e, q))
            put("dd", "v", n, e, f="proj", a=[v.h], q=q, b=b)
            p.dec_ref_vec(e)
        elif c == 21 and v and not v.e.is_terminal() and abs(np.linalg.norm(v.x) - 1) < 1e-6:
            q, nb = r.randrange(n), r.randint(1, 3)
            bits = [r.random() < .5 for _ in range(nb)]
            k = r.randrange(nb)
            e = p.from_vector(v.x)
            e, out = p.apply_measurement(e, NonUnitaryOperation(q, k), bits)
            t.flag([bool(b) for j, b in enumerate(out) if j != k] == [b for j, b in enumerate(bits) if j != k] and len(out) == nb, "bits after a measurement")
            h = put("dd", "v", n, e, f="proj", a=[v.h], q=q, b=int(out[k]))
            op = ClassicControlledOperation(StandardOperation(q, OpType.x), k, 1)
            e = p.apply_classic_controlled_operation(e, op, out)
            h = put("dd", "v", n, e, f="flip", a=[h.h], q=q, b=int(out[k]))
            e = p.apply_reset(e, NonUnitaryOperation([q]))
            put("dd", "v", n, e, f="same", a=[h.h])
            p.dec_ref_vec(e)
    # results keep their package alive
    k = r.randrange(3)
    n = N
    if k == 0:
        qc = QuantumComputation(n)
        x = np.eye(2 ** n)
        ops = []
        for _ in range(3):
            g, tg, cs, pa = gate(r, n, ["x", "h", "s", "t", "rx", "z"])
            build_gate(r, qc, g, tg, cs, pa)
            ops.append(dict(g=g, t=tg, c=cs, p=[[fix(math.cos(a / 2)), fix(math.sin(a / 2)), fix(math.cos(a)), fix(math.sin(a))] for a in pa]))
        q = dd.DDPackage(n)
        e = dd.build_functionality(qc, q, recursive=r.random() < .5)
        del q
        gc.collect()
        junk = [dd.DDPackage(2).ghz_state(2) for _ in range(3)]
        t.ev(e="gate", n=n, ops=ops, h=nxt[0] + 1, tol=DTOL, d=flat(dense("m", n, e)))
        del junk


if __name__ == "__main__":
    main({"seq": seq_case, "build": build_case, "expr": expr_case, "divprobe": div_probe, "dd": dd_case})
