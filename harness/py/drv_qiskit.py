"""Qiskit circuits <-> MQT circuits (C29)."""
import warnings
from vf import *
warnings.simplefilter("ignore")
from qiskit.circuit import AncillaRegister, ClassicalRegister, ControlledGate, Parameter, ParameterVector, QuantumCircuit, QuantumRegister
from qiskit.circuit import library as L
from qiskit.transpiler.layout import Layout, TranspileLayout
from mqt.core.ir import Permutation, QuantumComputation
from mqt.core.ir.operations import ClassicControlledOperation, CompoundOperation, Control, NonUnitaryOperation, OpType, StandardOperation
from mqt.core.plugins.qiskit import mqt_to_qiskit, qiskit_to_mqt

TOL = 40000
# Qiskit's gates and the gates of the specification they denote
QK = {"id": (L.IGate, "i"), "x": (L.XGate, "x"), "y": (L.YGate, "y"), "z": (L.ZGate, "z"), "h": (L.HGate, "h"), "s": (L.SGate, "s"),
      "sdg": (L.SdgGate, "sdg"), "t": (L.TGate, "t"), "tdg": (L.TdgGate, "tdg"), "sx": (L.SXGate, "sx"), "sxdg": (L.SXdgGate, "sxdg"),
      "rx": (L.RXGate, "rx"), "ry": (L.RYGate, "ry"), "rz": (L.RZGate, "rz"), "p": (L.PhaseGate, "p"), "u1": (L.U1Gate, "p"),
      "u2": (L.U2Gate, "u2"), "u": (L.UGate, "u"), "u3": (L.U3Gate, "u"), "swap": (L.SwapGate, "swap"), "iswap": (L.iSwapGate, "iswap"),
      "dcx": (L.DCXGate, "dcx"), "ecr": (L.ECRGate, "ecr"), "rxx": (L.RXXGate, "rxx"), "ryy": (L.RYYGate, "ryy"), "rzz": (L.RZZGate, "rzz"),
      "rzx": (L.RZXGate, "rzx"), "xx_minus_yy": (L.XXMinusYYGate, "xx_minus_yy"), "xx_plus_yy": (L.XXPlusYYGate, "xx_plus_yy")}
NP = {**ONEP, **TWOP, "u1": 1, "u3": 3}
TWOS = set(TWO) | set(TWOP)
# Qiskit orders the qubits of a gate from the least significant one on; the gates of
# the specification have their first target as the most significant one, which only
# matters for those that are not symmetric.  They are described by the documentation:
# DCX: CX(0,1) CX(1,0); ECR: RZX(pi/4) X(0) RZX(-pi/4); RZX: Z on qubit 0, X on qubit 1.


def emit_qk_gate(t, s, gate, qs, cond=()):
    """a Qiskit instruction as events; qs: indices of its qubits"""
    if isinstance(gate, ControlledGate):
        k = gate.num_ctrl_qubits
        ctrl = [(qs[i], gate.ctrl_state >> i & 1) for i in range(k)]
        base = gate.base_gate
        if base.name in QK:
            if isinstance(gate, L.CUGate): t.op(s, "gphase", [], ctrl, [float(gate.params[3])], cond)
            emit_std(t, s, base, qs[k:k + base.num_qubits], ctrl, cond)  # (some synthesised gates have ancillae at the end)
            return
        if base.name == "global_phase":
            raise ValueError("controlled global phase")
    elif gate.name in QK:
        emit_std(t, s, gate, qs, [], cond)
        return
    d = gate.definition
    t.phase(s, float(d.global_phase))
    for ins in d.data:
        emit_qk_gate(t, s, ins.operation, [qs[d.find_bit(q).index] for q in ins.qubits], cond)


def emit_std(t, s, gate, qs, ctrl, cond=()):
    g = QK[gate.name][1]
    p = [float(x) for x in gate.params]
    if g == "xx_plus_yy":  # the documented matrix: e^{-i beta} at <01|.|10> (qubit 1 first), rotations by -beta on qubit 0
        t.op(s, "rz", [qs[0]], ctrl, [p[1]], cond)
        t.op(s, "rxx", qs, ctrl, [p[0] / 2], cond)
        t.op(s, "ryy", qs, ctrl, [p[0] / 2], cond)
        t.op(s, "rz", [qs[0]], ctrl, [-p[1]], cond)
    elif g == "xx_minus_yy":  # rz(-beta) on qubit 1, then the rotation, then rz(beta)
        t.op(s, "rz", [qs[1]], ctrl, [-p[1]], cond)
        t.op(s, "rxx", qs, ctrl, [p[0] / 2], cond)
        t.op(s, "ryy", qs, ctrl, [-p[0] / 2], cond)
        t.op(s, "rz", [qs[1]], ctrl, [p[1]], cond)
    elif g == "rzx":
        t.op(s, "h", [qs[1]], [], [], cond)
        t.op(s, "rzz", qs, ctrl, p, cond)
        t.op(s, "h", [qs[1]], [], [], cond)
    elif g == "dcx":
        t.op(s, "x", [qs[1]], [(qs[0], 1), *ctrl], [], cond)
        t.op(s, "x", [qs[0]], [(qs[1], 1), *ctrl], [], cond)
    elif g == "ecr":  # (IX - XY)/sqrt(2) = X(0) after RZX(pi/2)-like rotation
        for a in (math.pi / 4, None, -math.pi / 4):
            if a is None: t.op(s, "x", [qs[0]], ctrl, [], cond)
            else:
                t.op(s, "h", [qs[1]], [], [], cond)
                t.op(s, "rzz", qs, ctrl, [a], cond)
                t.op(s, "h", [qs[1]], [], [], cond)
    else:
        t.op(s, g, qs, ctrl, p, cond)


def emit_qk(t, s, circ, qmap=None, cmap=None):
    qmap = qmap or {q: i for i, q in enumerate(circ.qubits)}
    cmap = cmap or {c: i for i, c in enumerate(circ.clbits)}
    t.phase(s, float(circ.global_phase))
    for ins in circ.data:
        o = ins.operation
        if o.name == "barrier": continue
        if o.name == "measure": t.measure(s, qmap[ins.qubits[0]], cmap[ins.clbits[0]])
        elif o.name == "reset": t.reset(s, qmap[ins.qubits[0]])
        elif o.name not in QK and not isinstance(o, ControlledGate) and o.definition is not None and (o.num_clbits or not hasattr(o, "control")):
            d = o.definition
            emit_qk(t, s, d, {q: qmap[ins.qubits[i]] for i, q in enumerate(d.qubits)}, {c: cmap[ins.clbits[i]] for i, c in enumerate(d.clbits)})
        else: emit_qk_gate(t, s, o, [qmap[q] for q in ins.qubits])


def qk_gate(r, n, par=angle):
    """a random Qiskit gate with its qubits"""
    while True:
        name = r.choice(list(QK))
        k = 2 if name in TWOS else 1
        if k > n: continue
        g = QK[name][0](*[par(r) for _ in range(NP.get(name, 0))])
        qs = r.sample(range(n), n)
        if r.randrange(100) < 45 and n > k:
            c = r.randint(1, min(3, n - k))
            st = r.choice([None, None, r.randrange(2 ** c)])
            try:
                g = g.control(c, ctrl_state=st)
            except Exception:  # noqa: BLE001
                continue
            if not isinstance(g, ControlledGate): continue
            k += c
        return g, qs[:k]


def special(r, n):
    """gates that are known by their own names or definitions"""
    out = []
    if n >= 2:
        out += [(L.CUGate(*[angle(r) for _ in range(4)]), 2), (L.CXGate(ctrl_state=r.randrange(2)), 2), (L.CSXGate(), 2), (L.CPhaseGate(angle(r)), 2),
                (L.CU1Gate(angle(r)), 2), (L.CU3Gate(angle(r), angle(r), angle(r)), 2), (L.CSGate(), 2), (L.CSdgGate(ctrl_state=r.randrange(2)), 2),
                (L.CHGate(), 2), (L.CRXGate(angle(r), ctrl_state=r.randrange(2)), 2), (L.CRYGate(angle(r)), 2), (L.CRZGate(angle(r)), 2), (L.CYGate(), 2), (L.CZGate(), 2)]
    if n >= 3: out += [(L.CCXGate(ctrl_state=r.randrange(4)), 3), (L.CSwapGate(ctrl_state=r.randrange(2)), 3), (L.CCZGate(), 3), (L.MCXGate(2), 3), (L.RCCXGate(), 3)]
    if n >= 4: out += [(L.C3XGate(), 4), (L.C3SXGate(), 4), (L.MCPhaseGate(angle(r), 3), 4), (L.MCXGate(3, ctrl_state=r.randrange(8)), 4)]
    out += [(L.RGate(angle(r), angle(r)), 1), (L.GlobalPhaseGate(angle(r)), 0)]
    g, k = r.choice(out)
    return g, r.sample(range(n), k)


def random_qk(r, regs, cregs, length, dyn, depth=0, par=angle):
    circ = QuantumCircuit(*regs, *cregs)
    n, nc = circ.num_qubits, circ.num_clbits
    circ.global_phase = r.choice([0, 0, angle(r)])
    for _ in range(length):
        m = r.randrange(100)
        if dyn and m < 12 and nc: circ.measure(r.randrange(n), r.randrange(nc))
        elif dyn and m < 18: circ.reset(r.randrange(n))
        elif m < 22: circ.barrier(*r.sample(range(n), r.randint(1, n)))
        elif m < 34 and depth < 2:
            k = r.randint(1, n)
            sub_nc = r.randint(0, nc) if dyn else 0
            sub = random_qk(r, [QuantumRegister(k, "a")], [ClassicalRegister(sub_nc, "b")] if sub_nc else [], r.randint(1, 3), dyn and sub_nc > 0, depth + 1)
            pure = not any(i.operation.name in {"measure", "reset", "barrier"} or i.operation.num_clbits or not hasattr(i.operation, "control") for i in sub.data)
            if pure and not sub_nc and r.randrange(2): circ.append(sub.to_gate(), r.sample(range(n), k))
            else: circ.append(sub.to_instruction(), r.sample(range(n), k), r.sample(range(nc), sub_nc))
        elif m < 50: circ.append(*special(r, n))
        else: circ.append(*qk_gate(r, n, par))
    return circ


def registers(r, n, anc=True):
    # (qubit registers after ancilla registers are refused by design)
    regs, left, i, a = [], n, 0, False
    while left:
        k = r.randint(1, left)
        a = a or (anc and i > 0 and r.randrange(4) == 0)
        regs.append((AncillaRegister if a else QuantumRegister)(k, "q%d" % i))
        left -= k
        i += 1
    if r.randrange(8) == 0: regs.insert(r.randrange(len(regs) + 1), QuantumRegister(0, "empty"))
    return regs


def cregisters(r, nc):
    regs, left, i = [], nc, 0
    while left:
        k = r.randint(1, left)
        regs.append(ClassicalRegister(k, "c%d" % i))
        left -= k
        i += 1
    return regs


def emit_q(t, s, qc):
    t.phase(s, qc.global_phase)
    emit_mqt(t, s, qc)


def from_qk(i, r, t):
    n = r.randint(1, 4)
    dyn = r.randrange(3) == 0
    nc = r.randint(1, 2) if dyn else 0
    if dyn: n = min(n, 3)
    circ = random_qk(r, registers(r, n), cregisters(r, nc), r.randint(1, 7), dyn)
    desc = "; ".join("%s%s %s" % (x.operation.name, [round(float(p), 4) for p in x.operation.params if isinstance(p, (int, float))], [circ.find_bit(q).index for q in x.qubits]) for x in circ.data)
    if dyn: t.case(n, nc, desc, "b", b=r.randrange(2 ** n))
    else: t.case(n, 0, desc)
    emit_qk(t, 1, circ)
    qc = qiskit_to_mqt(circ)
    t.flag(qc.num_qubits == n and qc.num_classical_bits == nc, "number of bits")
    emit_q(t, 2, qc)
    if dyn: t.cmp("chan", TOL, ka=list(range(n)), kb=list(range(n)))
    else: t.cmp("eq", TOL)
    want = {(x.name, x.size, isinstance(x, AncillaRegister)) for x in circ.qregs if x.size}
    got = {(x.name, x.size, False) for x in qc.qregs.values()} | {(x.name, x.size, True) for x in qc.ancregs.values()}
    t.flag(want == got, "registers %s instead of %s" % (got, want))
    t.flag({(x.name, x.size) for x in circ.cregs} == {(x.name, x.size) for x in qc.cregs.values()}, "classical registers")
    # and back
    if not dyn or True:
        try:
            back = mqt_to_qiskit(qc)
        except TypeError as ex:
            t.flag("Unsupported operation type" in str(ex), ex)
            return
        if dyn: t.case(n, nc, "back " + desc, "b", b=0)
        else: t.case(n, 0, "back " + desc)
        emit_q(t, 1, qc)
        emit_qk(t, 2, back)
        if dyn: t.cmp("chan", TOL, ka=list(range(n)), kb=list(range(n)))
        else: t.cmp("eq", TOL)


def wide(i, r, t):
    """multi-controlled gates with ancillae, known by their names"""
    k = r.randint(2, 4)
    g = r.choice([L.MCXVChain(k, dirty_ancillas=True), L.MCXVChain(k), L.MCXRecursive(min(k, 4)), L.MCXRecursive(5), L.MCXGrayCode(k), L.MCXGate(5), L.MCPhaseGate(angle(r), 5)])
    n = g.num_qubits
    circ = QuantumCircuit(*registers(r, n, False))
    qs = r.sample(range(n), n)
    m = g.num_ctrl_qubits + 1
    for q in qs[:m]:
        if r.randrange(3): circ.x(q)
        if r.randrange(3) == 0: circ.append(*(lambda x: (x[0], [qs[:m][y] for y in x[1]]))(qk_gate(r, 1)))
    circ.append(g, qs)
    for _ in range(r.randint(0, 2)):
        x, y = qk_gate(r, m)
        circ.append(x, [qs[z] for z in y])
    if r.randrange(2) and (n == m or g.name != "mcx_vchain"): circ.append(g, qs)
    t.case(n, 0, "%s on %s" % (g.name, qs), "b", b=0)
    emit_qk(t, 1, circ)
    qc = qiskit_to_mqt(circ)
    emit_q(t, 2, qc)
    t.cmp("eq", TOL)


SUP = [g for g in ONE + list(ONEP) + ["swap", "dcx", "ecr", "iswap"] + list(TWOP) if g not in ("v", "vdg")]


def mk(g, q, c, p):
    cs = {Control(x, Control.Type.Pos if y else Control.Type.Neg) for x, y in c}
    ty = getattr(OpType, g)
    if len(q) == 2: return StandardOperation(cs, q[0], q[1], ty, p)
    return StandardOperation(cs, q[0], ty, p)


def random_ops(r, n, nc, length, dyn, depth=0):
    """operations with the description of what they are"""
    out = []
    for _ in range(length):
        m = r.randrange(100)
        if m < 5: out.append(("barrier", r.sample(range(n), r.randint(1, n))))
        elif m < 15 and dyn:
            k = r.randint(1, min(n, nc))
            out.append(("measure", r.sample(range(n), k), r.sample(range(nc), k)))
        elif m < 20 and dyn: out.append(("reset", r.sample(range(n), r.randint(1, n))))
        elif m < 30 and depth < 2: out.append(("compound", random_ops(r, n, nc, r.randint(1, 3), dyn, depth + 1)))
        else: out.append(("gate", *gate(r, n, SUP)))
    return out


def build(o):
    if o[0] == "barrier": return StandardOperation(o[1], OpType.barrier)
    if o[0] == "measure": return NonUnitaryOperation(o[1], o[2])
    if o[0] == "reset": return NonUnitaryOperation(o[1])
    if o[0] == "compound": return CompoundOperation([build(x) for x in o[1]])
    return mk(*o[1:])


def emit_ops(t, s, ops):
    for o in ops:
        if o[0] == "measure":
            for q, b in zip(o[1], o[2]): t.measure(s, q, b)
        elif o[0] == "reset":
            for q in o[1]: t.reset(s, q)
        elif o[0] == "compound": emit_ops(t, s, o[1])
        elif o[0] == "gate": t.op(s, *o[1:])


def to_qk(i, r, t):
    dyn = r.randrange(3) == 0
    n = r.randint(1, 3 if dyn else 4)
    nc = r.randint(1, 2) if dyn else 0
    qc = QuantumComputation()
    left, j, a = n, 0, False
    names = []
    while left:
        k = r.randint(1, left)
        a = a or (j > 0 and r.randrange(4) == 0)
        if a: qc.add_ancillary_register(k, "q%d" % j)
        else: qc.add_qubit_register(k, "q%d" % j)
        names.append(("q%d" % j, k))
        left -= k
        j += 1
    left, j = nc, 0
    while left:
        k = r.randint(1, left)
        qc.add_classical_register(k, "c%d" % j)
        left -= k
        j += 1
    ops = random_ops(r, n, nc, r.randint(1, 7), dyn)
    ph = r.choice([0, 0, angle(r)])
    qc.global_phase = ph
    for o in ops: qc.append(build(o))
    desc = str(ops)
    if dyn: t.case(n, nc, desc, "b", b=r.randrange(2 ** n))
    else: t.case(n, 0, desc)
    t.phase(1, ph)
    emit_ops(t, 1, ops)
    circ = mqt_to_qiskit(qc)
    t.flag([(x.name, x.size) for x in circ.qregs] == names, "registers")
    emit_qk(t, 2, circ)
    if dyn: t.cmp("chan", TOL, ka=list(range(n)), kb=list(range(n)))
    else: t.cmp("eq", TOL)


# ------------------------------------------------------------------ layouts
def emit_layout(t, s, n, init, final, body):
    """init: logical -> physical, final: logical -> physical (lists)"""
    inv = {p: v for v, p in enumerate(init)}
    cols = list(range(n, 2 * n))  # (the columns of the matrix stay)
    t.perm(s, [inv[p] for p in range(n)] + cols)
    body()
    t.perm(s, list(final) + cols)


def layout(i, r, t):
    n = r.randint(2, 4)
    circ = QuantumCircuit(QuantumRegister(n, "q"), global_phase=0)
    for _ in range(r.randint(0, 4)): circ.append(*qk_gate(r, n))
    nin = r.randint(1, n)  # qubits of the circuit before compilation
    vr, va = QuantumRegister(nin, "v"), AncillaRegister(n - nin, "ancilla")
    virt = list(vr) + list(va)
    init = r.sample(range(n), n)
    final = r.sample(range(n), n) if r.randrange(4) else None
    lay = Layout({virt[v]: init[v] for v in r.sample(range(n), n)})
    lay.add_register(vr)
    if n > nin: lay.add_register(va)
    fl = None
    if final is not None:
        fl = Layout({q: final[k] for k, q in enumerate(circ.qubits)})
    circ._layout = TranspileLayout(initial_layout=lay, input_qubit_mapping={q: k for k, q in enumerate(virt)}, final_layout=fl, _input_qubit_count=nin, _output_qubit_list=list(circ.qubits))
    fin = [final[init[v]] for v in range(n)] if final is not None else list(init)
    desc = "init %s final %s inputs %d; %s" % (init, final, nin, [(x.operation.name, [circ.find_bit(q).index for q in x.qubits]) for x in circ.data])
    qc = qiskit_to_mqt(circ)
    t.case(n, 0, desc)
    emit_layout(t, 1, n, init, fin, lambda: emit_qk(t, 1, circ))
    il, op = dict(qc.initial_layout.items()), dict(qc.output_permutation.items())
    t.flag(sorted(il) == list(range(n)) and sorted(il.values()) == list(range(n)), "initial layout %s" % il)
    # qubits added by the compiler are ancillary; they are garbage if the outputs were permuted (and may be if they are idle)
    t.flag([qc.is_circuit_qubit_ancillary(v) for v in range(n)] == [v >= nin for v in range(n)], "ancillary %s" % qc.ancillary)
    g = [v for v in range(n) if qc.is_circuit_qubit_garbage(v)]
    t.flag(g == list(range(nin, n)) if final is not None else all(v >= nin for v in g), "garbage %s" % qc.garbage)
    t.flag(sorted(op.values()) == [v for v in range(n) if v not in g] and set(op) <= set(range(n)), "output permutation %s" % op)
    outs = {v: p for p, v in op.items()}
    # positions of outputs that nobody asks for are arbitrary: complete them as the original does
    done = [outs.get(v, fin[v]) for v in range(n)]
    if sorted(done) != list(range(n)):
        t.flag(False, "output permutation %s is not an injection into the free positions" % op)
        return
    emit_layout(t, 2, n, [next(p for p in il if il[p] == v) for v in range(n)], done, lambda: emit_q(t, 2, qc))
    t.cmp("eq", TOL)


def layout_back(i, r, t):
    """the layouts attached to converted circuits"""
    n = r.randint(2, 4)
    qc = QuantumComputation(n)
    ops = [("gate", *gate(r, n, SUP)) for _ in range(r.randint(0, 4))]
    for o in ops: qc.append(build(o))
    init, fin = r.sample(range(n), n), r.sample(range(n), n)  # logical -> physical
    qc.initial_layout = Permutation({init[v]: v for v in range(n)})
    qc.output_permutation = Permutation({fin[v]: v for v in range(n)})
    circ = mqt_to_qiskit(qc, set_layout=True)
    t.case(n, 0, "init %s fin %s %s" % (init, fin, ops))
    emit_layout(t, 1, n, init, fin, lambda: emit_ops(t, 1, ops))
    a, b = circ.layout.initial_index_layout(), circ.layout.final_index_layout()
    ok = sorted(a) == list(range(n)) and sorted(b) == list(range(n))
    t.flag(ok, "layouts %s %s" % (a, b))
    if not ok: return
    emit_layout(t, 2, n, a, b, lambda: emit_qk(t, 2, circ))
    t.cmp("eq", TOL)
    again = qiskit_to_mqt(circ)
    t.flag(dict(again.initial_layout.items()) == dict(qc.initial_layout.items()), "initial layout after the round trip: %s" % dict(again.initial_layout.items()))
    t.flag(dict(again.output_permutation.items()) == dict(qc.output_permutation.items()), "output permutation after the round trip: %s" % dict(again.output_permutation.items()))


# ------------------------------------------------------------------ symbols
def coef(r):
    return r.choice([1, -1, 2, -3, 0.5, -0.25, 1.5, 1e-3, -2.5e-5, 1 / 3, math.pi, -math.pi / 2, 12])


def expression(r, ps, depth=0):
    """a random affine expression"""
    m = r.randrange(10)
    if m < 4 or depth > 2: return r.choice(ps)
    if m < 6: return expression(r, ps, depth + 1) * coef(r)
    if m < 7: return expression(r, ps, depth + 1) / r.choice([2, 3, -4, 0.5])
    if m < 8: return expression(r, ps, depth + 1) + coef(r)
    if m < 9: return coef(r) - expression(r, ps, depth + 1)
    a, b = expression(r, ps, depth + 1), expression(r, ps, depth + 1)
    return a + b if r.randrange(2) else a - b


def symbolic(i, r, t):
    n = r.randint(1, 3)
    names = r.choice([["x", "y"], ["alpha", "beta", "gamma_1"], ["t[0]", "t[1]"], ["theta", "th"], ["a1", "a2", "e"], ["pi2", "x-y"]])
    ps = list(ParameterVector("t", 2)) if names[0] == "t[0]" else [Parameter(x) for x in names]
    val = {p: r.randint(-8, 8) * math.pi / 8 for p in ps}
    circ = random_qk(r, registers(r, n, False), [], r.randint(1, 4), False, depth=2,
                     par=lambda r: expression(r, ps) if r.randrange(3) else r.choice([angle(r), r.randint(-4, 4)]))
    circ.global_phase = 0
    nonlinear = r.randrange(6) == 0
    if nonlinear:
        a, b = r.choice(ps), r.choice(ps)
        circ.rx(r.choice([a * b, a.sin(), a * a + 1, 2 * a.exp(), 1 / a, a * (b + 1)]), 0)
    desc = "; ".join("%s%s" % (x.operation.name, [str(p) for p in x.operation.params]) for x in circ.data)
    t.case(n, 0, desc)
    try:
        qc = qiskit_to_mqt(circ)
    except Exception as ex:  # noqa: BLE001
        t.flag(nonlinear, "refused: %s" % ex)
        return
    if nonlinear:
        t.flag(False, "an expression that is not affine was accepted")
        return
    used = {p for p in circ.parameters}
    emit_qk(t, 1, circ.assign_parameters({p: v for p, v in val.items() if p in used}))
    vs = qc.variables
    t.flag({v.name for v in vs} <= {p.name for p in used} and qc.is_variable_free() == (len(vs) == 0), "variables %s" % [v.name for v in vs])
    byname = {p.name: v for p, v in val.items()}
    if len(vs): qc = qc.instantiate({v: byname[v.name] for v in vs})
    t.flag(qc.is_variable_free(), "instantiated circuit is still symbolic")
    emit_q(t, 2, qc)
    t.cmp("eq", TOL)


if __name__ == "__main__":
    main({"from": from_qk, "to": to_qk, "layout": layout, "layoutback": layout_back, "sym": symbolic, "wide": wide})
