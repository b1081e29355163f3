"""Shared by the Python drivers: randomness, trace writing, projection of the
package's circuits onto trace events."""
import argparse, json, math, random, sys
from pathlib import Path

PKG = Path(__file__).resolve().parents[2] / "build" / "h" / "py"
sys.path.insert(0, str(PKG))
sys.dont_write_bytecode = True


def fix(x):
    y = x * 268435456.0
    if not (y < 2147483000.0): return 2147483000
    if y < -2147483000.0: return -2147483000
    return round(y)


class Trace:
    def __init__(self, path): self.f = open(path, "w"); self.id = -1
    def ev(self, **k): self.f.write(json.dumps(k, separators=(",", ":")) + "\n")
    def flush(self): self.f.flush()
    def case(self, n, nc, desc, init="id", **k):
        self.ev(e="case", init=init, n=n, nc=nc, id=self.id, desc=desc, **k); self.flush()
    def op(self, s, g, t, c=(), p=(), cond=()):
        k = dict(e="op", s=s, g=g, t=list(t), c=[list(x) for x in c],
                 p=[[fix(math.cos(a / 2)), fix(math.sin(a / 2)), fix(math.cos(a)), fix(math.sin(a))] for a in p])
        if cond: k["if"] = [list(x) for x in cond]
        self.ev(**k)
    def phase(self, s, a):
        if a != 0: self.op(s, "gphase", [], [], [a])
    def measure(self, s, q, b, cond=()):
        k = dict(e="m", s=s, q=q, b=b)
        if cond: k["if"] = [list(x) for x in cond]
        self.ev(**k)
    def reset(self, s, q, cond=()):
        k = dict(e="r", s=s, q=q)
        if cond: k["if"] = [list(x) for x in cond]
        self.ev(**k)
    def perm(self, s, f):
        if list(f) != list(range(len(f))): self.ev(e="perm", s=s, f=list(f))
    def cmp(self, rel, tol, **k): self.ev(e="cmp", rel=rel, tol=tol, **k)
    def flag(self, ok, what): self.ev(e="flag", ok=bool(ok), what=str(what))
    def note(self, what): self.ev(e="note", what=what)


def main(body):
    ap = argparse.ArgumentParser()
    for k, d in (("seed", 1), ("count", 10), ("shard", 0), ("shards", 1), ("only", -1)): ap.add_argument("--" + k, type=int, default=d)
    ap.add_argument("--mode"); ap.add_argument("--out")
    a = ap.parse_args()
    t = Trace(a.out)
    for i in range(a.count):
        if (i != a.only) if a.only >= 0 else (i % a.shards != a.shard): continue
        r = random.Random(a.seed * 1000003 + i * 7919 + sum(map(ord, a.mode)))
        t.id = i
        t.f.write('{"e":"start","id":%d}\n' % i)
        t.flush()
        try:
            body[a.mode](i, r, t)
        except Exception as ex:  # noqa: BLE001
            import traceback
            t.flag(False, "unexpected exception: " + "".join(traceback.format_exception(ex))[-600:])
        t.flush()


ONE = ["i", "x", "y", "z", "h", "s", "sdg", "t", "tdg", "sx", "sxdg", "v", "vdg"]
ONEP = {"rx": 1, "ry": 1, "rz": 1, "p": 1, "u2": 2, "u": 3}
TWO = ["swap", "dcx", "ecr", "iswap", "iswapdg", "peres", "peresdg"]
TWOP = {"rxx": 1, "ryy": 1, "rzz": 1, "rzx": 1, "xx_minus_yy": 2, "xx_plus_yy": 2}


def angle(r):
    m = r.randrange(10)
    if m < 5: return r.randint(-8, 8) * math.pi / 4
    if m < 7: return r.randint(-32, 32) * math.pi / 16
    if m < 8: return float(r.randint(-6, 6))
    return r.uniform(-2 * math.pi, 2 * math.pi)


def gate(r, n, names, ctrl=45, maxc=2, neg=True):
    """a random gate: (name, targets, controls, parameters)"""
    while True:
        g = r.choice(names)
        k = 2 if g in TWO or g in TWOP else 0 if g == "gphase" else 1
        if k > n: continue
        q = r.sample(range(n), n)
        t, c = q[:k], []
        if k and r.randrange(100) < ctrl:
            c = [(x, 0 if neg and r.randrange(100) < 40 else 1) for x in q[k:k + r.randint(1, maxc)]]
        return g, t, c, [angle(r) for _ in range(ONEP.get(g, TWOP.get(g, 1 if g == "gphase" else 0)))]


def cond_of(op):
    """the condition of a classically controlled operation"""
    kind = {"eq": "==", "neq": "!=", "lt": "<", "leq": "<=", "gt": ">", "geq": ">="}[op.comparison_kind.name]
    if op.control_register is not None:
        return [op.control_register.start, op.control_register.size, kind, op.expected_value]
    return [op.control_bit, 1, kind, op.expected_value]


def emit_mqt(t, s, ops, cond=()):
    from mqt.core.ir.operations import CompoundOperation, ClassicControlledOperation, Control, NonUnitaryOperation, OpType
    for op in ops:
        if isinstance(op, CompoundOperation): emit_mqt(t, s, op, cond)
        elif isinstance(op, ClassicControlledOperation): emit_mqt(t, s, [op.operation], [*cond, cond_of(op)])
        elif isinstance(op, NonUnitaryOperation):
            if op.type_ == OpType.measure:
                for q, b in zip(op.targets, op.classics): t.measure(s, q, b, cond)
            else:
                for q in op.targets: t.reset(s, q, cond)
        else:
            t.op(s, op.type_.name, op.targets, sorted((c.qubit, 1 if c.type_ == Control.Type.Pos else 0) for c in op.controls), op.parameter, cond)
