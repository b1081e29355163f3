"""property -> what its check runs"""
from vlib import TraceJob as T


def simple(driver, modes, spec="CircTrace", models=(), k=8, **kw):
    """modes: list of (mode, quick count[, spec]); thorough runs k times as many with the given seed"""
    def at(m):
        return tuple(m.split(":")) if ":" in m else (driver, m)

    def run(c, thorough):
        for m in models:  # a name, or (spec, quick configuration, thorough configuration)
            c.model(m) if isinstance(m, str) else c.model(m[0], m[2 if thorough else 1])
        c.traces([T(*at(m[0]), m[1] * (k if thorough else 1), spec=m[2] if len(m) > 2 else spec, timeout=3000 if thorough else 500, **kw) for m in modes])
    built = {at(m[0])[0] for m in modes}
    return dict(targets=sorted({"pypkg" if d.startswith("py_") else d for d in built}), run=run)


PROPS = {
    "C01": simple("drv_dd", [("sim", 1200)]),
    "C02": simple("drv_dd", [("func", 500)]),
    "C03": simple("drv_dd", [("gate", 33 * 10)]),
    "C04": simple("drv_dd", [("dyn", 1000)]),
    "C05": simple("drv_dd", [("sample", 900)]),
    "C06": simple("drv_pkg", [("canon", 1500), ("drv_num:num", 1600, "NumTrace")], spec="DDAlg",
                  models=[("NumBuckets", "NumBuckets1", "NumBuckets")]),
    "C07": simple("drv_pkg", [("alg", 1500)], spec="DDAlg"),
    "C08": simple("drv_pkg", [("gc", 1400)], spec="DDAlg"),
    "C09": simple("drv_pkg", [("ser", 1500)], spec="DDAlg"),
    "C10": simple("drv_noise", [("density", 800), ("stoch", 800)], spec="NoiseTrace",
                  models=[("NoiseMC", "NoiseMC1", "NoiseMC")]),
    "C11": simple("drv_ir", [("inv", 1500)]),
    "C12": simple("drv_ir", [("eqv", 1200), ("comm", 900), ("copy", 600)]),
    "C13": simple("drv_sym", [("expr", 800, "SymTrace"), ("circ", 1600)], models=["SymMC"]),
    "C14": simple("drv_reg", [("edit", 2400)], spec="RegTrace", models=[("RegMC", "RegMC1", "RegMC")]),
    "C15": simple("drv_reg", [("iomap", 1600)], spec="RegTrace"),
    "C16": simple("drv_qasm", [("exp", 1500)]),
    "C17": simple("drv_qasm", [("imp", 1800, "QasmTrace")]),
    "C18": simple("drv_qasm", [("bad", 6000, "QasmTrace")]),
    "C19": simple("drv_opt", [("pass", 2400)]),
    "C20": simple("drv_opt", [("dyn", 2000)]),
    "C21": simple("drv_zx", [("conv", 2400), ("mani", 800)], spec="ZXTrace"),
    "C22": simple("drv_zx", [("simp", 3200), ("mani", 1000)], spec="ZXTrace"),
    "C23": simple("drv_zx", [("rat", 4000)], spec="ZXTrace"),
    "C24": simple("drv_alg", [("gen", 1600)], spec="AlgTrace"),
    "C25": simple("drv_na", [("prog", 4000)], spec="NATrace", models=[("NAMC", "NAMC1", "NAMC")]),
    "C26": simple("drv_ds", [("layer", 2400)], spec="LayerTrace"),
    "C27": simple("drv_ds", [("graph", 6000)], spec="GraphTrace"),
    "C28": simple("drv_mlir", [("fmt", 120), ("verdict", 320), ("cancel", 200), ("sink", 240), ("mix", 160), ("rt", 120)], spec="SSATrace"),
    "C29": simple("py_qiskit", [("from", 480), ("to", 480), ("layout", 240), ("layoutback", 160), ("sym", 360), ("wide", 80)]),
    "C30": simple("drv_ir", [("perm", 400), ("drv_dd:level", 800)]),
    "C32": simple("py_py", [("seq", 1600, "PySeq"), ("build", 1600), ("expr", 1200, "SymTrace"), ("dd", 1200, "DDAlg")]),
    "C31": simple("drv_query", [("query", 1500, "IRQuery"), ("edit", 1500)]),
}

NOT_APPLICABLE = {}
