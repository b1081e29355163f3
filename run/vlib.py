"""Builds drivers from /repo, runs them, validates their traces with TLC and
reports.  A check exits 0, or 1 after a VIOLATION line; anything else is an
error of the machinery (exit 2)."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = V / "build" / "h"
WORK = V / "work"
VENV = "/opt/vp/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode("utf-8", "replace")


def build(targets):
    BUILD.mkdir(parents=True, exist_ok=True)
    with open(V / "build" / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (BUILD / "build.ninja").exists():
            rc, out = sh(["cmake", "-S", str(V / "harness"), "-B", str(BUILD), "-G", "Ninja", f"-DREPO={REPO}"], env={"CC": "gcc", "CXX": "g++"})
            if rc != 0:
                raise MachineryError("cmake failed:\n" + out[-3000:])
        rest = [t for t in targets if t != "drv_mlir"]
        rc, out = sh(["ninja", "-C", str(BUILD)] + rest, timeout=800) if rest else (0, "")
        if rc != 0:
            raise MachineryError("build failed:\n" + out[-6000:])
        if "drv_mlir" in targets:  # a project of its own: MLIR's compiler flags
            M = BUILD.parent / "m"
            if not (M / "build.ninja").exists():
                rc, out = sh(["cmake", "-S", str(V / "harness" / "mlir"), "-B", str(M), "-G", "Ninja", f"-DREPO={REPO}"], env={"CC": "gcc", "CXX": "g++"})
                if rc != 0:
                    raise MachineryError("cmake failed:\n" + out[-3000:])
            rc, out = sh(["ninja", "-C", str(M), "drv_mlir"], timeout=800)
            if rc != 0:
                raise MachineryError("build failed:\n" + out[-6000:])


def tlc(spec, cfg, trace=None, meta=None, timeout=600, workers=1, extra=None, env=None, mem="3g"):
    """returns dict(ok, diameter, total, generated, distinct, error, out)"""
    meta.mkdir(parents=True, exist_ok=True)
    cmd = ["java", f"-Xmx{mem}", "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", str(meta), "-config", cfg]
    cmd += (extra or []) + [spec]
    e = dict(env or {})
    if trace:
        e["TRACE"] = str(trace)
    rc, out = sh(cmd, timeout=timeout, env=e, cwd=str(V / "spec"))
    r = dict(rc=rc, out=out, diameter=None, total=None, generated=0, distinct=0, line=None)
    m = re.findall(r'<<"DIAMETER", (\d+), (\d+)>>', out)
    if m:
        r["diameter"], r["total"] = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r["generated"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    if m:
        r["line"] = int(m[-1])
    r["ok"] = rc == 0 and (trace is None or (r["diameter"] is not None and r["diameter"] == r["total"]))
    shutil.rmtree(meta, ignore_errors=True)
    return r


class TraceJob:
    def __init__(self, driver, mode, count, spec="CircTrace", shards=NCPU, args=None, timeout=500, env=None, cmd=None, seed=None):
        self.driver, self.mode, self.count, self.spec = driver, mode, count, spec
        self.shards = max(1, min(shards, count))
        self.args = args or []
        self.timeout = timeout
        self.env = env or {}
        # argv prefix instead of a built driver; py_x is the Python driver harness/py/drv_x.py
        self.cmd = [VENV, str(V / "harness" / "py" / f"drv_{driver[3:]}.py")] if driver.startswith("py_") else cmd
        self.seed = seed

    def argv(self, out, seed, shard=None, only=None):
        a = (self.cmd or [str(BUILD / self.driver)]) + ["--seed", str(seed), "--count", str(self.count), "--mode", self.mode, "--out", str(out)]
        if only is not None:
            a += ["--only", str(only)]
        else:
            a += ["--shard", str(shard), "--shards", str(self.shards)]
        return a + self.args


def case_at(lines, idx):
    """id of the case that line idx (0-based) belongs to, and its first line"""
    for i in range(min(idx, len(lines) - 1), -1, -1):
        if lines[i].startswith('{"e":"start"'):
            return json.loads(lines[i])["id"], i
    return None, 0


def run_once(job, wd, tag, seed, shard=None, only=None, limit=None):
    """-> dict(status: ok | reject | crash | hang | error, ...)"""
    tr = wd / f"{tag}.ndjson"
    rc, out = sh(job.argv(tr, seed, shard, only), timeout=limit or job.timeout, env=job.env, cwd=str(wd))
    lines = tr.read_text(errors="replace").splitlines() if tr.exists() else []
    res = dict(trace=tr, lines=len(lines), generated=0, distinct=0, cases=sum(1 for x in lines if x.startswith('{"e":"start"')))
    res.update(rc=rc, shard=shard)
    if rc != 0:
        if rc == "timeout":
            res["status"] = "hang"
        elif isinstance(rc, int) and (rc < 0 or rc in (134, 139, 1, 99)) and rc != 3:
            res["status"] = "crash"
        else:
            res.update(status="error", why=f"driver exit {rc}: {out[-800:]}")
            return res
        res["case"], _ = case_at(lines, len(lines) - 1)
        res["why"] = f"driver {res['status']} ({rc}) {out[-400:]}"
        if res["case"] is None:
            res.update(status="error")
        return res
    if not lines:
        res.update(status="ok")
        return res
    r = tlc(job.spec + ".tla", job.spec + ".cfg", tr, wd / ("meta_" + tag), timeout=job.timeout)
    res.update(generated=r["generated"], distinct=r["distinct"])
    if r["ok"]:
        res["status"] = "ok"
        return res
    if r["diameter"] is not None and r["rc"] != "timeout":
        bad = r["diameter"]  # 0-based index of the first line that could not be matched
    elif r["line"] is not None and "Error" in r["out"]:
        bad = r["line"] - 1
    else:
        res.update(status="error", why="TLC: " + r["out"][-1500:])
        return res
    res["status"] = "reject"
    res["case"], first = case_at(lines, bad)
    head = [x for x in lines[first:bad + 1] if '"desc"' in x or '"note"' in x]
    res["why"] = "rejected line %d: %s | %s" % (bad + 1, lines[bad][:300] if bad < len(lines) else "?", (head[-1][:500] if head else ""))
    res["bad"] = lines[first:bad + 1]
    return res


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.wd = WORK / f"{prop}-{tier}-{os.getpid()}"
        shutil.rmtree(self.wd, ignore_errors=True)
        self.wd.mkdir(parents=True)
        self.generated = self.distinct = self.cases = self.events = 0
        self.samples, self.assumptions, self.notes, self.violations, self.models = [], [], [], [], []
        kf = V / "known_findings.json"
        self.known = [k for k in json.loads(kf.read_text())["findings"] if k["property"] == prop] if kf.exists() else []

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ---- design level: TLC on the specification alone
    def model(self, spec, cfg=None, workers=NCPU, extra=None, timeout=600, env=None):
        r = tlc(spec + ".tla", (cfg or spec) + ".cfg", None, self.wd / "meta_mc", timeout=timeout, workers=workers, extra=extra, env=env)
        self.generated += r["generated"]
        self.distinct += r["distinct"]
        self.models.append(dict(spec=spec, cfg=cfg or spec, distinct=r["distinct"], generated=r["generated"]))
        if not r["ok"]:
            raise MachineryError(f"model {spec}/{cfg} fails on its own:\n" + r["out"][-3000:])
        self.log(f"model {spec}: {r['distinct']} distinct states, properties hold")

    # ---- conformance: traces of the real code against the specification
    def traces(self, jobs):
        work = [(j, s) for j in jobs for s in range(j.shards)]
        n = {}
        def go(x):
            j, s = x
            return j, s, run_once(j, self.wd, f"{j.driver}_{j.mode}_{jobs.index(j)}_{s}", j.seed or self.seed, shard=s)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(go, work))
        errors = []
        for j, s, r in res:
            self.generated += r["generated"]
            self.distinct += r["distinct"]
            self.events += r["lines"]
            k = n.setdefault((j.driver, j.mode), [0, 0])
            if r["status"] == "ok":
                self.cases += r["cases"]
                k[0] += r["cases"]
                k[1] += r["lines"]
                if len(self.samples) < 6 and r["trace"].exists():
                    with open(r["trace"]) as f:
                        txt = [x for _, x in zip(range(40), f)]
                    d = [x for x in txt if '"desc"' in x or '"note"' in x]
                    if d:
                        self.samples.append(dict(driver=j.driver, mode=j.mode, case=d[0].strip()[:400]))
            elif r["status"] == "error":
                errors.append(f"{j.driver} {j.mode} shard {s}: {r['why']}")
            else:
                self.confirm(j, r)
            if r["status"] == "ok":
                try: r["trace"].unlink()
                except OSError: pass
        for (d, m), k in n.items():
            self.log(f"traces {d} {m}: {k[0]} cases, {k[1]} events accepted")
        if errors and not self.violations:
            raise MachineryError("; ".join(errors))

    def confirm(self, j, r):
        seed = j.seed or self.seed
        c = r.get("case")
        self.log(f"suspected: {j.driver} {j.mode} case {c}: {r['why'][:700]}")
        # A rejected trace is itself the counterexample.  The case is run again on
        # its own to tell whether it fails by itself (what depends on the history
        # of the process, e.g. on reused memory, may need the whole shard).
        again = run_once(j, self.wd, f"re_{j.driver}_{j.mode}_{c}_{os.urandom(3).hex()}", seed, only=c, limit=max(60, j.timeout // 4))
        alone = again["status"] not in ("ok", "error")
        if not alone and r["status"] == "hang":
            raise MachineryError("driver timed out but no single case does: " + r["why"])
        if not alone and r["status"] == "crash" and r.get("rc") in (-9, 137):
            raise MachineryError("driver was killed: " + r["why"])
        if not alone:
            again = r
        rp = WORK / "replay"
        rp.mkdir(parents=True, exist_ok=True)
        path = rp / f"{self.prop}-{j.driver}-{j.mode}-{c}.json"
        path.write_text(json.dumps(dict(property=self.prop, argv=j.argv("TRACE.ndjson", seed, only=c) if alone else j.argv("TRACE.ndjson", seed, shard=r.get("shard", 0)),
                                        spec=j.spec, status=again["status"], alone=alone,
                                        why=again["why"], trace=again.get("bad", [])[-400:]), indent=1))
        self.violations.append((path, again["why"]))

    # ---- recorded genuine defects: their specific inputs, reported but not alarmed
    def probes(self):
        for k in self.known:
            if k.get("status") == "fixed":
                continue
            p = k["probe"]
            j = TraceJob(p["driver"], p["mode"], p.get("count", 1), spec=p.get("spec", "CircTrace"), shards=1, args=p.get("args"), timeout=120, seed=1)
            if p.get("cmd"): j.cmd = p["cmd"]
            r = run_once(j, self.wd, "probe_" + k["id"], 1, shard=0)
            if r["status"] == "error":
                raise MachineryError("probe " + k["id"] + ": " + r["why"])
            if r["status"] != "ok":
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}", flush=True)
            else:
                self.log(f"known finding {k['id']} did not show")

    def finish(self, extra=None):
        cov = dict(states=self.distinct, transitions=self.generated, traces_validated_against_impl=self.cases,
                   trace_events=self.events, samples=self.samples or ["none"], models=self.models)
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        (V / "evidence").mkdir(exist_ok=True)
        (V / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        shutil.rmtree(self.wd, ignore_errors=True)
        if self.violations:
            for p, w in self.violations:
                print("  " + w[:1500])
            print(f"VIOLATION property={self.prop} replay={self.violations[0][0]}", flush=True)
            return 1
        self.log(f"{self.prop} held: {self.cases} cases, {self.events} events, {self.distinct} states")
        return 0
