// C01 sim, C02 func, C03 gate, C04 dyn, C05 sample
#include "dyncirc.hpp"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Operations.hpp"
#include "dd/Package.hpp"
#include "dd/Simulation.hpp"
using namespace vf;

static std::vector<bool> bitsOf(long b, int n) {
  std::vector<bool> v(n);
  for (int i = 0; i < n; ++i) v[i] = (b >> i) & 1;
  return v;
}
static std::string obs(int side, const std::string& d, const std::string& rel, long tol) {
  return "{\"e\":\"obs\",\"s\":" + std::to_string(side) + ",\"d\":" + d + ",\"rel\":" + jstr(rel) + ",\"tol\":" + std::to_string(tol) + "}";
}
static std::string jmat(const dd::MatrixDD& e, int n) {
  const auto m = e.getMatrix(n);
  std::string r = "[";
  for (size_t c = 0; c < (1U << n); ++c)
    for (size_t row = 0; row < (1U << n); ++row) {
      if (c + row > 0) r += ',';
      r += std::to_string(fix(m[row][c].real())) + "," + std::to_string(fix(m[row][c].imag()));
    }
  return r + "]";
}
struct Layout { std::vector<int> in, out; }; // physical -> logical
static Layout randomLayout(Rng& r, int n) {
  Layout l;
  l.in = r.coin(50) ? r.perm(n) : std::vector<int>();
  l.out = r.coin(60) ? r.perm(n) : std::vector<int>();
  if (l.in.empty()) for (int i = 0; i < n; ++i) l.in.push_back(i);
  if (l.out.empty()) for (int i = 0; i < n; ++i) l.out.push_back(i);
  return l;
}
static void setLayout(qc::QuantumComputation& q, const Layout& l) {
  for (size_t i = 0; i < l.in.size(); ++i) {
    q.initialLayout[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(l.in[i]);
    q.outputPermutation[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(l.out[i]);
  }
}
static std::vector<int> inverse(const std::vector<int>& f) {
  std::vector<int> g(f.size());
  for (size_t i = 0; i < f.size(); ++i) g[f[i]] = static_cast<int>(i);
  return g;
}
static std::vector<int> extend(std::vector<int> f, int n) { // identity on the reference qubits
  for (int i = 0; i < n; ++i) f.push_back(n + i);
  return f;
}
static GenOpts opts(Rng& r, int n) {
  GenOpts o;
  o.n = n;
  o.maxCtrl = r.range(1, 3);
  o.compound = r.coin(40);
  if (r.coin(25)) o.names = {"swap", "h", "x", "t", "iswap", "rx", "p"};
  if (r.coin(15)) o.names = {"h", "s", "x", "z", "swap", "sdg", "y", "v"};
  return o;
}

static void simCase(int id, Rng& r, Trace& t) {
  const int n = r.pick(std::vector<int>{1, 2, 3, 3, 3, 4, 4, 5});
  const auto o = opts(r, n);
  const auto sc = randomCircuit(r, o, r.range(1, 14));
  const auto lay = randomLayout(r, n);
  const long b = r.coin(50) ? 0 : r.below(1 << n);
  t.caseBasis(n, 1, b, "simulate n=" + std::to_string(n) + " " + show(sc));
  qc::QuantumComputation q(n);
  applyScript(q, sc, r);
  setLayout(q, lay);
  // qubits that yield no output end up anywhere
  std::vector<int> unspecified;
  if (n > 1 && r.coin(35)) {
    const int keep = r.below(n);
    for (int i = 0; i < n; ++i) if (i != keep && r.coin(45)) { q.outputPermutation.erase(static_cast<qc::Qubit>(i)); unspecified.push_back(lay.out[i]); }
  }
  emitPerm(t, 1, lay.in);
  emitScript(t, 1, sc);
  emitPerm(t, 1, inverse(lay.out));
  dd::Package p(n);
  auto in = p.makeBasisState(n, bitsOf(b, n));
  p.incRef(in);
  const auto e = dd::simulate(q, in, p);
  if (unspecified.empty()) t.raw(obs(1, jvec(e.getVector()), "eq", 3000));
  else t.raw("{\"e\":\"obsfree\",\"s\":1,\"free\":" + jarr(unspecified) + ",\"d\":" + jvec(e.getVector()) + ",\"tol\":3000}");
  // element access agrees with the dense vector
  const auto v = e.getVector();
  bool ok = v.size() == (1U << n);
  for (size_t i = 0; ok && i < v.size(); ++i) ok = std::abs(e.getValueByIndex(i) - v[i]) < 1e-9;
  t.flag(ok, "getValueByIndex agrees with getVector");
}

static void funcCase(int id, Rng& r, Trace& t) {
  const int n = r.pick(std::vector<int>{1, 2, 2, 3, 3, 3});
  const auto o = opts(r, n);
  const int len = r.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12});
  const auto sc = randomCircuit(r, o, len);
  const auto lay = randomLayout(r, n);
  t.caseId(n, 1, "functionality n=" + std::to_string(n) + " " + show(sc));
  qc::QuantumComputation q(n);
  applyScript(q, sc, r);
  setLayout(q, lay);
  std::vector<int> zc, zr;
  if (r.coin(35)) for (int i = 0; i < n; ++i) if (r.coin(40)) { zc.push_back(i); q.setLogicalQubitAncillary(i); }
  if (r.coin(35)) for (int i = 0; i < n; ++i) if (r.coin(40)) { zr.push_back(i); q.setLogicalQubitGarbage(i); }
  emitPerm(t, 1, extend(lay.in, n));
  emitScript(t, 1, sc);
  emitPerm(t, 1, extend(inverse(lay.out), n));
  {
    dd::Package p(n);
    auto e = dd::buildFunctionality(q, p);
    t.raw("{\"e\":\"obsm\",\"s\":1,\"zr\":" + jarr(zr) + ",\"zc\":" + jarr(zc) + ",\"d\":" + jmat(e, n) + ",\"tol\":3000}");
    bool ok = true;
    const auto m = e.getMatrix(n);
    for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j)
      ok = ok && std::abs(e.getValueByIndex(n, i, j) - m[i][j]) < 1e-9;
    t.flag(ok, "getValueByIndex agrees with getMatrix");
    auto f = dd::buildFunctionalityRecursive(q, p);
    t.raw("{\"e\":\"obsm\",\"s\":1,\"zr\":" + jarr(zr) + ",\"zc\":" + jarr(zc) + ",\"d\":" + jmat(f, n) + ",\"tol\":3000}");
    // the identical edge, unless the angles bring numerical noise near the tolerance
    bool same = e == f;
    if (!same && !niceScript(sc)) {
      const auto mf = f.getMatrix(n);
      same = true;
      for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) same = same && std::abs(m[i][j] - mf[i][j]) < 1e-9;
    }
    if (zr.empty()) t.flag(same, "sequential and recursive construction yield the identical edge");
  }
}

// exhaustive placements: case id enumerates (gate, variant)
// the diagram of a sequence of operations as one operation, and its inverse, on permuted qubits
static void compoundGate(Rng& r, Trace& t, int n, const std::string& what) {
  auto o = opts(r, n);
  o.compound = true;
  SOp a; a.g = "compound"; a.body = randomCircuit(r, o, r.range(1, 4));
  const auto f = r.coin(70) ? r.perm(n) : std::vector<int>{};
  const bool inv = r.coin(50);
  t.caseId(n, 1, what + std::to_string(n) + (inv ? " inverse of " : " ") + show(a) + " on " + jarr(f));
  if (!f.empty()) emitPerm(t, 1, extend(f, n));
  emitScript(t, 1, {a});
  if (!f.empty()) emitPerm(t, 1, extend(inverse(f), n));
  if (inv) t.raw("{\"e\":\"adj\",\"s\":1}");
  qc::Permutation pm;
  for (size_t i = 0; i < f.size(); ++i) pm[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(f[i]);
  dd::Package p(n);
  const auto op = makeOp(a);
  const auto e = inv ? dd::getInverseDD(*op, p, pm) : dd::getDD(*op, p, pm);
  t.raw(obs(1, jmat(e, n), "eq", 3000));
}

static void gateCase(int id, Rng& r, Trace& t) {
  const auto& G = gates();
  const auto& g = G[id % G.size()];
  const int round = id / static_cast<int>(G.size());
  if (g.targets == 0) { t.begin("no placement"); return; }
  const int n = 1 + g.targets + (round % 2 == 0 ? 1 : 0) - (round % 5 == 4 ? 1 : 0);
  // all target choices; for each a random control pattern plus the empty and the full one
  std::vector<std::vector<int>> tg;
  if (g.targets == 1) for (int a = 0; a < n; ++a) tg.push_back({a});
  else for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) tg.push_back({a, b});
  for (const auto& ts : tg) {
    for (int variant = 0; variant < 3; ++variant) {
      SOp o; o.g = g.name; o.t = ts;
      for (int i = 0; i < g.params; ++i) {
        const int w = r.below(4);
        o.p.push_back(w < 2 ? r.pick(niceAngles()) : w == 2 ? angle(r) : r.pick(std::vector<double>{0., qc::PI_2, qc::PI, -qc::PI_2}));
      }
      for (int q = 0; q < n; ++q) {
        if (std::find(ts.begin(), ts.end(), q) != ts.end()) continue;
        const bool take = variant == 0 ? false : variant == 1 ? true : r.coin(50);
        if (take) o.c.emplace_back(q, r.coin(50) ? 1 : 0);
      }
      const bool inv = r.coin(40);
      t.caseId(n, 1, "gate n=" + std::to_string(n) + (inv ? " inverse of " : " ") + show(o));
      dd::Package p(n);
      const auto op = makeOp(o);
      // sometimes the package already holds many other nodes
      if (r.coin(30)) { SOp oo = o; oo.c.clear(); (void)dd::getDD(*makeOp(oo), p); }
      auto perm = r.coin(30) ? r.perm(n) : std::vector<int>{};
      qc::Permutation pm;
      for (size_t i = 0; i < perm.size(); ++i) pm[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(perm[i]);
      const auto e = inv ? dd::getInverseDD(*op, p, pm) : dd::getDD(*op, p, pm);
      SOp m = o;
      if (!perm.empty()) { for (auto& x : m.t) x = perm[x]; for (auto& c : m.c) c.first = perm[c.first]; }
      emitOp(t, 1, m.g, m.t, m.c, m.p);
      if (!inv) t.raw(obs(1, jmat(e, n), "eq", 600));
      else {
        // the observed matrix, multiplied with the gate, must be the identity: side 2 starts as the observation
        const auto mat = e.getMatrix(n);
        t.raw("{\"e\":\"adj\",\"s\":1}");
        t.raw(obs(1, jmat(e, n), "eq", 600));
      }
      // matrices handed over directly
      if (!inv && g.targets == 1 && perm.empty()) {
        const auto e2 = p.makeGateDD(dd::opToSingleQubitGateMatrix(op->getType(), op->getParameter()), op->getControls(), op->getTargets()[0]);
        t.flag(e == e2, "makeGateDD and getDD agree on the edge");
      }
    }
  }
  compoundGate(r, t, r.range(1, 3), "gate n=");
}

struct DynOpts { int n, nc; };
static std::vector<SOp> randomDynamic(Rng& r, int n, const std::vector<std::pair<int, int>>& regs, int len, bool compoundIf = false) {
  GenOpts o = [&] { GenOpts g; g.n = n; g.maxCtrl = 2; if (r.coin(60)) g.names = {"h", "x", "rx", "ry", "t", "swap", "y", "z", "s", "u", "iswap"}; return g; }();
  int nc = 0;
  for (const auto& g : regs) nc = std::max(nc, g.first + g.second);
  std::vector<SOp> v;
  for (int i = 0; i < len; ++i) {
    const int k = r.below(10);
    if (k < 2) {
      SOp s; s.g = "measure";
      const auto q = r.perm(n); const auto b = r.perm(nc);
      const int m = r.coin(75) ? 1 : std::min({2, n, nc});
      for (int j = 0; j < m; ++j) { s.t.push_back(q[j]); s.bits.push_back(b[j]); }
      v.push_back(s);
    } else if (k < 3) {
      SOp s; s.g = "reset"; const auto q = r.perm(n);
      s.t.push_back(q[0]);
      if (n > 1 && r.coin(20)) s.t.push_back(q[1]);
      v.push_back(s);
    } else if (k < 5) {
      SOp s = randomGate(r, o);
      while (s.g == "gphase") s = randomGate(r, o);
      Cond c;
      static const std::vector<std::string> K = {"==", "!=", "<", "<=", ">", ">="};
      if (r.coin(40)) { c.isBit = true; c.start = r.below(nc); c.len = 1; c.cmp = r.coin(50) ? "==" : "!="; c.val = r.below(2); }
      else { const auto& g = r.pick(regs); c.isBit = false; c.start = g.first; c.len = g.second; c.cmp = r.pick(K); c.val = r.below((1 << g.second) + 1); }
      s.cond.push_back(c);
      v.push_back(s);
    } else v.push_back(randomGate(r, o));
  }
  return v;
}

static void addRegs(qc::QuantumComputation& q, const std::vector<std::pair<int, int>>& regs) {
  int k = 0;
  for (const auto& g : regs) q.addClassicalRegister(g.second, "c" + std::to_string(k++));
}
static std::vector<std::pair<int, int>> randomRegs(Rng& r) {
  std::vector<std::pair<int, int>> regs;
  int s = 0;
  const int k = r.range(1, 2);
  for (int i = 0; i < k; ++i) { const int l = r.range(1, 2); regs.emplace_back(s, l); s += l; }
  return regs;
}

static void dynCase(int id, Rng& r, Trace& t) {
  const int n = r.range(1, 4);
  const auto regs = randomRegs(r);
  int nc = regs.back().first + regs.back().second;
  const auto sc = randomDynamic(r, n, regs, r.range(3, 12));
  t.caseBasis(n, nc, 0, "dynamic n=" + std::to_string(n) + " " + show(sc));
  qc::QuantumComputation q;
  q.addQubitRegister(n);
  addRegs(q, regs);
  Rng rr = r;
  applyScript(q, sc, rr);
  const auto permv = r.coin(40) ? r.perm(n) : std::vector<int>{};
  qc::Permutation pm;
  for (size_t i = 0; i < permv.size(); ++i) pm[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(permv[i]);
  const auto pq = [&](int x) { return permv.empty() ? x : permv[x]; };
  dd::Package p(n);
  auto e = p.makeZeroState(n);
  p.incRef(e);
  std::mt19937_64 mt(r.next());
  std::vector<bool> meas(nc, false);
  const long TOL = 20000;
  const auto snapshot = [&]() { t.raw(obs(1, jvec(e.getVector()), "prop", TOL)); };
  const auto checkNorm = [&]() { t.flag(std::abs(p.innerProduct(e, e).r - 1.0) < 1e-6, "state has norm 1"); };
  // note that global phases added with qc.gphase are not part of the operation list
  size_t k = 0;
  double prod = 1;
  for (const auto& o : sc) {
    if (prod < 0.02) { t.note("history became too unlikely"); return; }
    SOp m = o;
    for (auto& x : m.t) x = pq(x);
    for (auto& c : m.c) c.first = pq(c.first);
    const auto op = makeAny(o, q);
    if (o.g == "measure") {
      if (r.coin(60)) {
        e = dd::applyMeasurement(dynamic_cast<const qc::NonUnitaryOperation&>(*op), e, p, mt, meas, pm);
        for (size_t j = 0; j < m.t.size(); ++j)
          t.raw("{\"e\":\"out\",\"s\":1,\"q\":" + std::to_string(m.t[j]) + ",\"b\":" + std::to_string(meas.at(m.bits[j]) ? 1 : 0) + ",\"k\":" + std::to_string(m.bits[j]) + ",\"tol\":" + std::to_string(TOL) + "}");
      } else {
        for (size_t j = 0; j < m.t.size(); ++j) {
          const auto [p0, p1] = p.determineMeasurementProbabilities(e, m.t[j]);
          t.flag(std::abs(p0 + p1 - 1) < 1e-6, "outcome probabilities sum to one");
          char c;
          if (r.coin(70)) c = p.measureOneCollapsing(e, m.t[j], mt);
          else {
            const bool zero = p0 > 0.01 && (p1 <= 0.01 || r.coin(50));
            p.performCollapsingMeasurement(e, m.t[j], zero ? p0 : p1, zero);
            c = zero ? '0' : '1';
          }
          prod *= c == '0' ? p0 : p1;
          meas.at(m.bits[j]) = c == '1';
          t.raw("{\"e\":\"out\",\"s\":1,\"q\":" + std::to_string(m.t[j]) + ",\"b\":" + (c == '1' ? "1" : "0") + ",\"k\":" + std::to_string(m.bits[j]) + ",\"pr\":" + std::to_string(fix(c == '0' ? p0 : p1)) + ",\"tol\":" + std::to_string(TOL) + "}");
        }
      }
      snapshot();
      checkNorm();
    } else if (o.g == "reset") {
      // one qubit at a time, so that the hidden outcome can be inferred from the state
      for (size_t j = 0; j < o.t.size(); ++j) {
        const qc::NonUnitaryOperation one(std::vector<qc::Qubit>{static_cast<qc::Qubit>(o.t[j])}, qc::Reset);
        e = dd::applyReset(one, e, p, mt, pm);
        t.raw("{\"e\":\"rinf\",\"s\":1,\"q\":" + std::to_string(m.t[j]) + ",\"d\":" + jvec(e.getVector()) + ",\"tol\":" + std::to_string(TOL) + "}");
      }
      checkNorm();
    } else if (!o.cond.empty()) {
      e = dd::applyClassicControlledOperation(dynamic_cast<const qc::ClassicControlledOperation&>(*op), e, p, meas, pm);
      emitScriptOp(t, 1, m, {});
      snapshot();
    } else {
      e = dd::applyUnitaryOperation(*op, e, p, pm);
      emitScriptOp(t, 1, m, {});
      if (r.coin(25)) snapshot();
    }
    if (r.coin(10)) p.garbageCollect(true);
    ++k;
  }
  snapshot();
  // sampling without collapse leaves the state alone; with collapse it becomes the basis state returned
  if (prod > 0.05) {
    const auto s0 = p.measureAll(e, false, mt);
    snapshot();
    long b0 = std::stol(s0, nullptr, 2);
    t.raw("{\"e\":\"supp\",\"s\":1,\"i\":" + std::to_string(b0) + "}");
    t.flag(static_cast<int>(s0.size()) == n, "one character per qubit");
    const auto s = p.measureAll(e, true, mt);
    const long b = std::stol(s, nullptr, 2);
    t.raw("{\"e\":\"supp\",\"s\":1,\"i\":" + std::to_string(b) + "}");
    const auto v = e.getVector();
    bool ok = true;
    for (size_t i = 0; i < v.size(); ++i) ok = ok && std::abs(std::abs(v[i]) - (static_cast<long>(i) == b ? 1. : 0.)) < 1e-6;
    t.flag(ok, "collapsing measurement of all qubits leaves the returned basis state");
  }
}

static void sampleCase(int id, Rng& r, Trace& t) {
  const int n = r.range(1, 4);
  const int kind = r.below(10); // 0-2 dynamic, 3-7 final measurements, 8-9 none
  auto regs = randomRegs(r);
  int nc = regs.back().first + regs.back().second;
  std::vector<SOp> sc;
  qc::QuantumComputation q;
  q.addQubitRegister(n);
  const auto lay = randomLayout(r, n);
  bool dynamic = kind < 3, noMeas = kind >= 8;
  if (dynamic) {
    sc = randomDynamic(r, n, regs, r.range(3, 9));
  } else {
    GenOpts o; o.n = n; o.maxCtrl = 2;
    if (r.coin(60)) o.names = {"h", "x", "ry", "swap", "t", "rx"};
    sc = randomCircuit(r, o, r.range(1, 8));
    if (!noMeas) {
      const int m = r.range(1, 4);
      for (int j = 0; j < m; ++j) {
        SOp s; s.g = "measure";
        if (r.coin(70)) { s.t = {r.below(n)}; s.bits = {r.below(nc)}; }
        else { const auto a = r.perm(n); const auto b = r.perm(nc); for (int i = 0; i < std::min(n, nc); ++i) { s.t.push_back(a[i]); s.bits.push_back(b[i]); } }
        sc.push_back(s);
      }
      if (r.coin(40)) { // few further operations, of any kind, amid and after the measurements
        GenOpts l;
        l.n = n;
        l.maxCtrl = 1;
        if (r.coin(70)) l.names = r.pick(std::vector<std::vector<std::string>>{{"swap"}, {"swap", "x"}, {"i", "swap"}, {"gphase", "z", "i"}, {"h"}, {"x"}, {"dcx", "iswap"}});
        if (n == 1 && !l.names.empty()) l.names = {"x", "z", "i"};
        for (auto& x : randomCircuit(r, l, r.range(1, 3))) sc.insert(sc.end() - r.below(m + 1), x);
        if (r.coin(50)) { SOp x; x.g = "measure"; x.t = {r.below(n)}; x.bits = {r.below(nc)}; sc.push_back(x); }
        if (r.coin(15)) { SOp x; x.g = "reset"; x.t = {r.below(n)}; sc.insert(sc.end() - r.below(3), x); }
      }
    }
  }
  // reset / condition in the last position also make the circuit dynamic
  const bool withRegs = !noMeas || r.coin(30);
  if (withRegs && noMeas) { regs = {{0, n}}; nc = n; }
  if (withRegs) addRegs(q, regs);
  if (r.coin(25)) { sc = nest(r, sc, 50); for (const auto& o : sc) q.emplace_back(deep(o, q)); }
  else { Rng rr = r; applyScript(q, sc, rr); }
  setLayout(q, lay);
  if (!noMeas && !dynamic && r.coin(40)) q.initializeIOMapping();
  const int bits = withRegs ? nc : n;
  t.caseBasis(n, bits, 0, std::string("sample n=") + std::to_string(n) + " " + show(sc));
  emitPerm(t, 1, lay.in);
  emitScript(t, 1, sc);
  // a circuit without measurements, resets, and conditions has all its qubits measured at the end
  noMeas = true;
  if (any(sc, [](const SOp& o) { return o.g == "measure" || o.g == "reset" || !o.cond.empty(); })) noMeas = false;
  if (noMeas) for (int i = 0; i < n; ++i) if (lay.out[i] < bits)
    t.raw("{\"e\":\"m\",\"s\":1,\"q\":" + std::to_string(i) + ",\"b\":" + std::to_string(lay.out[i]) + "}");
  const int shots = 4096;
  std::map<std::string, std::size_t> counts;
  const size_t seed = r.next() % 100000 + 1;
  if (r.coin(50)) counts = dd::sample(q, shots, seed);
  else {
    dd::Package p(n);
    auto in = p.makeZeroState(n);
    counts = dd::sample(q, in, p, shots, seed);
  }
  std::string c = "[";
  bool first = true, len = true;
  for (const auto& [s, k] : counts) {
    if (!first) c += ',';
    first = false;
    len = len && static_cast<int>(s.size()) == bits;
    std::vector<int> bs;
    for (size_t i = 0; i < s.size(); ++i) bs.push_back(s[s.size() - 1 - i] == '1');
    c += "[" + jarr(bs) + "," + std::to_string(k) + "]";
  }
  t.flag(len, "one character per classical bit");
  t.raw("{\"e\":\"sample\",\"s\":1,\"shots\":" + std::to_string(shots) + ",\"cnt\":" + c + "],\"tol\":" + std::to_string(14000000) + "}");
}

// C30: operations realised under a permutation; changing the order of the levels
static void levelCase(int id, Rng& r, Trace& t) {
  const int n = r.range(1, 4);
  if (r.coin(20)) { compoundGate(r, t, std::min(n, 3), "operations under a permutation n="); return; }
  if (r.coin(50)) {
    const auto o = opts(r, std::min(n, 3));
    const int m = std::min(n, 3);
    const auto a = randomGate(r, o);
    const auto f = r.perm(m);
    const bool inv = r.coin(40);
    const bool asCompound = r.coin(25);
    t.caseId(m, 1, std::string(inv ? "inverse " : "") + "operation under permutation " + jarr(f) + ": " + show(a));
    emitPerm(t, 1, extend(f, m));
    emitScript(t, 1, {a});
    emitPerm(t, 1, extend(inverse(f), m));
    if (inv) t.raw("{\"e\":\"adj\",\"s\":1}");
    qc::Permutation pm;
    for (int i = 0; i < m; ++i) pm[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(f[i]);
    dd::Package p(m);
    std::unique_ptr<qc::Operation> op = makeOp(a);
    if (asCompound) { auto c = std::make_unique<qc::CompoundOperation>(); c->emplace_back(std::move(op)); op = std::move(c); }
    const auto e = inv ? dd::getInverseDD(*op, p, pm) : dd::getDD(*op, p, pm);
    t.raw(obs(1, jmat(e, m), "eq", 3000));
    return;
  }
  const bool vec = r.coin(50);
  const int w = vec ? n : std::min(n, 3);
  const auto o = opts(r, w);
  const auto sc = randomCircuit(r, o, r.range(1, 8));
  const bool regular = r.coin(60);
  const auto a = r.perm(w), b = r.perm(w);
  // keys: arbitrary physical qubits
  std::vector<int> keys = r.perm(w);
  if (r.coin(30)) { std::vector<int> wide = r.perm(w + 3); keys.assign(wide.begin(), wide.begin() + w); }
  const int cover = r.coin(70) ? w : r.below(w + 1);
  qc::Permutation from, to;
  for (int i = 0; i < w; ++i) from[static_cast<qc::Qubit>(keys[i])] = static_cast<qc::Qubit>(a[i]);
  for (int i = 0; i < cover; ++i) to[static_cast<qc::Qubit>(keys[i])] = static_cast<qc::Qubit>(b[i]);
  const auto what = "levels " + jarr(a) + " to the first " + std::to_string(cover) + " of " + jarr(b) + " after " + show(sc);
  dd::Package p(w);
  qc::QuantumComputation q(w);
  applyScript(q, sc, r);
  const auto old = from;
  std::vector<int> f(vec ? w : 2 * w);
  const auto rel = [&]() {
    for (size_t i = 0; i < f.size(); ++i) f[i] = static_cast<int>(i);
    bool ok = from.size() == old.size();
    for (const auto& [k, lv] : from) {
      if (old.find(k) == old.end() || lv >= static_cast<qc::Qubit>(w)) { ok = false; continue; }
      const int off = vec || regular ? 0 : w;
      f[lv + off] = static_cast<int>(old.at(k)) + off;
    }
    for (const auto& [k, lv] : to) ok = ok && from.at(k) == lv;
    t.flag(ok, "the tracked permutation agrees with the requested one");
  };
  if (vec) {
    const long s = r.below(1 << w);
    t.caseBasis(w, 1, s, "vector: " + what);
    emitScript(t, 1, sc);
    auto in = p.makeBasisState(w, bitsOf(s, w));
    auto e = dd::simulate(q, in, p);
    dd::changePermutation(e, from, to, p);
    rel();
    t.raw("{\"e\":\"perm\",\"s\":1,\"f\":" + jarr(f) + "}");
    t.raw(obs(1, jvec(e.getVector()), "eq", 3000));
    p.decRef(e);
    p.garbageCollect(true);
    t.flag(p.vUniqueTable.getNumEntries() == 0, "reordering keeps exactly the reference of its result");
  } else {
    t.caseId(w, 1, "matrix: " + what);
    emitScript(t, 1, sc);
    auto e = dd::buildFunctionality(q, p);
    dd::changePermutation(e, from, to, p, regular);
    rel();
    t.raw("{\"e\":\"perm\",\"s\":1,\"f\":" + jarr(f) + "}");
    t.raw(obs(1, jmat(e, w), "eq", 3000));
  }
}

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  return runCases(a, [&](int i, Rng& r, Trace& t) {
    if (a.mode == "sim") simCase(i, r, t);
    else if (a.mode == "func") funcCase(i, r, t);
    else if (a.mode == "gate") gateCase(i, r, t);
    else if (a.mode == "dyn") dynCase(i, r, t);
    else if (a.mode == "sample") sampleCase(i, r, t);
    else if (a.mode == "level") levelCase(i, r, t);
    else std::exit(3);
  });
}
