// noise-aware simulation (C10): density matrices (exact channels) and stochastic trajectories
#include "dd/DDpackageConfig.hpp"
#include "dd/NoiseFunctionality.hpp"
#include "dd/Operations.hpp"
#include "dd/Package.hpp"
#include "dyncirc.hpp"
#include <algorithm>
#include <set>
#include <sstream>
using namespace vf;

static std::string I(long x) { return std::to_string(x); }
struct P { double noise, damp; };
struct Model { std::string eff; P one, multi; double factor = 1; };
static std::string jprob(double p) { return "{\"p\":" + I(fix(p)) + ",\"s\":" + I(fix(std::sqrt(std::max(0.0, 1 - p)))) + ",\"r\":" + I(fix(std::sqrt(std::max(0.0, p)))) + "}"; }
static std::string jcfg(const Model& m) {
  const auto one = [](const P& p) { return "{\"n\":" + jprob(p.noise) + ",\"a\":" + jprob(p.damp) + "}"; };
  return "[" + one(m.one) + "," + one(m.multi) + "]";
}
static std::string jeff(const std::string& e) {
  std::string s = "[";
  for (size_t i = 0; i < e.size(); ++i) s += (i ? ",\"" : "\"") + std::string(1, e[i]) + "\"";
  return s + "]";
}
static double prob(Rng& r, double most) {
  switch (r.below(6)) {
  case 0: return 0;
  case 1: return most;
  case 2: return most * r.pick(std::vector<double>{0.5, 0.25, 0.75});
  case 3: return most * 0.01 * r.unit();
  default: return most * r.unit();
  }
}
static std::string effects(Rng& r) {
  static const std::vector<std::string> common = {"A", "P", "D", "AP", "PA", "APD", "DPA", "ADP", "I", "", "APDI", "AD", "PD", "PP", "DD"};
  return r.pick(common);
}
static std::vector<int> usedBy(const SOp& s) {
  std::set<int> q;
  used(s, q);
  return {q.begin(), q.end()};
}
static std::string jmat(const dd::CMat& m) { // column by column
  std::vector<std::complex<double>> v;
  for (size_t c = 0; c < m.size(); ++c) for (size_t r = 0; r < m.size(); ++r) v.push_back(m[r][c]);
  return jvec(v);
}
static std::vector<SOp> noiseScript(Rng& r, int n, int len, bool stochastic) {
  std::vector<SOp> v;
  GenOpts g;
  g.n = n;
  for (int i = 0; i < len; ++i) {
    if (r.coin(35)) { SOp h; h.g = r.pick(std::vector<std::string>{"h", "x", "ry", "sx"}); h.t = {r.below(n)}; if (h.g == "ry") h.p = {angle(r)}; v.push_back(h); continue; }
    if (r.coin(6)) { SOp c; c.g = "compound"; c.body = noiseScript(r, n, r.range(1, 2), stochastic); v.push_back(c); continue; }
    v.push_back(randomGate(r, g));
  }
  return v;
}

// ------------------------------------------------------------ density matrices
static void density(int, Rng& r, Trace& t) {
  const int n = r.coin(6) ? 4 : r.range(1, 3);
  const auto sc = noiseScript(r, n, r.range(1, n >= 3 ? 4 : 6), false);
  Model m;
  m.eff = effects(r);
  const bool noisy = !r.coin(15);
  const double most = r.coin(70) ? 1.0 : 0.2;
  m.one = {prob(r, most), prob(r, most)};
  m.multi = {prob(r, most), prob(r, most)};
  const auto size = static_cast<size_t>(n + (r.coin(20) ? r.range(1, 2) : 0));
  std::ostringstream ds;
  ds << show(sc) << " noise " << m.eff << " " << m.one.noise << " " << m.one.damp << " multi " << m.multi.noise << " " << m.multi.damp;
  t.raw("{\"e\":\"case\",\"k\":\"d\",\"n\":" + I(n) + ",\"id\":" + I(t.id) + ",\"desc\":" + jstr(ds.str()) + "}");
  t.flush();
  dd::Package dd(size, dd::DENSITY_MATRIX_SIMULATOR_DD_PACKAGE_CONFIG);
  qc::QuantumComputation q(static_cast<size_t>(n));
  applyScript(q, sc, r);
  dd::DeterministicNoiseFunctionality f(dd, static_cast<size_t>(n), m.one.noise, m.multi.noise, m.one.damp, m.multi.damp, m.eff);
  auto e = dd.makeZeroDensityOperator(static_cast<size_t>(n));
  const auto obs = [&] {
    const auto mat = e.getMatrix(static_cast<size_t>(n));
    t.raw("{\"e\":\"obs\",\"d\":" + jmat(mat) + ",\"tol\":6000}");
    const auto pv = e.getSparseProbabilityVector(static_cast<size_t>(n));
    std::vector<long> d(1ULL << n, 0);
    for (const auto& [i, p] : pv) d.at(i) = fix(p);
    t.raw("{\"e\":\"diag\",\"d\":" + jarr(d) + ",\"tol\":6000}");
    std::vector<long> d2(1ULL << n, 0);
    bool keys = true;
    for (const auto& [s, p] : e.getSparseProbabilityVectorStrKeys(static_cast<size_t>(n))) {
      keys = keys && s.size() == static_cast<size_t>(n);
      size_t i = 0;
      for (size_t j = 0; j < s.size(); ++j) if (s[s.size() - 1 - j] == '1') i |= 1ULL << j;
      d2.at(i) = fix(p);
    }
    t.flag(keys, "length of the keys");
    t.raw("{\"e\":\"diag\",\"d\":" + jarr(d2) + ",\"tol\":6000}");
    const auto a = static_cast<size_t>(r.below(1 << n)), b = static_cast<size_t>(r.below(1 << n));
    const auto x = e.getValueByIndex(static_cast<size_t>(n), a, b);
    t.flag(std::abs(x - mat[a][b]) < 1e-9, "value by index");
  };
  size_t i = 0;
  for (const auto& op : q) {
    const auto s = fromIR(*op);
    emitScript(t, 1, {s});
    dd.applyOperationToDensity(e, dd::getDD(*op, dd));
    if (r.coin(25)) obs();
    if (noisy) {
      f.applyNoiseEffects(e, op);
      t.raw("{\"e\":\"noise\",\"eff\":" + jeff(m.eff) + ",\"cfg\":" + jcfg(m) + ",\"qs\":" + jarr(usedBy(s)) + "}");
    }
    if (r.coin(15)) dd.garbageCollect(true);
    if (r.coin(40) || ++i == q.getNops()) obs();
    t.flush();
    if (r.coin(20)) {
      const auto at = static_cast<dd::Qubit>(r.below(n));
      if (r.coin(40)) { // statistics
        const long shots = 600;
        long ones = 0;
        for (long k = 0; k < shots; ++k) {
          auto c = e;
          dd::dEdge::alignDensityEdge(c);
          dd.incRef(c);
          dd::dEdge::setDensityMatrixTrue(c);
          ones += dd.measureOneCollapsing(c, at, q.getGenerator()) == '1' ? 1 : 0;
          dd::dEdge::alignDensityEdge(c);
          dd.decRef(c);
        }
        t.raw("{\"e\":\"dfreq\",\"q\":" + I(at) + ",\"ones\":" + I(ones) + ",\"shots\":" + I(shots) + ",\"tol\":" + I(fix(6.5 * 0.5 / std::sqrt(600.0))) + "}");
      }
      const char b = dd.measureOneCollapsing(e, at, q.getGenerator());
      t.raw("{\"e\":\"dmeas\",\"q\":" + I(at) + ",\"b\":" + (b == '1' ? "1" : "0") + ",\"d\":" + jmat(e.getMatrix(static_cast<size_t>(n))) + ",\"tol\":6000}");
      t.flush();
    }
  }
  auto x = e;
  dd::dEdge::alignDensityEdge(x);
  dd.decRef(x);
  dd.garbageCollect(true);
  t.flag(dd.dUniqueTable.getNumEntries() == 0, "nodes of the density matrix remain after its release");
}

// ------------------------------------------------------------ trajectories
static Model stochasticModel(Rng& r) {
  Model m;
  m.eff = effects(r);
  const double most = r.coin(60) ? 1.0 : 0.3;
  m.one = {prob(r, most), prob(r, most)};
  m.factor = r.pick(std::vector<double>{1, 2, 1.5, 0.5, 0});
  const double top = std::max(m.one.noise, m.one.damp);
  if (top * m.factor > 1) m.factor = 1 / top * (1 - 1e-9);
  m.multi = {m.one.noise * m.factor, m.one.damp * m.factor};
  return m;
}
static std::string describe(const Model& m) {
  std::ostringstream ds;
  ds << " noise " << m.eff << " " << m.one.noise << " " << m.one.damp << " factor " << m.factor;
  return ds.str();
}
// every single realisation is a possible one
static void trajectory(int, Rng& r, Trace& t) {
  const int n = r.range(1, 3);
  auto sc = noiseScript(r, n, r.range(1, 5), true);
  std::vector<Model> ms = {stochasticModel(r)};
  if (r.coin(30)) ms.push_back(stochasticModel(r));
  std::string ds = show(sc);
  for (const auto& m : ms) ds += describe(m);
  t.raw("{\"e\":\"case\",\"k\":\"s\",\"n\":" + I(n) + ",\"id\":" + I(t.id) + ",\"desc\":" + jstr(ds) + "}");
  t.flush();
  dd::Package dd(static_cast<size_t>(n), dd::STOCHASTIC_NOISE_SIMULATOR_DD_PACKAGE_CONFIG);
  qc::QuantumComputation q(static_cast<size_t>(n));
  applyScript(q, sc, r);
  std::vector<std::unique_ptr<dd::StochasticNoiseFunctionality>> fs;
  for (const auto& m : ms) fs.push_back(std::make_unique<dd::StochasticNoiseFunctionality>(dd, static_cast<size_t>(n), m.one.noise, m.one.damp, m.factor, m.eff));
  auto e = dd.makeZeroState(static_cast<size_t>(n));
  std::mt19937_64 rng(static_cast<uint64_t>(r.below(1 << 30)));
  for (const auto& op : q) {
    const auto s = fromIR(*op);
    const auto qs = usedBy(s);
    const auto which = static_cast<size_t>(r.below(static_cast<int>(ms.size())));
    const auto& m = ms[which];
    if (qs.size() > 2 && m.eff.size() > 1) continue; // too many combinations
    emitScript(t, 1, {s});
    fs[which]->applyNoiseOperation(op->getUsedQubits(), dd::getDD(*op, dd), e, rng);
    t.raw("{\"e\":\"noise\",\"eff\":" + jeff(m.eff) + ",\"cfg\":" + jcfg(m) + ",\"qs\":" + jarr(qs) + ",\"d\":" + jvec(e.getVector()) + ",\"tol\":6000}");
    t.flush();
    if (r.coin(15)) dd.garbageCollect(true);
  }
  dd.decRef(e);
}
// on average, the realisations are the channel
static void average(int, Rng& r, Trace& t) {
  const int n = r.range(1, 2);
  auto sc = noiseScript(r, n, r.range(1, 3), true);
  const auto m = stochasticModel(r);
  t.raw("{\"e\":\"case\",\"k\":\"d\",\"n\":" + I(n) + ",\"id\":" + I(t.id) + ",\"desc\":" + jstr(show(sc) + describe(m)) + "}");
  t.flush();
  dd::Package dd(static_cast<size_t>(n), dd::STOCHASTIC_NOISE_SIMULATOR_DD_PACKAGE_CONFIG);
  qc::QuantumComputation q(static_cast<size_t>(n));
  applyScript(q, sc, r);
  dd::StochasticNoiseFunctionality f(dd, static_cast<size_t>(n), m.one.noise, m.one.damp, m.factor, m.eff);
  const size_t runs = 6000;
  const size_t N = 1ULL << n;
  dd::CMat avg(N, dd::CVec(N, 0));
  std::mt19937_64 rng(static_cast<uint64_t>(r.below(1 << 30)));
  for (size_t k = 0; k < runs; ++k) {
    auto e = dd.makeZeroState(static_cast<size_t>(n));
    for (const auto& op : q) f.applyNoiseOperation(op->getUsedQubits(), dd::getDD(*op, dd), e, rng);
    const auto v = e.getVector();
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) avg[i][j] += v[i] * std::conj(v[j]) / static_cast<double>(runs);
    dd.decRef(e);
    if (k % 512 == 511) dd.garbageCollect();
  }
  for (const auto& op : q) {
    const auto s = fromIR(*op);
    emitScript(t, 1, {s});
    t.raw("{\"e\":\"noise\",\"eff\":" + jeff(m.eff) + ",\"cfg\":" + jcfg(m) + ",\"qs\":" + jarr(usedBy(s)) + "}");
  }
  t.raw("{\"e\":\"obs\",\"d\":" + jmat(avg) + ",\"tol\":" + I(fix(6.5 * 0.5 / std::sqrt(6000.0))) + "}");
}
static void stoch(int i, Rng& r, Trace& t) {
  if (r.coin(20)) { average(i, r, t); return; }
  if (r.coin(75)) { trajectory(i, r, t); return; }
  // configurations
  const bool det = r.coin();
  auto eff = effects(r);
  if (r.coin(30)) { const char c = r.pick(std::vector<char>{'X', 'a', 'K', ' ', '1'}); eff.insert(static_cast<size_t>(r.below(static_cast<int>(eff.size()) + 1)), 1, c); }
  const auto val = [&] { return r.pick(std::vector<double>{0, 1, 0.5, 0.2, 0.01, -0.1, 1.2, 1.5, 0.7}); };
  t.raw("{\"e\":\"case\",\"k\":\"s\",\"n\":1,\"id\":" + I(t.id) + ",\"desc\":\"configuration\"}");
  dd::Package dd(1);
  std::vector<double> ps;
  bool ok = true;
  if (det) {
    ps = {val(), val(), val(), val()};
    try { dd::DeterministicNoiseFunctionality f(dd, 1, ps[0], ps[1], ps[2], ps[3], eff); } catch (const std::runtime_error&) { ok = false; }
  } else {
    const double a = val(), b = val(), f = r.pick(std::vector<double>{0, 1, 2, 0.5, -1, 1.5});
    ps = {a, b, a * f, b * f};
    try { dd::StochasticNoiseFunctionality g(dd, 1, a, b, f, eff); } catch (const std::runtime_error&) { ok = false; }
  }
  std::vector<long> fs;
  for (const auto p : ps) fs.push_back(fix(p));
  t.raw("{\"e\":\"config\",\"p\":" + jarr(fs) + ",\"eff\":" + jeff(eff) + ",\"ok\":" + (ok ? "true" : "false") + "}");
}

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  if (a.mode == "density") return runCases(a, density);
  if (a.mode == "stoch") return runCases(a, stoch);
  return 3;
}
