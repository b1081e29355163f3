// algorithm generators (C24): every generated circuit runs on the specification's machine and must end in the
// state / distribution that the textbook definition of the algorithm (AlgSem) prescribes
#include "algorithms/BernsteinVazirani.hpp"
#include "algorithms/GHZState.hpp"
#include "algorithms/Grover.hpp"
#include "algorithms/QFT.hpp"
#include "algorithms/QPE.hpp"
#include "algorithms/RandomCliffordCircuit.hpp"
#include "algorithms/StatePreparation.hpp"
#include "algorithms/WState.hpp"
#include "dyncirc.hpp"
#include <complex>
#include <sstream>
using namespace vf;
using qc::QuantumComputation;

static std::string I(long x) { return std::to_string(x); }
static std::string cis(double a) { return "[" + I(fix(std::cos(a))) + "," + I(fix(std::sin(a))) + "]"; }
using Vec = std::vector<std::complex<double>>;
static Vec randomVec(Rng& r, int n) {
  Vec v(1ULL << n);
  const int kind = r.below(5);
  if (kind == 0) { v[r.below(static_cast<int>(v.size()))] = std::polar(1.0, r.coin() ? 0.0 : angle(r)); return v; }
  double s = 0;
  while (s < 1e-3) {
    s = 0;
    for (auto& x : v) {
      double m = r.unit();
      if (kind == 1 && r.coin(60)) m = 0;
      if (kind == 2) m = r.range(0, 2);
      if (kind == 3 && r.coin(30)) m *= std::pow(10.0, -r.range(2, 14));
      const double ph = kind == 4 ? 0.0 : (r.coin() ? r.pick(niceAngles()) : angle(r));
      x = std::polar(m, ph);
      if (kind == 4) x = r.unit() * 2 - 1;
      s += std::norm(x);
    }
  }
  for (auto& x : v) x /= std::sqrt(s);
  return v;
}
static void caseVec(Trace& t, int n, int nc, const Vec& v, const std::string& d) {
  t.raw("{\"e\":\"case\",\"init\":\"v\",\"v\":" + jvec(v) + ",\"n\":" + I(n) + ",\"nc\":" + I(nc) + ",\"id\":" + I(t.id) + ",\"desc\":" + jstr(d) + "}");
  t.flush();
}
static std::vector<int> layout(const QuantumComputation& q) {
  std::vector<int> f(q.getNqubits());
  for (const auto& [p, l] : q.initialLayout) f[p] = static_cast<int>(l);
  return f;
}
// new bit l takes old bit p for every physical qubit p that ends up as logical qubit l
static std::vector<int> outPerm(const QuantumComputation& q) {
  std::vector<int> f(q.getNqubits(), -1);
  std::vector<bool> used(q.getNqubits(), false);
  for (const auto& [p, l] : q.outputPermutation) { f[l] = static_cast<int>(p); used[p] = true; }
  for (auto& x : f) if (x < 0) for (size_t p = 0; p < used.size(); ++p) if (!used[p]) { x = static_cast<int>(p); used[p] = true; break; }
  return f;
}
static void runAll(Trace& t, int s, const QuantumComputation& q) {
  emitPerm(t, s, layout(q));
  emitPhase(t, s, q.getGlobalPhase());
  emitScript(t, s, fromIR(q));
}
// every reset starts a new qubit, so that the i-th use of the recycled qubit can have an input of its own
static std::vector<SOp> unroll(const std::vector<SOp>& v, int& used) {
  int cur = 0;
  std::vector<SOp> w;
  for (auto o : v) {
    if (o.g == "reset") { ++cur; continue; }
    for (auto& x : o.t) x = cur;
    w.push_back(o);
  }
  used = cur + 1;
  return w;
}
static bool same(const QuantumComputation& a, const QuantumComputation& b) {
  return a == b && a.getName() == b.getName() && show(fromIR(a)) == show(fromIR(b)) && std::abs(a.getGlobalPhase() - b.getGlobalPhase()) < 1e-15;
}
static bool endsWith(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
template <class B> static std::string bitsJson(const B& b, int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(b.test(i) ? 1 : 0); return jarr(v); }
// the output permutation must agree with the measurements
static bool measuredOut(const QuantumComputation& q) {
  size_t k = 0;
  for (const auto& o : fromIR(q)) {
    if (o.g != "measure") continue;
    for (size_t i = 0; i < o.t.size(); ++i, ++k) {
      const auto it = q.outputPermutation.find(static_cast<qc::Qubit>(o.t[i]));
      if (it == q.outputPermutation.end() || it->second != static_cast<qc::Qubit>(o.bits[i])) return false;
    }
  }
  return k == q.outputPermutation.size();
}

static void algCase(int, Rng& r, Trace& t) {
  const long T = 3000;
  const std::string tol = ",\"tol\":" + I(T);
  switch (r.below(13)) {
  case 0: { // QFT as a state transformation
    const int n = r.range(1, 4);
    const auto v = randomVec(r, n);
    caseVec(t, n, 0, v, "qft " + I(n));
    const auto q = qc::createQFT(n, false);
    runAll(t, 1, q);
    // the swaps are part of the circuit; the output permutation records the reversal once more (the repository's
    // own tests rely on it), so the transformation is looked at in terms of the physical qubits
    for (int i = 0; i < n; ++i) t.flag(q.outputPermutation.at(i) == static_cast<qc::Qubit>(n - 1 - i), "output permutation");
    t.raw("{\"e\":\"qft\",\"s\":1,\"n\":" + I(n) + ",\"v\":" + jvec(v) + ",\"w\":" + cis(2 * qc::PI / (1 << n)) + tol + "}");
    break;
  }
  case 1: case 2: { // QFT with measurements, and iterative
    const bool it = r.coin();
    const int n = r.range(1, it ? 4 : 4);
    const auto v = randomVec(r, n);
    caseVec(t, n, n, v, std::string(it ? "iterative " : "") + "qft measured " + I(n));
    if (it) {
      const auto q = qc::createIterativeQFT(n);
      int used = 0;
      const auto s = unroll(fromIR(q), used);
      t.flag(used == n && q.getNqubits() == 1 && q.getNcbits() == static_cast<size_t>(n), "qubits used");
      emitScript(t, 1, s);
    } else {
      const auto q = qc::createQFT(n, true);
      runAll(t, 1, q);
      t.flag(measuredOut(q), "output permutation");
    }
    t.raw("{\"e\":\"qftm\",\"s\":1,\"n\":" + I(n) + ",\"v\":" + jvec(v) + ",\"w\":" + cis(2 * qc::PI / (1 << n)) + tol + "}");
    break;
  }
  case 3: case 4: { // QPE
    const bool it = r.coin();
    const int n = r.range(1, it ? 4 : 4);
    const int k = r.below(3);
    const auto seed = static_cast<size_t>(r.range(1, 1000000));
    const double lam = r.coin() ? r.range(0, (1 << n) - 1) / static_cast<double>(1 << (n - 1)) : r.unit() * 2;
    const auto make = [&]() {
      if (k == 2) return it ? qc::createIterativeQPE(lam, n) : qc::createQPE(lam, n);
      return it ? qc::createIterativeQPE(n, k == 0, seed) : qc::createQPE(n, k == 0, seed);
    };
    const auto q = make();
    const double l = q.getGlobalPhase(); // the phase to be found (in units of pi) is handed out as global phase
    t.caseBasis(it ? 2 : n + 1, n, 0, std::string(it ? "iterative " : "") + "qpe " + I(n) + " " + std::to_string(l) + " kind " + I(k));
    t.flag(same(q, make()), "same seed");
    if (k == 2) t.flag(std::abs(l - lam) < 1e-12, "phase handed out");
    std::ostringstream nm; nm.precision(15); nm << (it ? "iterative_" : "") << "qpe_" << n << "_" << l;
    t.flag(q.getName() == nm.str(), "name");
    if (!it) t.flag(measuredOut(q), "output permutation");
    t.flag(q.logicalQubitIsGarbage(it ? 1 : n) && q.getNgarbageQubits() == 1, "garbage");
    runAll(t, 1, q);
    t.raw("{\"e\":\"qpe\",\"s\":1,\"n\":" + I(n) + ",\"u\":" + cis(qc::PI * l) + ",\"w\":" + cis(2 * qc::PI / (1 << n)) +
          ",\"kind\":\"" + (k == 0 ? "exact" : k == 1 ? "inexact" : "any") + "\",\"tol\":20000}");
    break;
  }
  case 5: case 6: { // Bernstein-Vazirani
    const bool it = r.coin();
    const int n = r.range(1, it ? 6 : 4);
    qc::BVBitString s;
    for (int i = 0; i < n; ++i) if (r.coin()) s.set(i);
    const int k = r.below(3);
    const auto seed = static_cast<size_t>(r.range(1, 1000000));
    int m = n;
    if (k == 1) { m = 1; for (int i = 0; i < n; ++i) if (s.test(i)) m = i + 1; }
    const auto make = [&]() {
      if (k == 0) return it ? qc::createIterativeBernsteinVazirani(s, n) : qc::createBernsteinVazirani(s, n);
      if (k == 1) return it ? qc::createIterativeBernsteinVazirani(s) : qc::createBernsteinVazirani(s);
      return it ? qc::createIterativeBernsteinVazirani(n, seed) : qc::createBernsteinVazirani(n, seed);
    };
    const auto q = make();
    const std::string pre = it ? "iterative_bv_" : "bv_";
    t.caseBasis(it ? 2 : m + 1, m, 0, "bv " + q.getName());
    t.flag(q.getNqubits() == static_cast<size_t>(it ? 2 : m + 1) && q.getNcbits() == static_cast<size_t>(m), "size");
    t.flag(same(q, make()), "same seed");
    if (k == 2) { // the hidden string is part of the name, most significant bit first
      const auto nm = q.getName().substr(pre.size());
      t.flag(nm.size() == static_cast<size_t>(n), "name");
      s.reset();
      for (int i = 0; i < n; ++i) if (nm[n - 1 - i] == '1') s.set(i);
    } else {
      auto e = s.to_string();
      t.flag(q.getName() == pre + e.substr(e.size() - m), "name");
    }
    if (!it) t.flag(measuredOut(q), "output permutation");
    t.flag(q.logicalQubitIsGarbage(it ? 1 : m) && q.getNgarbageQubits() == 1, "garbage");
    runAll(t, 1, q);
    t.raw("{\"e\":\"bv\",\"s\":1,\"x\":" + bitsJson(s, m) + tol + "}");
    break;
  }
  case 7: { // Grover
    const int n = r.range(1, 4);
    qc::GroverBitString s;
    for (int i = 0; i < n; ++i) if (r.coin()) s.set(i);
    const bool rnd = r.coin(40);
    const auto seed = static_cast<size_t>(r.range(1, 1000000));
    const auto make = [&]() { return rnd ? qc::createGrover(n, seed) : qc::createGrover(n, s); };
    const auto q = make();
    t.caseBasis(n + 1, n, 0, q.getName());
    const std::string pre = "grover_" + I(n) + "_";
    const auto nm = q.getName().substr(pre.size());
    t.flag(q.getName().compare(0, pre.size(), pre) == 0 && nm.size() == static_cast<size_t>(n), "name");
    if (rnd) { s.reset(); for (int i = 0; i < n; ++i) if (nm[n - 1 - i] == '1') s.set(i); }
    auto e = s.to_string();
    t.flag(endsWith(e, nm), "name");
    t.flag(same(q, make()), "same seed");
    runAll(t, 1, q);
    t.raw("{\"e\":\"grover\",\"s\":1,\"n\":" + I(n) + ",\"it\":" + I(static_cast<long>(qc::computeNumberOfIterations(n))) + ",\"x\":" + bitsJson(s, n) + ",\"tol\":20000}");
    break;
  }
  case 8: { // GHZ, W
    const int n = r.range(1, 6);
    t.caseBasis(n, 0, 0, "ghz/w " + I(n));
    const auto g = qc::createGHZState(n);
    const auto w = qc::createWState(n);
    if (n > 1) { runAll(t, 1, g); t.raw("{\"e\":\"ghz\",\"s\":1" + tol + "}"); }
    runAll(t, 2, w);
    t.raw("{\"e\":\"wstate\",\"s\":2,\"r\":" + I(fix(1 / std::sqrt(static_cast<double>(n)))) + tol + "}");
    t.flag(g.getName() == "ghz_" + I(n) && w.getName() == "wstate_" + I(n), "name");
    break;
  }
  case 9: case 10: case 11: { // state preparation
    const int n = r.range(0, 4);
    auto v = randomVec(r, n);
    const bool bad = r.coin(15);
    if (bad) {
      t.begin("state preparation rejects");
      const int k = r.below(3);
      if (k == 0) for (auto& x : v) x *= r.coin() ? 1.0 + 1e-6 : 0.7;
      if (k == 1) { v.resize(std::max<size_t>(3, v.size() + 1 + static_cast<size_t>(r.below(2)) * 2)); double s = 0; for (auto& x : v) { if (r.coin()) x = r.unit(); s += std::norm(x); } for (auto& x : v) x /= std::sqrt(s); if ((v.size() & (v.size() - 1)) == 0) v.emplace_back(0); }
      if (k == 2) v.clear();
      bool threw = false;
      try { (void)qc::createStatePreparationCircuit(v); } catch (const std::invalid_argument&) { threw = true; }
      t.flag(threw, "rejected kind " + I(k));
      break;
    }
    t.caseBasis(n, 0, 0, "state preparation " + I(n));
    const auto q = qc::createStatePreparationCircuit(v);
    t.flag(q.getNqubits() == static_cast<size_t>(n), "size");
    runAll(t, 1, q);
    emitPerm(t, 1, outPerm(q));
    t.raw("{\"e\":\"obs\",\"s\":1,\"rel\":\"eq\",\"d\":" + jvec(v) + tol + "}");
    break;
  }
  default: { // random Clifford circuits
    const int n = r.range(1, 6);
    const int d = r.range(0, 6);
    const auto seed = static_cast<size_t>(r.range(1, 1000000));
    const auto q = qc::createRandomCliffordCircuit(n, d, seed);
    t.begin("random clifford " + I(n) + " " + I(d) + " " + I(static_cast<long>(seed)));
    t.flag(same(q, qc::createRandomCliffordCircuit(n, d, seed)), "same seed");
    std::string pairs;
    std::vector<std::pair<std::vector<int>, SOp>> todo;
    for (auto& o : fromIR(q)) {
      std::set<int> qs;
      used(o, qs);
      todo.emplace_back(std::vector<int>(qs.begin(), qs.end()), o);
    }
    // operations may be the identity on some of their qubits: fill in from the brick-work pattern
    std::vector<std::vector<int>> pat;
    for (int k = 0; k < d; ++k) {
      if (n == 1) pat.push_back({0});
      else if (n == 2) pat.push_back({0, 1});
      else for (int i = k % 2; i + 1 < n; i += 2) pat.push_back({i, i + 1});
    }
    t.flag(pat.size() == todo.size(), "number of operations");
    for (size_t i = 0; i < todo.size() && i < pat.size(); ++i) {
      bool in = true;
      for (auto x : todo[i].first) in = in && std::find(pat[i].begin(), pat[i].end(), x) != pat[i].end();
      t.flag(in, "qubits of operation " + I(static_cast<long>(i)));
      pairs += (i ? "," : "") + jarr(pat[i]);
    }
    t.raw("{\"e\":\"brick\",\"n\":" + I(n) + ",\"d\":" + I(d) + ",\"pairs\":[" + pairs + "]}");
    const int pickN = std::min<int>(3, static_cast<int>(todo.size()));
    for (int k = 0; k < pickN; ++k) {
      const size_t i = r.below(static_cast<int>(std::min(pat.size(), todo.size())));
      const int m = static_cast<int>(pat[i].size());
      t.caseId(m, 0, "clifford operation " + I(static_cast<long>(i)) + " " + show(todo[i].second));
      std::vector<int> f(n, 0);
      for (int j = 0; j < m; ++j) f[pat[i][j]] = j;
      emitScript(t, 1, {renameOp(todo[i].second, f)});
      t.raw("{\"e\":\"clifford\",\"s\":1" + tol + "}");
    }
  }
  }
}

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  if (a.mode == "gen") return runCases(a, algCase);
  return 3;
}
