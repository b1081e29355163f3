// C19 pass: optimisation passes on unitary circuits; C20 dyn: passes on circuits with measurements, resets, conditions
#include "dyncirc.hpp"
#include "circuit_optimizer/CircuitOptimizer.hpp"
using namespace vf;
using CO = qc::CircuitOptimizer;

static std::vector<int> inverse(const std::vector<int>& f) {
  std::vector<int> g(f.size());
  for (size_t i = 0; i < f.size(); ++i) g[f[i]] = static_cast<int>(i);
  return g;
}
static std::vector<int> ext(std::vector<int> f, int n) {
  for (int i = 0; i < n; ++i) f.push_back(n + i);
  return f;
}
static std::vector<int> vecOf(const qc::Permutation& p) {
  std::vector<int> v;
  for (const auto& [k, x] : p) v.push_back(static_cast<int>(x));
  return v;
}
static bool isSwap(const SOp& o) { return o.g == "swap" && o.c.empty(); }
// layout, operations, output permutation; returns the physical qubits to keep (by logical label) when some are garbage
static void emitIn(Trace& t, int side, const qc::QuantumComputation& q, int extra) { emitPerm(t, side, ext(vecOf(q.initialLayout), extra)); }
static std::vector<int> outs(const qc::QuantumComputation& q) { // physical qubits by output label
  std::map<int, int> m;
  for (const auto& [k, x] : q.outputPermutation) m[static_cast<int>(x)] = static_cast<int>(k);
  std::vector<int> v;
  for (const auto& [l, p] : m) v.push_back(p);
  return v;
}
static std::string labels(const qc::QuantumComputation& q) {
  std::set<int> s;
  for (const auto& [k, x] : q.outputPermutation) s.insert(static_cast<int>(x));
  std::string o;
  for (auto x : s) o += std::to_string(x) + " ";
  return o;
}
static std::string layoutStr(const qc::QuantumComputation& q) { return jarr(vecOf(q.initialLayout)) + " out " + jarr(outs(q)) + " for " + labels(q); }

static const std::vector<std::string>& passes() {
  static const std::vector<std::string> P = {"swapReconstruction", "singleQubitGateFusion", "removeIdentities", "removeOperation", "decomposeSWAP",
    "decomposeSWAPdir", "flatten", "flattenCustom", "cancelCNOTs", "replaceMCXWithMCZ", "collectBlocks", "elidePermutations", "reorder", "backpropagate"};
  return P;
}
static std::vector<SOp> pool(Rng& r, const std::string& p, int n, int len) {
  GenOpts o;
  o.n = n;
  o.maxCtrl = 2;
  o.compound = r.coin(50);
  const int k = r.below(10);
  if (p == "singleQubitGateFusion" && k < 4) { // chains of inverse pairs on few qubits
    static const std::vector<std::pair<std::string, std::string>> P = {{"x", "x"}, {"y", "y"}, {"z", "z"}, {"h", "h"}, {"s", "sdg"}, {"t", "tdg"}, {"sx", "sxdg"}, {"v", "vdg"}, {"i", "i"}, {"s", "s"}, {"x", "h"}};
    std::vector<SOp> v;
    const auto add = [&](const std::string& g, int q, size_t at) { SOp x; x.g = g; x.t = {q}; v.insert(v.begin() + static_cast<long>(at), x); };
    for (int i = 0; i < r.range(1, 5); ++i) {
      const auto& pr = r.pick(P);
      const bool flip = r.coin();
      const int q = r.coin(75) ? 0 : r.below(n);
      const auto at = static_cast<size_t>(r.below(static_cast<int>(v.size()) + 1));
      add(flip ? pr.second : pr.first, q, at);
      add(flip ? pr.first : pr.second, q, at + 1);
    }
    if (r.coin(40)) { auto w = randomCircuit(r, o, 2); v.insert(v.begin() + r.below(static_cast<int>(v.size()) + 1), w.begin(), w.end()); }
    return v;
  }
  if (n >= 2 && (p == "swapReconstruction" || p == "cancelCNOTs" || p == "elidePermutations" || p == "backpropagate") && k < 6) { // little but CNOTs and SWAPs
    std::vector<SOp> v;
    const int other = r.pick(std::vector<int>{0, 0, 6, 15}), swaps = p == "cancelCNOTs" || p == "swapReconstruction" ? r.pick(std::vector<int>{0, 20, 40}) : 60;
    for (int i = 0; i < len; ++i) {
      if (r.coin(other)) { const auto w = randomCircuit(r, o, 1); v.insert(v.end(), w.begin(), w.end()); continue; }
      const auto q = r.perm(n);
      SOp x;
      if (r.coin(swaps)) { x.g = "swap"; x.t = {q[0], q[1]}; }
      else {
        x.g = "x"; x.t = {q[0]}; x.c = {{q[1], 1}};
        if (!v.empty() && v.back().g == "x" && v.back().c.size() == 1 && r.coin(35)) { x.t[0] = v.back().t[0]; x.c[0].first = v.back().c[0].first; if (r.coin(60)) std::swap(x.t[0], x.c[0].first); }
        if (r.coin(3)) x.c[0].second = 0;
      }
      v.push_back(x);
    }
    return v;
  }
  if (k < 7) {
    if (p == "singleQubitGateFusion") { o.names = {"x", "y", "z", "h", "s", "sdg", "t", "tdg", "sx", "sxdg", "i", "rx", "p", "v", "vdg", "gphase"}; o.ctrlPct = 12; }
    else if (p == "removeIdentities" || p == "removeOperation") o.names = {"i", "i", "x", "h", "p", "z", "s"};
    else if (n >= 2 && p != "collectBlocks" && p != "reorder") { o.names = {"x", "x", "x", "swap", "swap", "x", "h", "s", "rzz"}; o.ctrlPct = 75; o.maxCtrl = r.coin(75) ? 1 : 2; if (r.coin(60)) o.neg = false; }
  }
  return randomCircuit(r, o, len);
}
static void custom(Rng& r, std::vector<SOp>& v) { // mark some compounds as custom gates
  for (auto& o : v) if (o.g == "compound") { if (r.coin(50)) o.p = {1}; custom(r, o.body); }
}
static void dropOps(std::vector<SOp>& v, const std::set<std::string>& names, size_t size) {
  std::vector<SOp> w;
  for (auto o : v) {
    if (o.g == "compound") { if (o.cond.empty()) dropOps(o.body, names, size); }
    else if (o.cond.empty() && names.count(o.g) != 0 && (size == 0 || o.t.size() + o.c.size() == size)) continue;
    w.push_back(o);
  }
  v = w;
}
static std::vector<SOp> plain(std::vector<SOp> v) { for (auto& o : v) if (o.g == "compound") { o.p.clear(); o.body = plain(o.body); } return v; }
static void applyPass(const std::string& p, qc::QuantumComputation& q, int block) {
  if (p == "swapReconstruction") CO::swapReconstruction(q);
  else if (p == "singleQubitGateFusion") CO::singleQubitGateFusion(q);
  else if (p == "removeIdentities") CO::removeIdentities(q);
  else if (p == "decomposeSWAP") CO::decomposeSWAP(q, false);
  else if (p == "decomposeSWAPdir") CO::decomposeSWAP(q, true);
  else if (p == "flatten") CO::flattenOperations(q);
  else if (p == "flattenCustom") CO::flattenOperations(q, true);
  else if (p == "cancelCNOTs") CO::cancelCNOTs(q);
  else if (p == "replaceMCXWithMCZ") CO::replaceMCXWithMCZ(q);
  else if (p == "collectBlocks") CO::collectBlocks(q, static_cast<size_t>(block));
  else if (p == "elidePermutations") CO::elidePermutations(q);
  else if (p == "reorder") q.reorderOperations();
  else if (p == "eliminateResets") CO::eliminateResets(q);
  else if (p == "deferMeasurements") CO::deferMeasurements(q);
  else if (p == "removeDiagonal") CO::removeDiagonalGatesBeforeMeasure(q);
  else if (p == "removeFinal") CO::removeFinalMeasurements(q);
}
static bool isCustomIR(const qc::Operation& op) { return op.isCompoundOperation() && dynamic_cast<const qc::CompoundOperation&>(op).isCustomGate(); }
static void post(Trace& t, const std::string& p, const qc::QuantumComputation& q, const std::vector<SOp>& sc, const std::vector<SOp>& after, int block) {
  const bool condBody = any(after, [](const SOp& o) { return !o.cond.empty(); });
  if (p == "removeIdentities") t.flag(!any(after, [](const SOp& o) { return o.g == "i" && o.cond.empty(); }), "identities are left");
  if (p == "decomposeSWAP" || p == "decomposeSWAPdir") {
    t.flag(condBody || !any(after, [](const SOp& o) { return isSwap(o); }), "SWAPs are left");
    if (p == "decomposeSWAPdir") { // the CNOTs of one SWAP all point the same way
      t.flag(any(sc, [](const SOp& o) { return o.g == "x" && !o.c.empty(); }) || any(sc, [](const SOp& o) { return o.g == "swap" && !o.c.empty(); }) ||
             !any(after, [&](const SOp& o) { return o.g == "x" && o.c.size() == 1 && !any(sc, [&](const SOp& w) { return w.g == "swap" && w.t.size() == 2 && w.t[0] == o.c[0].first && w.t[1] == o.t[0]; }); }), "a CNOT points the wrong way");
    }
  }
  if (p == "flatten") {
    bool c = false;
    for (const auto& op : q) c = c || op->isCompoundOperation();
    t.flag(!c, "compound operations are left");
  }
  if (p == "flattenCustom") {
    bool c = false;
    for (const auto& op : q) c = c || isCustomIR(*op);
    t.flag(!c, "custom gates are left");
  }
  if (p == "replaceMCXWithMCZ") t.flag(condBody || !any(after, [](const SOp& o) { return o.g == "x" && !o.c.empty(); }), "controlled X gates are left");
  if (p == "elidePermutations") t.flag(condBody || !any(after, [](const SOp& o) { return isSwap(o); }), "SWAPs are left");
  if (p == "collectBlocks") {
    bool ok = true;
    for (const auto& op : q) {
      if (!op->isCompoundOperation()) continue;
      SOp s = fromIR(*op);
      std::set<int> u;
      used(s, u);
      if (static_cast<int>(u.size()) <= block) continue;
      // only an operation that was there before may be larger than a block
      bool was = false;
      const std::function<std::string(const SOp&)> flat = [&](const SOp& o) {
        if (o.g != "compound" || !o.cond.empty()) return o.g == "i" && o.cond.empty() ? std::string() : show(o);
        std::string x;
        for (const auto& b : o.body) x += flat(b);
        return x;
      };
      for (const auto& o : sc) was = was || flat(o) == flat(s);
      ok = ok && was;
    }
    t.flag(ok, "a block is too large");
  }
  if (p == "eliminateResets") t.flag(!any(after, [](const SOp& o) { return o.g == "reset"; }), "resets are left");
}
static void fillQC(qc::QuantumComputation& q, const std::vector<SOp>& sc) { for (const auto& s : sc) q.emplace_back(deep(s, q)); }

static void passCase(int id, Rng& r, Trace& t) {
  const auto p = passes()[static_cast<size_t>(id) % passes().size()];
  const int n = p == "collectBlocks" && r.coin(30) ? 4 : r.pick(std::vector<int>{1, 2, 2, 3, 3, 3});
  auto sc = pool(r, p, n, n == 4 ? r.range(3, 8) : r.range(0, n == 3 ? 10 : 12));
  custom(r, sc);
  qc::QuantumComputation q(n);
  if (r.coin(50)) {
    const auto in = r.perm(n), out = r.perm(n);
    for (int i = 0; i < n; ++i) { q.initialLayout[i] = in[i]; q.outputPermutation[i] = out[i]; }
  }
  const bool garb = n > 1 && r.coin(p == "backpropagate" || p == "elidePermutations" ? 45 : 12);
  if (garb) { // some outputs are not declared
    const int k = r.range(1, n - 1);
    const auto g = r.perm(n);
    for (int i = 0; i < k; ++i) q.outputPermutation.erase(static_cast<qc::Qubit>(g[i]));
  }
  const int block = n == 4 ? r.range(2, 4) : r.range(1, 3);
  fillQC(q, sc);
  sc = plain(sc);
  std::vector<std::string> chain = {p};
  if (p != "backpropagate") while (r.coin(30)) { const auto x = r.pick(passes()); if (x != "backpropagate" && x != "removeOperation" && n < 4) chain.insert(chain.begin(), x); }
  std::string name;
  for (const auto& c : chain) name += c + " ";
  const std::string what = name + "block " + std::to_string(block) + " n=" + std::to_string(n) + " layout " + layoutStr(q) + ": " + show(sc);
  const auto in0 = vecOf(q.initialLayout);
  const auto out0 = outs(q);
  const auto lab0 = labels(q);

  if (p == "backpropagate") {
    // only SWAPs move qubits: the layout that is found makes them bring every declared output where it belongs
    qc::QuantumComputation z = q;
    CO::backpropagateOutputPermutation(z);
    t.caseId(n, 1, what);
    t.flag(show(fromIR(z)) == show(fromIR(q)) && z.outputPermutation == q.outputPermutation, "backpropagation changes more than the initial layout");
    const auto f = vecOf(z.initialLayout);
    t.flag(static_cast<int>(f.size()) == n && std::set<int>(f.begin(), f.end()).size() == f.size() && *std::max_element(f.begin(), f.end()) == n - 1, "the initial layout is a permutation " + layoutStr(z));
    std::vector<int> id0;
    for (int i = 0; i < n; ++i) id0.push_back(i);
    emitPerm(t, 1, ext(f, n));
    const std::function<void(const std::vector<SOp>&)> swaps = [&](const std::vector<SOp>& v) {
      for (const auto& o : v) { if (isSwap(o)) emitScript(t, 1, {o}); swaps(o.body); }
    };
    swaps(sc);
    // declared outputs: physical p holds logical out(p)
    std::string ka, kb;
    for (const auto& [ph, lo] : z.outputPermutation) { ka += (ka.empty() ? "" : ",") + std::to_string(ph); kb += (kb.empty() ? "" : ",") + std::to_string(lo); }
    for (int i = 0; i < n; ++i) { ka += "," + std::to_string(n + i); kb += "," + std::to_string(n + i); }
    if (garb) emitCmp(t, "chan", 4000, ",\"ka\":[" + ka + "],\"kb\":[" + kb + "]");
    else { emitPerm(t, 1, ext(inverse(vecOf(z.outputPermutation)), n)); emitCmp(t, "eq", 100); }
    return;
  }
  std::vector<SOp> ref = sc;
  t.caseId(n, 1, what);
  if (p == "removeOperation") {
    for (size_t i = 0; i + 1 < chain.size(); ++i) applyPass(chain[i], q, block);
    ref = fromIR(q);
    std::set<std::string> names = {r.pick(std::vector<std::string>{"i", "x", "h", "p", "z"})};
    if (r.coin(40)) names.insert(r.pick(std::vector<std::string>{"s", "x", "z", "h"}));
    const size_t size = r.coin(50) ? 0 : static_cast<size_t>(r.range(1, 3));
    std::unordered_set<qc::OpType> ty;
    std::string nm;
    for (const auto& g : names) { ty.insert(gate(g).type); nm += g + " "; }
    t.note("removes " + nm + "of size " + std::to_string(size));
    dropOps(ref, names, size);
    CO::removeOperation(q, ty, size);
    const auto after = fromIR(q);
    t.flag(!any(after, [&](const SOp& o) { return names.count(o.g) != 0 && o.g != "compound" && (size == 0 || o.t.size() + o.c.size() == size); }), "operations to be removed are left");
    emitScript(t, 1, ref);
    emitScript(t, 2, after);
    emitCmp(t, "eq", 4000);
    return;
  }
  for (const auto& c : chain) {
    const auto before = fromIR(q);
    applyPass(c, q, block);
    post(t, c, q, before, fromIR(q), block);
  }
  const auto after = fromIR(q);
  t.note("result layout " + layoutStr(q) + ": " + show(after));
  t.flag(labels(q) == lab0, "the declared outputs changed");
  const auto f1 = vecOf(q.initialLayout);
  t.flag(std::set<int>(f1.begin(), f1.end()).size() == static_cast<size_t>(n), "the initial layout is a permutation");
  emitPerm(t, 1, ext(in0, n));
  emitScript(t, 1, ref);
  emitPerm(t, 2, ext(f1, n));
  emitScript(t, 2, after);
  emitPhase(t, 2, q.getGlobalPhase());
  auto ka = out0, kb = outs(q);
  if (garb) {
    for (int i = 0; i < n; ++i) { ka.push_back(n + i); kb.push_back(n + i); }
    emitCmp(t, "chan", 6000, ",\"ka\":" + jarr(ka) + ",\"kb\":" + jarr(kb));
  } else { emitPerm(t, 1, ext(ka, n)); emitPerm(t, 2, ext(kb, n)); emitCmp(t, "eq", 4000); }
}

// ---------------------------------------------------------------- C20
static const std::vector<std::string>& dynPasses() {
  static const std::vector<std::string> P = {"eliminateResets", "deferMeasurements", "removeDiagonal", "removeFinal", "swapReconstruction", "singleQubitGateFusion",
    "eliminateResets", "deferMeasurements", "removeDiagonal", "removeFinal", "removeIdentities", "decomposeSWAP", "flatten", "flattenCustom", "cancelCNOTs",
    "eliminateResets", "deferMeasurements", "removeDiagonal", "removeFinal", "replaceMCXWithMCZ", "collectBlocks", "elidePermutations", "reorder", "removeOperation"};
  return P;
}
// on qubit q the operation is diagonal, or q is only a control
static bool diagOn(const SOp& o, int q) {
  if (o.g == "barrier") return true;
  if (o.g == "compound") { for (const auto& b : o.body) if (!diagOn(b, q)) return false; return true; }
  if (std::find(o.t.begin(), o.t.end(), q) == o.t.end()) return true;
  static const std::set<std::string> D = {"i", "z", "s", "sdg", "t", "tdg", "p", "rz", "rzz"};
  return D.count(o.g) != 0;
}
static bool touches(const SOp& o, int q) { std::set<int> s; used(o, s); return s.count(q) != 0; }
static std::vector<SOp> generate(Rng& r, const std::string& p, int n, int nb, const std::vector<Reg>& qs, const std::vector<Reg>& cr) {
  GenOpts o;
  o.n = n;
  o.maxCtrl = 2;
  o.barrier = true;
  if (p == "removeDiagonal") {
    o.names = {"z", "s", "t", "p", "rz", "x", "h", "z"};
    if (n > 1) o.names.push_back("rzz");
    o.ctrlPct = 55;
    auto v = randomCircuit(r, o, r.range(1, 7));
    if (r.coin(40)) { auto d = dynCircuit(r, o, r.range(1, 4), nb, qs, cr); v.insert(v.begin() + r.below(static_cast<int>(v.size()) + 1), d.begin(), d.end()); }
    // measure some of the qubits at the end
    const auto q = r.perm(n);
    int k = r.range(1, n);
    if (r.coin(60)) {
      SOp m; m.g = "measure";
      auto b = r.perm(nb);
      k = std::min(k, nb);
      for (int i = 0; i < k; ++i) { m.t.push_back(q[i]); m.bits.push_back(b[i]); }
      v.push_back(m);
    } else for (int i = 0; i < k; ++i) { SOp m; m.g = "measure"; m.t = {q[i]}; m.bits = {r.below(nb)}; v.push_back(m); }
    if (r.coin(30)) { auto w = randomCircuit(r, o, 2); v.insert(v.end(), w.begin(), w.end()); }
    return r.coin(35) ? nest(r, v, 50) : v;
  }
  if (p == "removeFinal") {
    auto v = dynCircuit(r, o, r.range(1, 4), nb, qs, cr);
    auto q = r.perm(n);
    for (int i = 0; i < n; ++i) {
      if (r.coin(30)) continue;
      SOp m; m.g = "measure"; m.t = {q[i]}; m.bits = {r.below(nb)};
      v.push_back(m);
      if (r.coin(20)) { SOp b; b.g = "barrier"; b.t = r.perm(n); b.t.resize(static_cast<size_t>(r.range(1, n))); v.push_back(b); }
      if (r.coin(15)) v.push_back(randomGate(r, o));
      if (r.coin(15)) { SOp g = randomGate(r, o); g.cond = {regCond(r, cr)}; v.push_back(g); }
    }
    if (r.coin(30)) { SOp m; m.g = "measure"; const int k = std::min(n, nb); auto b = r.perm(nb); for (int i = 0; i < k; ++i) { m.t.push_back(q[i]); m.bits.push_back(b[i]); } v.push_back(m); }
    return r.coin(40) ? nest(r, v, 40) : v;
  }
  if (p == "deferMeasurements" || p == "collectBlocks") {
    // operations on a qubit that was measured must be diagonal there (see the known finding)
    std::vector<SOp> v;
    std::set<int> done;
    const int len = r.range(2, 9);
    for (int i = 0; i < len; ++i) {
      const int k = r.below(10);
      SOp s;
      if (k < 3) {
        s.g = "measure"; s.t = {r.below(n)}; s.bits = {r.below(nb)};
        done.insert(s.t[0]);
      } else if (k < 7 && !done.empty()) {
        s = randomGate(r, o);
        Cond c;
        if (r.coin(70)) { c.isBit = true; c.start = r.below(nb); c.len = 1; c.cmp = r.coin(50) ? "==" : "!="; c.val = r.below(2); }
        else c = regCond(r, cr);
        s.cond = {c};
      } else if (k == 7 && done.empty()) { s.g = "reset"; s.t = {r.below(n)}; }
      else if (k == 8) { s.g = "barrier"; s.t = r.perm(n); s.t.resize(static_cast<size_t>(r.range(1, n))); }
      else s = randomGate(r, o);
      bool ok = true;
      if (s.g != "measure") for (const auto q : done) ok = ok && diagOn(s, q);
      if (ok) v.push_back(s);
    }
    return v;
  }
  auto v = dynCircuit(r, o, r.range(2, 7), nb, qs, cr);
  if (p == "eliminateResets" && r.coin(60)) { SOp s; s.g = "reset"; s.t = {r.below(n)}; v.insert(v.begin() + r.below(static_cast<int>(v.size()) + 1), s); }
  if (p == "removeOperation" || p == "removeIdentities") for (auto& s : v) if (r.coin(30) && s.g != "measure" && s.g != "reset" && s.g != "compound" && s.g != "barrier") { s = SOp{}; s.g = r.coin(60) ? "i" : "x"; s.t = {r.below(n)}; if (r.coin(30)) s.cond = {regCond(r, cr)}; }
  if (p == "singleQubitGateFusion" || p == "cancelCNOTs" || p == "swapReconstruction" || p == "elidePermutations" || p == "decomposeSWAP") {
    std::vector<SOp> w;
    for (const auto& s : v) {
      const auto x = pool(r, p, n, r.range(0, 3));
      w.insert(w.end(), x.begin(), x.end());
      w.push_back(s);
    }
    v = w;
  }
  return r.coin(40) ? nest(r, v, 40) : v;
}
static void dynCase(int id, Rng& r, Trace& t) {
  const auto p = dynPasses()[static_cast<size_t>(id) % dynPasses().size()];
  const int n = r.pick(std::vector<int>{1, 2, 2, 3});
  const int nb = r.range(1, 3);
  qc::QuantumComputation q(n);
  std::vector<std::string> names = idNames();
  r.shuffle(names);
  size_t k = 0;
  const auto cr = split(r, nb, names, k);
  for (const auto& c : cr) q.addClassicalRegister(c.size, c.name);
  const std::vector<Reg> qs = {{"q", 0, n}};
  auto sc = generate(r, p, n, nb, qs, cr);
  const std::function<int(const std::vector<SOp>&, const std::string&)> count = [&](const std::vector<SOp>& v, const std::string& g) {
    int c = 0;
    for (const auto& o : v) c += (o.g == g ? static_cast<int>(o.t.size()) : 0) + count(o.body, g);
    return c;
  };
  // (keeps the number of histories small)
  while (count(sc, "reset") > 3 || count(sc, "reset") + count(sc, "measure") > 7) sc = generate(r, p, n, nb, qs, cr);
  custom(r, sc);
  const bool lay = r.coin(50) && p != "deferMeasurements" && p != "collectBlocks";
  if (lay) {
    const auto in = r.perm(n), out = r.perm(n);
    for (int i = 0; i < n; ++i) { q.initialLayout[i] = in[i]; q.outputPermutation[i] = out[i]; }
  }
  fillQC(q, sc);
  sc = plain(sc);
  const auto before = fromIR(q);
  const int block = r.range(1, 3);
  const std::string what = p + " block " + std::to_string(block) + " n=" + std::to_string(n) + " layout " + layoutStr(q) + ": " + show(sc);
  const auto in0 = vecOf(q.initialLayout);
  const auto out0 = outs(q);
  t.caseBasis(n, nb, 0, what);
  std::vector<SOp> ref = sc;
  bool refused = false;
  std::string why;
  if (p == "removeOperation") {
    const std::set<std::string> nm = {"x", "i"};
    dropOps(ref, nm, 1);
    CO::removeOperation(q, {qc::X, qc::I}, 1);
  } else {
    try { applyPass(p, q, block); } catch (const std::runtime_error& e) { refused = true; why = e.what(); }
  }
  if (refused) {
    // deferring may be refused: resets, wide measurements, wide conditions, conditions on the own qubit, unclear order
    const bool may = (p == "deferMeasurements" || p == "collectBlocks");
    t.flag(may, "the pass refuses the circuit: " + why);
    if (p == "deferMeasurements") {
      // but not when every measurement is single and all conditions are single-bit conditions of gates elsewhere, each bit and qubit measured once
      std::set<int> mq, mb;
      bool must = false;
      for (const auto& o : ref) {
        if (o.g == "measure") { must = must || !mq.insert(o.t[0]).second || !mb.insert(o.bits[0]).second; }
        if (o.g == "reset" && !mq.empty()) must = true;
        if (!o.cond.empty() && o.cond[0].len != 1) must = true;
        for (const auto x : mq) if (!o.cond.empty() && touches(o, x)) must = true;
      }
      t.flag(must, "a circuit that can be deferred is refused: " + why);
    }
    return;
  }
  const auto after = fromIR(q);
  t.note("result layout " + layoutStr(q) + ": " + show(after));
  post(t, p, q, before, after, block);
  const int n2 = static_cast<int>(q.getNqubits());
  if (p != "eliminateResets") t.flag(n2 == n, "the number of qubits changed");
  prefix(r, t, n, std::min(nb, 2));
  emitPerm(t, 1, in0);
  emitScript(t, 1, ref);
  auto f1 = vecOf(q.initialLayout);
  if (n2 > n) {
    t.raw("{\"e\":\"grow\",\"s\":2,\"k\":" + std::to_string(n2 - n) + "}");
    t.raw("{\"e\":\"grow\",\"s\":1,\"k\":" + std::to_string(n2 - n) + "}");
  }
  emitPerm(t, 2, f1);
  emitScript(t, 2, after);
  if (p == "deferMeasurements") {
    // measurements come last, nothing depends on them
    bool seen = false, ok = true;
    for (const auto& o : after) { if (o.g == "measure") seen = true; else if (seen && o.g != "barrier") ok = false; }
    t.flag(ok, "an operation follows a measurement");
  }
  if (p == "eliminateResets") { // the qubits that were reset live on elsewhere: only classical data is comparable
    emitCmp(t, "chan", 6000, ",\"ka\":[],\"kb\":[]");
    return;
  }
  if (p == "removeDiagonal") { emitCmp(t, "stats", 6000); return; }
  if (p == "removeFinal") {
    // the result followed by the removed measurements is the original
    const std::function<std::vector<SOp>(const std::vector<SOp>&)> meas = [&](const std::vector<SOp>& v) {
      std::vector<SOp> w;
      for (const auto& o : v) { if (o.g == "measure") w.push_back(o); const auto x = meas(o.body); w.insert(w.end(), x.begin(), x.end()); }
      return w;
    };
    const auto m0 = meas(ref), m1 = meas(after);
    std::vector<SOp> removed;
    size_t j = 0; // m1 is a subsequence of m0
    std::vector<bool> kept(m0.size(), false);
    // match from the front: what is final is at the back
    for (size_t i = 0; i < m0.size(); ++i) if (j < m1.size() && show(m0[i]) == show(m1[j])) { ++j; kept[i] = true; }
    t.flag(j == m1.size(), "the remaining measurements are not among the original ones");
    for (size_t i = 0; i < m0.size(); ++i) if (!kept[i]) removed.push_back(m0[i]);
    emitScript(t, 2, removed);
    // no measurement is left that nothing follows
    std::vector<SOp> flat;
    const std::function<void(const std::vector<SOp>&)> fl = [&](const std::vector<SOp>& v) { for (const auto& o : v) { if (o.g == "compound" && o.cond.empty()) fl(o.body); else flat.push_back(o); } };
    fl(after);
    bool final = false;
    for (size_t i = 0; i < flat.size(); ++i) {
      if (flat[i].g != "measure" || !flat[i].cond.empty()) continue;
      bool follows = false;
      for (size_t l = i + 1; l < flat.size(); ++l) {
        for (const auto x : flat[i].t) follows = follows || touches(flat[l], x);
        for (const auto& c : flat[l].cond) for (const auto b : flat[i].bits) follows = follows || (b >= c.start && b < c.start + c.len);
        for (const auto b : flat[l].bits) for (const auto d : flat[i].bits) follows = follows || b == d;
      }
      final = final || !follows;
    }
    t.flag(!final || any(sc, [](const SOp& o) { return o.g == "i"; }), "a final measurement is left");
  }
  if (p == "deferMeasurements" || p == "collectBlocks") {
    // (the output permutation now describes the measurements)
    emitCmp(t, "chan", 6000, ",\"ka\":" + jarr(iota(n)) + ",\"kb\":" + jarr(iota(n)));
    return;
  }
  emitCmp(t, "chan", 6000, ",\"ka\":" + jarr(out0) + ",\"kb\":" + jarr(outs(q)));
}

// known finding: the existing tests expect this circuit to be deferred (to something else)
static void deferProbe(int, Rng&, Trace& t) {
  t.caseBasis(2, 1, 0, "h 0; measure 0->0; h 0; if(c[0]) x 1");
  qc::QuantumComputation q(2, 1);
  q.h(0);
  q.measure(0, 0);
  q.h(0);
  q.classicControlled(qc::X, 1, 0, 1U);
  emitScript(t, 1, fromIR(q));
  bool refused = false;
  try { CO::deferMeasurements(q); } catch (const std::runtime_error&) { refused = true; }
  if (refused) return;
  emitScript(t, 2, fromIR(q));
  emitCmp(t, "chan", 6000, ",\"ka\":[0,1],\"kb\":[0,1]");
}

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  if (a.mode == "pass") return runCases(a, passCase);
  if (a.mode == "dyn") return runCases(a, dynCase);
  if (a.mode == "deferprobe") return runCases(a, deferProbe);
  return 3;
}
