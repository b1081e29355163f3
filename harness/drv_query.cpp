// C31: queries and edits of operations and circuits.
//   query: circuits of arbitrarily nested operations and everything they say about themselves (IRQuery)
//   edit: controls added to and removed from operations; the diagram of the result (CircTrace)
#include "common.hpp"
#include "dyncirc.hpp"
#include "dd/Operations.hpp"
#include "dd/Package.hpp"
#include "ir/operations/SymbolicOperation.hpp"
using namespace vf;
using std::to_string;

static std::string obs(int side, const std::string& d, const std::string& rel, long tol) {
  return "{\"e\":\"obs\",\"s\":" + std::to_string(side) + ",\"d\":" + d + ",\"rel\":" + jstr(rel) + ",\"tol\":" + std::to_string(tol) + "}";
}
static std::string jmat(const dd::MatrixDD& e, int n) {
  const auto m = e.getMatrix(n);
  std::string r = "[";
  for (size_t c = 0; c < (1U << n); ++c)
    for (size_t row = 0; row < (1U << n); ++row) {
      if (c + row > 0) r += ',';
      r += std::to_string(fix(m[row][c].real())) + "," + std::to_string(fix(m[row][c].imag()));
    }
  return r + "]";
}
static std::string B(bool b) { return b ? "true" : "false"; }
// operations as IRQuery sees them
static std::string tree(const SOp& o) {
  const bool cond = !o.cond.empty();
  if (cond) {
    SOp in = o;
    const auto c = in.cond.front();
    in.cond.erase(in.cond.begin());
    std::vector<int> b;
    for (int i = 0; i < c.len; ++i) b.push_back(c.start + i);
    return "{\"k\":\"if\",\"t\":[],\"c\":[],\"b\":" + jarr(b) + ",\"a\":" + jstr(c.cmp + to_string(c.val)) + ",\"in\":[" + tree(in) + "]}";
  }
  const auto k = o.g == "compound" ? "c" : o.g == "measure" ? "m" : o.g == "reset" ? "r" : o.g == "barrier" ? "b" : "g";
  std::vector<int> c;
  for (const auto& x : o.c) c.push_back(x.first);
  std::sort(c.begin(), c.end());
  std::ostringstream a;
  a.precision(17);
  a << o.g;
  for (const auto p : o.p) a << ' ' << p;
  if (o.g == "compound") { a.str(""); a << "compound"; }
  return std::string("{\"k\":\"") + k + "\",\"t\":" + jarr(o.t) + ",\"c\":" + jarr(c) + ",\"b\":" + jarr(o.bits) + ",\"a\":" + jstr(a.str()) + ",\"in\":" + jarr(o.body, tree) + "}";
}
static std::string tree(const qc::QuantumComputation& q) { return jarr(fromIR(q), [](const SOp& o) { return tree(o); }); }

static SOp randomNested(Rng& r, int n, int nb, const std::vector<Reg>& cr, int depth) {
  SOp s;
  const int k = r.below(depth > 0 ? 14 : 10);
  if (k < 6) {
    GenOpts o; o.n = n;
    if (r.coin(50)) { o.ctrlPct = 15; o.names = {"h", "x", "rz", "t", "swap"}; }
    return randomGate(r, o);
  }
  if (k < 7) { s.g = "barrier"; const auto q = r.perm(n); const int w = r.range(std::min(2, n), n); for (int i = 0; i < w; ++i) s.t.push_back(q[i]); if (n == 1) { s.g = "h"; } return s; }
  if (k < 9) {
    s.g = "measure"; const auto q = r.perm(n), b = r.perm(nb); const int w = r.range(1, std::min(n, nb));
    for (int i = 0; i < w; ++i) { s.t.push_back(q[i]); s.bits.push_back(b[i]); }
    return s;
  }
  if (k < 10) { s.g = "reset"; const auto q = r.perm(n); const int w = r.range(1, n); for (int i = 0; i < w; ++i) s.t.push_back(q[i]); return s; }
  if (k < 13) {
    s.g = "compound";
    if (r.coin(25)) { // the same gate on many qubits
      GenOpts o; o.n = n; o.two = false; o.ctrlPct = 10; o.gphase = false;
      const auto g = randomGate(r, o);
      const int w = r.range(std::max(1, n - 1), n);
      const auto q = r.perm(n);
      for (int i = 0; i < w; ++i) { auto x = g; x.t = {q[i]}; x.c.clear(); s.body.push_back(x); }
      if (r.coin(20)) s.body[r.below(w)] = randomGate(r, o);
      return s;
    }
    const int w = r.coin(6) ? 0 : r.range(1, 4);
    for (int i = 0; i < w; ++i) s.body.push_back(randomNested(r, n, nb, cr, depth - 1));
    return s;
  }
  do { s = randomNested(r, n, nb, cr, depth - 1); } while (!s.cond.empty() || s.g == "barrier");
  s.cond = {regCond(r, cr)};
  return s;
}

static void queries(Trace& t, const qc::QuantumComputation& q, int n) {
  std::vector<int> idle;
  for (int i = 0; i < n; ++i) if (q.isIdleQubit(static_cast<qc::Qubit>(i))) idle.push_back(i);
  t.raw("{\"e\":\"qcirc\",\"n\":" + to_string(n) + ",\"nops\":" + to_string(q.getNops()) + ",\"nind\":" + to_string(q.getNindividualOps()) + ",\"nsingle\":" + to_string(q.getNsingleQubitOps()) +
        ",\"depth\":" + to_string(q.getDepth()) + ",\"dyn\":" + B(q.isDynamic()) + ",\"idle\":" + jarr(idle) + "}");
}
static void opQueries(Trace& t, const qc::QuantumComputation& q, size_t i, int n) {
  const auto& op = *q.at(i);
  const auto u = op.getUsedQubits();
  std::vector<int> acts;
  for (int j = 0; j < n; ++j) if (op.actsOn(static_cast<qc::Qubit>(j))) acts.push_back(j);
  t.raw("{\"e\":\"qop\",\"i\":" + to_string(i + 1) + ",\"n\":" + to_string(n) + ",\"used\":" + jarr(std::vector<int>(u.begin(), u.end())) + ",\"nq\":" + to_string(op.getNqubits()) +
        ",\"acts\":" + jarr(acts) + ",\"unitary\":" + B(op.isUnitary()) + ",\"nonunitary\":" + B(op.isNonUnitaryOperation()) + ",\"isif\":" + B(op.isClassicControlledOperation()) +
        ",\"iscomp\":" + B(op.isCompoundOperation()) + ",\"isstd\":" + B(op.isStandardOperation()) + ",\"global\":" + B(op.isGlobal(static_cast<size_t>(n))) +
        ",\"nt\":" + to_string(op.getNtargets()) + ",\"nc\":" + to_string(op.getNcontrols()) + ",\"ctrl\":" + B(op.isControlled()) + "}");
}
static void queryCase(Rng& r, Trace& t) {
  const int n = r.range(1, 5), nb = r.range(1, 4);
  size_t k = 0;
  const auto cr = split(r, nb, {"c", "d", "e", "f"}, k);
  qc::QuantumComputation q(n);
  for (const auto& g : cr) q.addClassicalRegister(static_cast<size_t>(g.size), g.name);
  std::vector<SOp> s;
  const int len = r.range(0, 8);
  for (int i = 0; i < len; ++i) s.push_back(randomNested(r, n, nb, cr, 3));
  for (const auto& o : s) q.emplace_back(deep(o, q));
  t.raw("{\"e\":\"circ\",\"ops\":" + tree(q) + "}");
  t.flag(q.size() == s.size() && q.empty() == s.empty(), "as many operations as were added");
  const auto ask = [&](const qc::QuantumComputation& c) {
    queries(t, c, n);
    for (size_t i = 0; i < c.getNops(); ++i) opQueries(t, c, i, n);
  };
  ask(q);
  const int edits = r.range(0, 4);
  for (int e = 0; e < edits; ++e) {
    const int w = r.below(5);
    const auto sz = static_cast<int>(q.getNops());
    if (w == 0 && sz > 0) { const int i = r.below(sz); q.erase(q.begin() + i); t.raw("{\"e\":\"erase\",\"i\":" + to_string(i + 1) + "}"); }
    else if (w == 1) {
      const auto o = randomNested(r, n, nb, cr, 2);
      const int i = r.below(sz + 1);
      auto op = deep(o, q);
      const auto seen = tree(fromIR(*op));
      q.insert(q.begin() + i, std::move(op));
      t.raw("{\"e\":\"insert\",\"i\":" + to_string(i + 1) + ",\"op\":" + seen + "}");
    } else if (w == 2) {
      qc::QuantumComputation c(r.range(1, 3));
      c.h(0);
      if (r.coin(50)) c.gphase(0.5);
      c = q;
      t.raw("{\"e\":\"copied\",\"ops\":" + tree(c) + "}");
      t.flag(c == q && c.getName() == q.getName() && c.getGlobalPhase() == q.getGlobalPhase() && c.getNqubits() == q.getNqubits() && c.getNcbits() == q.getNcbits() &&
             c.initialLayout == q.initialLayout && c.outputPermutation == q.outputPermutation && c.getQuantumRegisters().size() == q.getQuantumRegisters().size(), "a circuit and what it was assigned to");
      if (!c.empty() && r.coin(50)) { c.erase(c.begin()); t.raw("{\"e\":\"copied\",\"ops\":" + tree(q) + "}"); } // the original is unaffected
      else ask(c);
    } else if (w == 3 && sz > 0) {
      const int i = r.below(sz);
      if (const auto* c = dynamic_cast<const qc::CompoundOperation*>(q.at(static_cast<size_t>(i)).get())) {
        const auto f = qc::QuantumComputation::fromCompoundOperation(*c);
        t.raw("{\"e\":\"from\",\"i\":" + to_string(i + 1) + ",\"ops\":" + tree(f) + ",\"nq\":" + to_string(f.getNqubits()) + ",\"nb\":" + to_string(f.getNcbits()) + "}");
      }
    } else if (w == 4) {
      const qc::QuantumComputation c(q);
      t.raw("{\"e\":\"copied\",\"ops\":" + tree(c) + "}");
      if (r.coin(10)) { q.reset(); t.raw("{\"e\":\"clear\"}"); return; }
    }
    if (r.coin(60)) ask(q);
  }
  ask(q);
}

// controls are added to and removed from an operation
static qc::Control ctl(const std::pair<int, int>& c) { return {static_cast<qc::Qubit>(c.first), c.second ? qc::Control::Type::Pos : qc::Control::Type::Neg}; }
static void leaves(SOp& o, const std::function<void(SOp&)>& f) { if (o.g == "compound") for (auto& b : o.body) leaves(b, f); else f(o); }
static void editCase(Rng& r, Trace& t) {
  const int n = r.range(2, 4);
  GenOpts o; o.n = r.range(1, n); o.maxCtrl = 2; o.barrier = false;
  SOp base;
  const bool comp = r.coin(50);
  if (comp) { base.g = "compound"; o.compound = true; base.body = randomCircuit(r, o, r.range(1, 3)); }
  else base = randomGate(r, o);
  std::unique_ptr<qc::Operation> op = makeOp(base);
  std::vector<std::pair<int, int>> extra = comp ? std::vector<std::pair<int, int>>{} : base.c; // the operation's own controls
  std::string what;
  const int steps = r.range(1, 6);
  const auto current = [&]() {
    SOp x = base;
    if (comp) leaves(x, [&](SOp& y) { for (auto& c : extra) y.c.push_back(c); });
    else x.c = extra;
    return x;
  };
  std::set<int> own; used(base, own);
  if (!comp) for (auto& c : base.c) own.erase(c.first);
  for (int i = 0; i < steps; ++i) {
    const auto actsOn = [&](int q) { return own.count(q) > 0 || std::any_of(extra.begin(), extra.end(), [&](auto& c) { return c.first == q; }); };
    std::vector<int> freeQ;
    for (int q = 0; q < n; ++q) if (!actsOn(q)) freeQ.push_back(q);
    const auto random = [&](int from) { return std::pair<int, int>(from, r.coin(60) ? 1 : 0); };
    const int k = r.below(10);
    if (k < 3) { // add one
      const int q = r.below(n);
      const auto c = random(q);
      const bool bad = actsOn(q);
      bool thrown = false;
      try { op->addControl(ctl(c)); } catch (const std::exception&) { thrown = true; }
      what += " add " + to_string(q);
      if (thrown != bad) { t.caseId(n, 1, "x"); t.flag(false, "control on qubit " + to_string(q) + " accepted or rejected wrongly" + what + " on " + show(base)); return; }
      if (!bad) extra.push_back(c);
    } else if (k < 4 && !freeQ.empty()) { // add some
      qc::Controls cs;
      for (int q : freeQ) if (r.coin(60)) { const auto c = random(q); cs.insert(ctl(c)); extra.push_back(c); }
      op->addControls(cs); what += " add several";
    } else if (k < 5) { // remove one
      if (!extra.empty() && r.coin(75)) {
        const int j = r.below(static_cast<int>(extra.size()));
        op->removeControl(ctl(extra[j])); extra.erase(extra.begin() + j); what += " remove";
      } else {
        auto c = random(r.below(n));
        if (std::find(extra.begin(), extra.end(), c) != extra.end()) c.second = 1 - c.second; // the other polarity is not there
        bool thrown = false;
        try { op->removeControl(ctl(c)); } catch (const std::exception&) { thrown = true; }
        what += " remove none";
        if (!thrown) { t.caseId(n, 1, "x"); t.flag(false, "removed a control that is not there" + what + " from " + show(base)); return; }
      }
    } else if (k < 6) { // remove some
      qc::Controls cs;
      std::vector<std::pair<int, int>> keep;
      for (auto& c : extra) if (r.coin(60)) cs.insert(ctl(c)); else keep.push_back(c);
      op->removeControls(cs); extra = keep; what += " remove several";
    } else if (k < 7) { op->clearControls(); extra.clear(); what += " clear"; }
    else if (k < 8) {
      qc::Controls cs;
      std::vector<std::pair<int, int>> now;
      std::vector<int> f;
      for (int q = 0; q < n; ++q) if (own.count(q) == 0) f.push_back(q);
      for (int q : f) if (r.coin(50)) { const auto c = random(q); cs.insert(ctl(c)); now.push_back(c); }
      op->setControls(cs); extra = now; what += " set";
    } else if (k < 9) { op = op->clone(); what += " clone"; }
    else {
      const auto& cs = op->getControls();
      qc::Controls want;
      for (auto& c : extra) want.insert(ctl(c));
      if (cs != want || op->getNcontrols() != want.size() || op->isControlled() != !want.empty()) { t.caseId(n, 1, "x"); t.flag(false, "the controls of" + what + " on " + show(base)); return; }
    }
  }
  t.caseId(n, 1, "controls:" + what + " on " + show(base));
  emitScript(t, 1, {current()});
  dd::Package p(n);
  t.raw(obs(1, jmat(dd::getDD(*op, p), n), "eq", 3000));
}

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  return runCases(a, [&](int, Rng& r, Trace& t) { if (a.mode == "query") queryCase(r, t); else editCase(r, t); });
}
