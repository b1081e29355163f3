// C11 inv; C12 eqv, comm, copy
#include "common.hpp"
using namespace vf;

static std::vector<int> inverse(const std::vector<int>& f) {
  std::vector<int> g(f.size());
  for (size_t i = 0; i < f.size(); ++i) g[f[i]] = static_cast<int>(i);
  return g;
}
static std::vector<int> ext(std::vector<int> f, int n) {
  for (int i = 0; i < n; ++i) f.push_back(n + i);
  return f;
}
static std::vector<int> vecOf(const qc::Permutation& p) {
  std::vector<int> v;
  for (const auto& [k, x] : p) v.push_back(static_cast<int>(x));
  return v;
}
static GenOpts opts(Rng& r, int n) {
  GenOpts o;
  o.n = n;
  o.maxCtrl = r.range(1, 3);
  o.compound = r.coin(50);
  return o;
}
// ---------------------------------------------------------------- C11
static void invCircuit(Rng& r, Trace& t) {
  const int n = r.pick(std::vector<int>{1, 2, 2, 3, 3});
  auto sc = randomCircuit(r, opts(r, n), r.range(1, 8));
  if (r.coin(40)) { SOp g; g.g = "gphase"; g.p = {angle(r)}; sc.insert(sc.begin() + r.below(static_cast<int>(sc.size()) + 1), g); }
  t.caseId(n, 1, "invert circuit n=" + std::to_string(n) + " " + show(sc));
  qc::QuantumComputation q(n);
  applyScript(q, sc, r);
  if (r.coin(50)) {
    const auto in = r.perm(n), out = r.perm(n);
    for (int i = 0; i < n; ++i) {
      q.initialLayout[i] = in[i];
      q.outputPermutation[i] = out[i];
    }
  }
  const auto in0 = vecOf(q.initialLayout), out0 = vecOf(q.outputPermutation);
  q.invert();
  const auto inv = fromIR(q);
  const double ph = q.getGlobalPhase();
  const auto in1 = vecOf(q.initialLayout), out1 = vecOf(q.outputPermutation);
  q.invert();
  const auto dbl = fromIR(q);
  // circuit, then its inverse: nothing happened
  emitPerm(t, 1, ext(in0, n));
  emitScript(t, 1, sc);
  emitPerm(t, 1, ext(inverse(out0), n));
  emitPerm(t, 1, ext(in1, n));
  emitScript(t, 1, inv);
  emitPhase(t, 1, ph);
  emitPerm(t, 1, ext(inverse(out1), n));
  emitCmp(t, "eq", 4000);
  // twice inverted is the original
  emitPerm(t, 1, ext(in0, n));
  emitScript(t, 1, sc);
  emitPerm(t, 1, ext(inverse(out0), n));
  emitPerm(t, 2, ext(vecOf(q.initialLayout), n));
  emitScript(t, 2, dbl);
  emitPhase(t, 2, q.getGlobalPhase());
  emitPerm(t, 2, ext(inverse(vecOf(q.outputPermutation)), n));
  emitCmp(t, "eq", 4000);
}
static void invOp(int id, Rng& r, Trace& t) {
  const auto& g = gates()[id % gates().size()];
  const int n = r.pick(std::vector<int>{2, 3});
  GenOpts o = opts(r, n);
  o.names = {g.name};
  SOp s = randomGate(r, o);
  if (r.coin(25)) {
    SOp c;
    c.g = "compound";
    GenOpts oo = opts(r, n);
    oo.compound = true;
    c.body = randomCircuit(r, oo, r.range(0, 4));
    c.body.insert(c.body.begin() + r.below(static_cast<int>(c.body.size()) + 1), s);
    s = c;
  }
  t.caseId(n, 1, "invert operation n=" + std::to_string(n) + " " + show(s));
  const auto op = makeOp(s);
  const auto before = show(fromIR(*op));
  const auto inv = op->getInverted();
  t.flag(show(fromIR(*op)) == before, "getInverted leaves the operation alone");
  emitScript(t, 1, {s});
  emitScript(t, 1, {fromIR(*inv)});
  emitCmp(t, "eq", 4000);
  emitScript(t, 1, {fromIR(*inv)});
  emitScript(t, 1, {fromIR(*op)});
  emitCmp(t, "eq", 4000);
  const auto back = inv->getInverted();
  emitScript(t, 1, {s});
  emitScript(t, 2, {fromIR(*back)});
  emitCmp(t, "eq", 4000);
}
static Cond randomCond(Rng& r, int nbits, bool bit) {
  Cond c;
  if (bit) { c.isBit = true; c.start = r.below(nbits); c.len = 1; c.cmp = r.coin(50) ? "==" : "!="; c.val = r.below(2); }
  else { c.isBit = false; c.start = 0; c.len = nbits; c.cmp = r.pick(std::vector<std::string>{"==", "!=", "<", "<=", ">", ">="}); c.val = r.below((1 << nbits) + 1); }
  return c;
}
// classical state from measurements, quantum state random: the same on both sides
static void prefix(Rng& r, Trace& t, int n, int nb) {
  GenOpts o;
  o.n = n;
  o.barrier = false;
  o.names = {"h", "ry", "rx", "x", "t", "p", "u"};
  std::vector<SOp> pre;
  for (int b = 0; b < nb; ++b) {
    SOp h; h.g = "h"; h.t = {0};
    SOp m; m.g = "measure"; m.t = {0}; m.bits = {b};
    pre.push_back(h);
    pre.push_back(m);
  }
  for (int i = 0; i < n; ++i) { SOp u; u.g = "u"; u.t = {i}; u.p = {angle(r) * 0.9 + 0.3, angle(r), angle(r)}; pre.push_back(u); }
  const auto ent = randomCircuit(r, o, 4);
  pre.insert(pre.end(), ent.begin(), ent.end());
  emitScript(t, 1, pre);
  emitScript(t, 2, pre);
}
static std::vector<int> iota(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
static void chan(Trace& t, int n) { emitCmp(t, "chan", 4000, ",\"ka\":" + jarr(iota(n)) + ",\"kb\":" + jarr(iota(n))); }

static void invCond(Rng& r, Trace& t) {
  const int n = 2, nb = 2;
  GenOpts o = opts(r, n);
  SOp s = r.coin(30) ? SOp{} : randomGate(r, o);
  if (s.g.empty()) { s.g = "compound"; o.compound = false; o.barrier = false; s.body = randomCircuit(r, o, r.range(1, 3)); }
  s.cond = {randomCond(r, nb, r.coin(40))};
  const bool wrap = r.coin(40);
  SOp w = s;
  if (wrap) { w = SOp{}; w.g = "compound"; o.barrier = false; w.body = randomCircuit(r, o, 2); w.body.insert(w.body.begin() + r.below(3), s); }
  t.caseBasis(n, nb, 0, "invert classically controlled " + show(w));
  qc::QuantumComputation q(n, nb);
  std::unique_ptr<qc::Operation> op;
  if (wrap) {
    auto c = std::make_unique<qc::CompoundOperation>();
    for (const auto& b : w.body) c->emplace_back(makeAny(b, q));
    op = std::move(c);
  } else op = makeAny(s, q);
  const auto inv = op->getInverted();
  prefix(r, t, n, nb);
  emitScript(t, 1, {w});
  emitScript(t, 1, {fromIR(*inv)});
  chan(t, n);
  // and through a circuit
  q.emplace_back(op->clone());
  q.invert();
  emitScript(t, 1, {w});
  emitScript(t, 1, fromIR(q));
  chan(t, n);
}
static void invRefuse(Rng& r, Trace& t) {
  const int n = 3;
  GenOpts o = opts(r, n);
  o.barrier = false;
  auto sc = randomCircuit(r, o, r.range(0, 4));
  SOp m;
  if (r.coin(50)) { m.g = "measure"; m.t = {r.below(n)}; m.bits = {r.below(2)}; }
  else { m.g = "reset"; m.t = {r.below(n)}; }
  if (r.coin(30)) m.cond = {randomCond(r, 2, r.coin(50))};
  int depth = r.below(3);
  for (; depth > 0; --depth) {
    SOp c; c.g = "compound";
    o.compound = false;
    c.body = randomCircuit(r, o, r.range(0, 2));
    c.body.insert(c.body.begin() + r.below(static_cast<int>(c.body.size()) + 1), m);
    m = c;
  }
  sc.insert(sc.begin() + r.below(static_cast<int>(sc.size()) + 1), m);
  t.begin("refuse to invert " + show(sc));
  qc::QuantumComputation q(n, 2);
  const std::function<std::unique_ptr<qc::Operation>(const SOp&)> mk = [&](const SOp& s) -> std::unique_ptr<qc::Operation> {
    if (s.g != "compound" || !s.cond.empty()) return makeAny(s, q);
    auto c = std::make_unique<qc::CompoundOperation>();
    for (const auto& b : s.body) c->emplace_back(mk(b));
    return c;
  };
  for (const auto& s : sc) q.emplace_back(mk(s));
  bool threw = false;
  try { q.invert(); } catch (const std::exception&) { threw = true; }
  t.flag(threw, "inverting a circuit with a measurement or reset is refused");
  threw = false;
  try { const auto x = mk(m)->getInverted(); } catch (const std::exception&) { threw = true; }
  t.flag(threw, "inverting an operation with a measurement or reset is refused");
}
// symbolic circuits: invert, then instantiate
static void invSym(Rng& r, Trace& t) {
  const int n = r.pick(std::vector<int>{1, 2, 2});
  GenOpts o = opts(r, n);
  o.compound = false;
  o.barrier = false;
  auto sc = randomCircuit(r, o, r.range(1, 4));
  t.caseId(n, 1, "invert symbolic " + show(sc));
  std::vector<sym::Variable> vars = {sym::Variable("a"), sym::Variable("b"), sym::Variable("c")};
  qc::VariableAssignment as;
  std::vector<double> val;
  for (const auto& v : vars) { val.push_back(r.coin(50) ? r.pick(niceAngles()) : angle(r)); as[v] = val.back(); }
  qc::QuantumComputation q(n);
  for (auto& s : sc) {
    if (s.p.empty()) { q.emplace_back(makeOp(s)); continue; }
    std::vector<qc::SymbolOrNumber> ps;
    for (auto& p : s.p) {
      if (r.coin(60)) {
        const int k = r.below(3);
        const double f = r.pick(std::vector<double>{1, -1, 0.5, 2});
        const double c = r.coin(50) ? r.pick(niceAngles()) : 0;
        qc::Symbolic e(sym::Term<qc::fp>(vars[k], f));
        e += c;
        p = f * val[k] + c;
        ps.emplace_back(e);
      } else ps.emplace_back(p);
    }
    std::vector<qc::Qubit> tg(s.t.begin(), s.t.end());
    if (tg.empty()) { // a global phase of the circuit is numeric
      q.emplace_back(makeOp(s));
    } else q.emplace_back(std::make_unique<qc::SymbolicOperation>(ctrls(s), tg, gate(s.g).type, ps));
  }
  q.invert();
  q.instantiateInplace(as);
  emitScript(t, 1, sc);
  emitScript(t, 1, fromIR(q));
  emitPhase(t, 1, q.getGlobalPhase());
  emitCmp(t, "eq", 4000);
}
static void invCase(int id, Rng& r, Trace& t) {
  switch (id % 6) {
  case 0: case 1: return invCircuit(r, t);
  case 2: return invOp(id / 6, r, t);
  case 3: return invCond(r, t);
  case 4: return invRefuse(r, t);
  default: return invSym(r, t);
  }
}

// ---------------------------------------------------------------- C12
static SOp mutate(Rng& r, SOp o, int n, int depth = 0) {
  if (o.g == "compound") {
    if (o.body.empty()) return o;
    const int k = r.below(5);
    if (k == 0 && o.body.size() > 1) { const int i = r.below(static_cast<int>(o.body.size()) - 1); std::swap(o.body[i], o.body[i + 1]); }
    else if (k == 1) o.body.pop_back();
    else { auto& b = o.body[r.below(static_cast<int>(o.body.size()))]; b = mutate(r, b, n, depth + 1); }
    return o;
  }
  for (int tries = 0; tries < 6; ++tries) {
    const int k = r.below(10);
    if (k == 0) return o;
    if (k <= 2 && !o.c.empty() && !o.t.empty()) { // exchange a target with a control
      auto& c = o.c[r.below(static_cast<int>(o.c.size()))];
      auto& tt = o.t[r.below(static_cast<int>(o.t.size()))];
      std::swap(c.first, tt);
      return o;
    }
    if (k == 3 && o.t.size() == 2) { std::swap(o.t[0], o.t[1]); return o; }
    if (k == 4 && !o.c.empty()) { auto& c = o.c[r.below(static_cast<int>(o.c.size()))]; c.second = 1 - c.second; return o; }
    if (k == 5 && !o.p.empty()) { auto& p = o.p[r.below(static_cast<int>(o.p.size()))]; p = r.pick(std::vector<double>{-p, p + 2 * qc::PI, p + qc::PI, angle(r), p + 1e-3}); return o; }
    if (k == 6 && o.p.size() >= 2) { std::swap(o.p[0], o.p.back()); return o; }
    if (k == 7) { // another type of the same shape
      if (o.g == "measure" || o.g == "reset" || o.g == "barrier") continue;
      const auto& gi = gate(o.g);
      std::vector<std::string> alt;
      for (const auto& g : gates()) if (g.targets == gi.targets && g.params == gi.params) alt.push_back(g.name);
      o.g = r.pick(alt);
      return o;
    }
    if (k == 8 && !o.cond.empty()) {
      auto& c = o.cond[0];
      if (c.isBit) { if (r.coin(50)) c.val = 1 - c.val; else c.start = 1 - c.start; }
      else if (r.coin(50)) c.cmp = r.pick(std::vector<std::string>{"==", "!=", "<", "<=", ">", ">="});
      else c.val = r.below(4);
      return o;
    }
    if (k == 9 && !o.bits.empty()) { if (o.bits.size() > 1) std::swap(o.bits[0], o.bits[1]); else o.bits[0] = 1 - o.bits[0]; return o; }
  }
  return o;
}
static SOp rename(SOp o, const std::vector<int>& f) {
  for (auto& q : o.t) q = f[q];
  for (auto& c : o.c) c.first = f[c.first];
  for (auto& b : o.body) b = rename(b, f);
  return o;
}
static bool unitary(const SOp& o) {
  if (!o.cond.empty() || o.g == "measure" || o.g == "reset") return false;
  for (const auto& b : o.body) if (!unitary(b)) return false;
  return true;
}
static SOp randomAnyOp(Rng& r, int n) {
  GenOpts o = opts(r, n);
  o.ctrlPct = 65;
  if (r.coin(40)) o.names = {"z", "s", "t", "p", "rz", "rzz", "i", "sdg", "x", "swap"};
  SOp s;
  const int k = r.below(10);
  if (k < 6) s = randomGate(r, o);
  else if (k < 8) {
    s.g = "compound";
    o.barrier = false;
    s.body = randomCircuit(r, o, r.range(1, 3));
  } else if (k == 8) {
    s.g = "measure";
    if (r.coin(50)) { s.t = {r.below(n)}; s.bits = {r.below(2)}; }
    else { auto p = r.perm(n); s.t = {p[0], p[1]}; s.bits = r.coin(50) ? std::vector<int>{0, 1} : std::vector<int>{1, 0}; }
  } else { s.g = "reset"; s.t = {r.below(n)}; }
  return s;
}
static std::unique_ptr<qc::Operation> build(const SOp& s, const qc::QuantumComputation& q) {
  if (s.g != "compound" || !s.cond.empty()) return makeAny(s, q);
  auto c = std::make_unique<qc::CompoundOperation>();
  for (const auto& b : s.body) c->emplace_back(build(b, q));
  return c;
}
static qc::Permutation permOf(const std::vector<int>& f) {
  qc::Permutation p;
  for (size_t i = 0; i < f.size(); ++i) p[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(f[i]);
  return p;
}
static size_t hashOf(const qc::Operation& o) {
  if (const auto* c = dynamic_cast<const qc::CompoundOperation*>(&o)) return std::hash<qc::CompoundOperation>{}(*c);
  if (const auto* c = dynamic_cast<const qc::ClassicControlledOperation*>(&o)) return std::hash<qc::ClassicControlledOperation>{}(*c);
  if (const auto* c = dynamic_cast<const qc::NonUnitaryOperation*>(&o)) return std::hash<qc::NonUnitaryOperation>{}(*c);
  return std::hash<qc::Operation>{}(o);
}
static void eqvCase(int id, Rng& r, Trace& t) {
  const int n = r.pick(std::vector<int>{2, 2, 3});
  qc::QuantumComputation q(n, 2);
  for (int round = 0; round < 12; ++round) {
    SOp a = randomAnyOp(r, n);
    if (r.coin(25) && a.bits.size() < 2 && (a.g != "compound" || unitary(a))) a.cond = {randomCond(r, 2, r.coin(40))};
    SOp b = mutate(r, a, n);
    if (r.coin(20)) b = mutate(r, b, n);
    const bool perm = r.coin(25);
    const auto f1 = perm ? r.perm(n) : iota(n), f2 = perm ? r.perm(n) : iota(n);
    if (perm && r.coin(70)) { const auto inv2 = inverse(f2); std::vector<int> m(n); for (int i = 0; i < n; ++i) m[i] = inv2[f1[i]]; b = rename(b, m); }
    const auto oa = build(a, q), ob = build(b, q);
    const bool eq = perm ? oa->equals(*ob, permOf(f1), permOf(f2)) : *oa == *ob;
    const std::string what = std::string("equality of ") + show(a) + " and " + show(b);
    if (!perm) {
      t.flag((*ob == *oa) == eq, "equality is symmetric: " + what);
      t.flag(*oa == *oa && *oa->clone() == *oa, "equality is reflexive: " + show(a));
      if (eq) t.flag(hashOf(*oa) == hashOf(*ob) && std::hash<qc::Operation>{}(*oa) == std::hash<qc::Operation>{}(*ob), "equal operations have equal hashes: " + what);
    }
    if (!eq) {
      // a copy of the script must be equal to it
      if (show(a) == show(b) && !perm) t.flag(false, "identical operations are equal: " + what);
      continue;
    }
    if (show(a) == show(b)) continue;
    const bool u = unitary(a) && unitary(b);
    if (u) t.caseId(n, 2, what); else { t.caseBasis(n, 2, 0, what); prefix(r, t, n, 2); }
    emitScript(t, 1, {rename(a, f1)});
    emitScript(t, 2, {rename(b, f2)});
    if (u) emitCmp(t, "eq", 3000); else chan(t, n);
  }
}
static void commCase(int id, Rng& r, Trace& t) {
  const int n = r.pick(std::vector<int>{2, 2, 3});
  qc::QuantumComputation q(n, 2);
  for (int round = 0; round < 14; ++round) {
    SOp a = randomAnyOp(r, n), b = r.coin(50) ? randomAnyOp(r, n) : mutate(r, a, n);
    if (!unitary(a) && !r.coin(50)) continue;
    if (r.coin(15) && unitary(a)) a.cond = {randomCond(r, 2, r.coin(40))};
    if (r.coin(15) && unitary(b)) b.cond = {randomCond(r, 2, r.coin(40))};
    const auto oa = build(a, q), ob = build(b, q);
    bool comm = true;
    std::set<qc::Qubit> shared;
    const auto ub = ob->getUsedQubits();
    for (const auto x : oa->getUsedQubits()) if (ub.count(x)) shared.insert(x);
    for (const auto x : shared) comm = comm && oa->commutesAtQubit(*ob, x);
    // operations tied by classical bits only are not what this query is about
    const auto classical = [](const SOp& s) { return !unitary(s); };
    if (comm && !shared.empty() && !(classical(a) && classical(b))) {
      const std::string what = "commutation of " + show(a) + " and " + show(b);
      const bool u = unitary(a) && unitary(b);
      if (u) t.caseId(n, 2, what); else { t.caseBasis(n, 2, 0, what); prefix(r, t, n, 2); }
      emitScript(t, 1, {a, b});
      emitScript(t, 2, {b, a});
      if (u) emitCmp(t, "eq", 4000); else chan(t, n);
    }
    // inverses
    if (unitary(a)) {
      SOp c;
      if (r.coin(70)) {
        c = fromIR(*oa->getInverted());
        if (r.coin(60)) c = mutate(r, c, n);
      } else c = mutate(r, a, n);
      const auto oc = build(c, q);
      if (!unitary(c)) continue;
      const auto exact = oa->getInverted();
      if (*oc == *exact && a.g != "compound") t.flag(oa->isInverseOf(*oc) || !(*oa->getInverted() == *oc) || !(*oc->getInverted() == *oa), "the inverse is recognised: " + show(a) + " / " + show(c));
      if (oa->isInverseOf(*oc)) {
        t.caseId(n, 2, "inverse of each other: " + show(a) + " and " + show(c));
        emitScript(t, 1, {a, c});
        emitCmp(t, "eq", 4000);
        emitScript(t, 1, {c, a});
        emitCmp(t, "eq", 4000);
      }
    }
  }
}
static bool sameInEveryRespect(const qc::Operation& a, const qc::Operation& b, std::string& why) {
  const auto chk = [&](bool ok, const char* w) { if (!ok && why.empty()) why = w; return ok; };
  bool ok = chk(a.getType() == b.getType(), "type") & chk(a.getName() == b.getName(), "name") & chk(a.getTargets() == b.getTargets(), "targets") &
            chk(a.getControls() == b.getControls(), "controls") & chk(a.getParameter() == b.getParameter(), "parameters") &
            chk(a == b, "==") & chk(a.isUnitary() == b.isUnitary(), "isUnitary") & chk(a.isStandardOperation() == b.isStandardOperation(), "isStandardOperation") &
            chk(a.isCompoundOperation() == b.isCompoundOperation(), "isCompound") & chk(a.isNonUnitaryOperation() == b.isNonUnitaryOperation(), "isNonUnitary") &
            chk(a.isClassicControlledOperation() == b.isClassicControlledOperation(), "isClassicControlled") &
            chk(a.isSymbolicOperation() == b.isSymbolicOperation(), "isSymbolic") & chk(a.getUsedQubits() == b.getUsedQubits(), "used qubits") &
            chk(hashOf(a) == hashOf(b), "hash") & chk(show(fromIR(a)) == show(fromIR(b)), "content");
  if (const auto* ca = dynamic_cast<const qc::CompoundOperation*>(&a)) {
    const auto& cb = dynamic_cast<const qc::CompoundOperation&>(b);
    ok = ok & chk(ca->size() == cb.size(), "size") & chk(ca->isCustomGate() == cb.isCustomGate(), "custom gate");
    if (ok) for (size_t i = 0; i < ca->size(); ++i) ok = ok && sameInEveryRespect(*ca->at(i), *cb.at(i), why) && chk(ca->at(i).get() != cb.at(i).get(), "shared sub-operation");
  }
  return ok;
}
// everything that can be observed of a circuit
static std::string observe(const qc::QuantumComputation& q) {
  std::ostringstream o;
  o << q.getNqubitsWithoutAncillae() << " " << q.getNancillae() << " " << q.getNcbits() << " " << std::hexfloat << q.getGlobalPhase() << std::defaultfloat << "|";
  const auto regs = [&](const auto& m) {
    std::map<std::string, std::pair<std::size_t, std::size_t>> s;
    for (const auto& [name, reg] : m) s[name] = {reg.getStartIndex(), reg.getSize()};
    for (const auto& [name, x] : s) o << name << "@" << x.first << "+" << x.second << ",";
    o << "|";
  };
  regs(q.getQuantumRegisters());
  regs(q.getAncillaRegisters());
  regs(q.getClassicalRegisters());
  for (const auto& [k, v] : q.initialLayout) o << k << ">" << v << ",";
  o << "|";
  for (const auto& [k, v] : q.outputPermutation) o << k << ">" << v << ",";
  o << "|";
  for (qc::Qubit i = 0; i < q.getNqubits(); ++i) o << q.logicalQubitIsAncillary(i) << q.logicalQubitIsGarbage(i) << ",";
  o << "|" << show(fromIR(q));
  return o.str();
}
// circuits compare equal exactly if nothing tells them apart
static void circuitEquality(Rng& r, Trace& t) {
  const int n = 3;
  const auto structural = [&](qc::QuantumComputation& c, int kind) {
    const auto nq = static_cast<int>(c.getNqubits());
    switch (kind) {
    case 0: c.setLogicalQubitAncillary(static_cast<qc::Qubit>(r.below(nq))); return;
    case 1: c.setLogicalQubitGarbage(static_cast<qc::Qubit>(r.below(nq))); return;
    case 2: { auto p = r.perm(nq); c.initialLayout = permOf(p); return; }
    case 3: { auto p = r.perm(nq); qc::Permutation m; for (int i = 0; i < r.below(nq + 1); ++i) m[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(p[i]); c.outputPermutation = m; return; }
    case 4: c.addClassicalRegister(r.range(1, 2), "c" + std::to_string(r.below(90))); return;
    case 5: if (nq < 6) c.addQubitRegister(1, "r" + std::to_string(r.below(90))); return;
    case 6: if (nq < 6) c.addAncillaryRegister(1, "a" + std::to_string(r.below(90))); return;
    case 7: c.gphase(angle(r)); return;
    case 8: c.x(static_cast<qc::Qubit>(r.below(2))); return;
    default: if (c.getNops() > 0) c.pop_back(); return;
    }
  };
  for (int round = 0; round < 8; ++round) {
    qc::QuantumComputation a(n, 2);
    for (int i = 0; i < r.below(3); ++i) a.h(static_cast<qc::Qubit>(r.below(n)));
    const auto attemptKind = [&](qc::QuantumComputation& c, int kind) { try { structural(c, kind); } catch (const std::exception&) {} };
    const auto attempt = [&](qc::QuantumComputation& c) { attemptKind(c, r.below(10)); };
    for (int i = 0; i < r.below(5); ++i) attempt(a);
    qc::QuantumComputation b = a;
    t.flag(observe(a) == observe(b) && a == b, "copied circuit equals " + observe(a));
    // changes of one kind to both: they often agree in every count and differ in one place only
    if (r.coin(60)) { const int kind = r.coin(60) ? r.below(4) : r.below(10); attemptKind(a, kind); attemptKind(b, kind); }
    const auto before = observe(a);
    if (r.coin(50)) { attempt(b); if (r.coin(20)) attempt(b); }
    t.flag(observe(a) == before, "changing a copy leaves the circuit alone: " + before);
    const bool same = observe(a) == observe(b);
    t.flag((a == b) == same && (b == a) == same && (a != b) == !same, std::string("circuits ") + (same ? "equal: " : "differ: ") + observe(a) + " and " + observe(b));
  }
}
static void copyCase(int id, Rng& r, Trace& t) {
  const int n = 3;
  qc::QuantumComputation q(n, 2);
  t.begin("copies");
  const auto rnd = [&]() {
    SOp a = randomAnyOp(r, n);
    if (r.coin(40) && (a.g != "compound" || unitary(a))) a.cond = {randomCond(r, 2, r.coin(30))};
    return a;
  };
  for (int round = 0; round < 10; ++round) {
    SOp a = rnd();
    if (r.coin(20)) { SOp w; w.g = "compound"; w.body = {a, rnd()}; a = w; }
    const auto o = build(a, q);
    std::string why;
    const auto c = o->clone();
    t.flag(sameInEveryRespect(*o, *c, why), "clone of " + show(a) + " differs in " + why);
    t.flag(show(fromIR(*o)) == show(fromIR(*build(fromIR(*o), q))), "content of " + show(a) + " survives reconstruction");
    // assignment between operations of one class
    const SOp b = rnd();
    const auto p = build(b, q);
    why.clear();
    const auto assign = [&](auto* x, auto* y) {
      if (x == nullptr || y == nullptr) return;
      *y = *x;
      t.flag(sameInEveryRespect(*x, *y, why), "assignment of " + show(a) + " differs in " + why);
    };
    assign(dynamic_cast<qc::ClassicControlledOperation*>(o.get()), dynamic_cast<qc::ClassicControlledOperation*>(p.get()));
    assign(dynamic_cast<qc::CompoundOperation*>(o.get()), dynamic_cast<qc::CompoundOperation*>(p.get()));
    assign(dynamic_cast<qc::NonUnitaryOperation*>(o.get()), dynamic_cast<qc::NonUnitaryOperation*>(p.get()));
    if (typeid(*o) == typeid(qc::StandardOperation) && typeid(*p) == typeid(qc::StandardOperation))
      assign(dynamic_cast<qc::StandardOperation*>(o.get()), dynamic_cast<qc::StandardOperation*>(p.get()));
    // changing the copy leaves the original alone
    const auto before = show(fromIR(*o));
    const auto m = o->clone();
    m->apply(permOf(r.perm(n)));
    if (unitary(a)) m->invert();
    if (auto* k = dynamic_cast<qc::CompoundOperation*>(m.get()); k != nullptr && !k->empty()) k->getOps().pop_back();
    t.flag(show(fromIR(*o)) == before, "a copy is independent of " + show(a));
  }
  // whole circuits
  qc::QuantumComputation qq(n, 2);
  for (int i = 0; i < 5; ++i) qq.emplace_back(build(rnd(), qq));
  qq.gphase(angle(r));
  const qc::QuantumComputation cp = qq; // NOLINT
  t.flag(show(fromIR(cp)) == show(fromIR(qq)) && cp == qq && cp.getGlobalPhase() == qq.getGlobalPhase(), "copied circuit equals the original");
  circuitEquality(r, t);
}
// C30: renaming the qubits of operations; permutations as maps
static void permCase(int id, Rng& r, Trace& t) {
  const int n = 3;
  qc::QuantumComputation q(n, 2);
  t.begin("renamed operations");
  for (int round = 0; round < 2; ++round) {
    SOp a = randomAnyOp(r, n);
    if (r.coin(25) && a.bits.size() < 2 && (a.g != "compound" || unitary(a))) a.cond = {randomCond(r, 2, r.coin(40))};
    if (r.coin(20)) { SOp w; w.g = "compound"; w.body = {a, randomAnyOp(r, n)}; a = w; }
    const auto f = r.perm(n);
    const auto oa = build(a, q);
    const auto before = oa->getUsedQubits();
    const auto after = oa->getUsedQubitsPermuted(permOf(f));
    const auto ob = oa->clone();
    ob->apply(permOf(f));
    std::set<qc::Qubit> want;
    for (const auto x : before) want.insert(static_cast<qc::Qubit>(f[x]));
    t.flag(want == after && (a.g == "barrier" || want == ob->getUsedQubits()), "renamed qubits used by " + show(a));
    for (int x = 0; x < n; ++x) t.flag(oa->actsOn(x) == ob->actsOn(f[x]), "renamed operation acts on the renamed qubits: " + show(a));
    const bool u = unitary(a);
    const auto what = "renaming qubits " + jarr(f) + " of " + show(a);
    if (u) t.caseId(n, 2, what); else { t.caseBasis(n, 2, 0, what); prefix(r, t, n, 2); }
    const auto wide = [&](std::vector<int> x) { if (u) for (int j = 0; j < n; ++j) x.push_back(n + j); return x; };
    emitPerm(t, 1, wide(f));
    emitScript(t, 1, {a});
    emitPerm(t, 1, wide(inverse(f)));
    emitScript(t, 2, {fromIR(*ob)});
    if (u) emitCmp(t, "eq", 3000); else chan(t, n);
    // applying the inverse restores the operation, an empty permutation changes nothing
    const auto oc = ob->clone();
    oc->apply({});
    t.flag(show(fromIR(*oc)) == show(fromIR(*ob)), "the empty permutation is the identity on " + show(a));
    oc->apply(permOf(inverse(f)));
    t.flag(show(fromIR(*oc)) == show(fromIR(*oa)), "the inverse permutation restores " + show(a));
    // equality up to renaming
    t.flag(oa->equals(*ob, permOf(f), permOf(iota(n))) && ob->equals(*oa, permOf(iota(n)), permOf(f)), "equal up to renaming " + jarr(f) + ": " + show(a));
  }
  // the maps themselves (arbitrary partial injections)
  for (int round = 0; round < 4; ++round) {
    qc::Permutation p;
    const auto v = r.perm(7), k = r.perm(7);
    const int m = r.below(6);
    for (int i = 0; i < m; ++i) p[static_cast<qc::Qubit>(k[i])] = static_cast<qc::Qubit>(v[i]);
    std::vector<qc::Qubit> ts;
    qc::Controls cs;
    for (int i = 0; i < 7; ++i) {
      long y = -1;
      try { y = p.apply(static_cast<qc::Qubit>(i)); } catch (const std::out_of_range&) {}
      t.raw("{\"e\":\"papp\",\"f\":" + jarr(p, [](const auto& x) { return "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }) + ",\"q\":" + std::to_string(i) + ",\"r\":" + std::to_string(y) +
            ",\"mk\":" + std::to_string(p.maxKey()) + ",\"mv\":" + std::to_string(p.maxValue()) + "}");
      if (m > 0 && r.coin()) { const auto x = static_cast<qc::Qubit>(k[r.below(m)]); ts.push_back(x); cs.emplace(x, r.coin() ? qc::Control::Type::Pos : qc::Control::Type::Neg); }
    }
    const auto pt = p.apply(ts);
    const auto pc = p.apply(cs);
    bool ok = pt.size() == ts.size() && pc.size() == cs.size();
    for (size_t i = 0; ok && i < ts.size(); ++i) ok = pt[i] == p.apply(ts[i]);
    for (const auto& c : cs) ok = ok && pc.count(qc::Control{p.apply(c.qubit), c.type}) == 1;
    t.flag(ok, "targets and controls are mapped element by element");
  }
}

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  const std::map<std::string, std::function<void(int, Rng&, Trace&)>> M = {{"inv", invCase}, {"eqv", eqvCase}, {"comm", commCase}, {"copy", copyCase}, {"perm", permCase}};
  return runCases(a, M.at(a.mode));
}
