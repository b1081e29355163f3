// C13: expr (SymTrace), circ (CircTrace)
#include "common.hpp"
#include "ir/operations/Expression.hpp"
using namespace vf;
using E = qc::Symbolic;
using T = sym::Term<qc::fp>;

static std::vector<sym::Variable> V() {
  static const std::vector<sym::Variable> v = {sym::Variable("alpha"), sym::Variable("beta"), sym::Variable("gamma"), sym::Variable("delta")};
  return v;
}
static int idx(const sym::Variable& v) { for (int i = 0; i < 4; ++i) if (V()[i] == v) return i; return 99; }
static long u(double x) { return std::lround(x * 4096); }
static bool tame(const E& e) { // stays inside the exactly representable range of the specification
  const auto ok = [](double x) { return std::abs(x) < 900 && x * 256 == std::floor(x * 256); };
  if (!ok(e.getConst())) return false;
  for (const auto& t : e) if (!ok(t.getCoeff())) return false;
  return true;
}
static std::string terms(const E& e) { return jarr(e.getTerms(), [](const T& t) { return "[" + std::to_string(idx(t.getVar())) + "," + std::to_string(u(t.getCoeff())) + "]"; }); }

static void exprCase(int id, Rng& r, Trace& t) {
  std::vector<E> bank(6);
  const std::vector<double> consts = {0, 1, -1, 0.5, 2, 3, -0.25, 1.75};
  const std::vector<double> factors = {1, -1, 2, 0.5, 3, -2, 0, 4, 0.25};
  const std::vector<double> divisors = {1, -1, 2, 0.5, -2, 4, 0.25};
  const auto obs = [&](int k) {
    std::set<int> vs;
    for (const auto& v : bank[k].getVariables()) vs.insert(idx(v));
    t.raw("{\"e\":\"obs\",\"k\":" + std::to_string(k) + ",\"ts\":" + terms(bank[k]) + ",\"c\":" + std::to_string(u(bank[k].getConst())) +
          ",\"zero\":" + (bank[k].isZero() ? "true" : "false") + ",\"const\":" + (bank[k].isConstant() ? "true" : "false") + ",\"vars\":" + jarr(vs) + "}");
  };
  const auto fresh = [&](int k) {
    std::vector<T> ts;
    const int n = r.below(5);
    for (int i = 0; i < n; ++i) ts.emplace_back(V()[r.below(4)], r.pick(consts));
    const double c = r.pick(consts);
    if (n > 0 && r.coin(50)) {
      const double cc = 0;
      bank[k] = n == 1 ? E(ts[0]) : n == 2 ? E(ts[0], ts[1]) : n == 3 ? E(ts[0], ts[1], ts[2]) : E(ts[0], ts[1], ts[2], ts[3]);
      t.raw("{\"e\":\"new\",\"k\":" + std::to_string(k) + ",\"ts\":" + jarr(ts, [](const T& x) { return "[" + std::to_string(idx(x.getVar())) + "," + std::to_string(u(x.getCoeff())) + "]"; }) + ",\"c\":" + std::to_string(u(cc)) + "}");
    } else {
      bank[k] = n == 0 && r.coin(50) ? E(c) : E(ts, c);
      t.raw("{\"e\":\"new\",\"k\":" + std::to_string(k) + ",\"ts\":" + jarr(ts, [](const T& x) { return "[" + std::to_string(idx(x.getVar())) + "," + std::to_string(u(x.getCoeff())) + "]"; }) + ",\"c\":" + std::to_string(u(c)) + "}");
    }
    obs(k);
  };
  t.begin("expression history");
  for (int k = 0; k < 6; ++k) fresh(k);
  for (int step = 0; step < 40; ++step) {
    const int k = r.below(6), i = r.below(6), j = r.below(6);
    E res;
    std::string op;
    int v = 0;
    double a = 0;
    bool quarter = false;
    const E& x = bank[i];
    const E& y = bank[j];
    const int form = r.below(2);
    switch (r.below(13)) {
    case 0: op = "add"; if (form) res = x + y; else { res = x; res += y; } break;
    case 1: op = "sub"; if (form) res = x - y; else { res = x; res -= y; } break;
    case 2: op = "neg"; res = -x; break;
    case 3: op = "mul"; a = r.pick(factors); quarter = true; if (form) res = r.coin(50) ? x * a : a * x; else { res = x; res *= a; } break;
    case 4: op = "div"; a = r.pick(divisors); quarter = true;
      if (a == std::floor(a) && r.coin(50)) { res = x / static_cast<int64_t>(a); } else if (form) res = x / a; else { res = x; res /= a; } break;
    case 5: op = "addc"; a = r.pick(consts); if (form) res = x + a; else { res = x; res += a; } break;
    case 6: op = "subc"; a = r.pick(consts); if (form) res = x - a; else { res = x; res -= a; } break;
    case 7: op = "csub"; a = r.pick(consts); res = sym::operator-<double, double>(a, x); break;
    case 8: op = "addt"; a = r.pick(consts); v = r.below(4); if (form) res = r.coin(50) ? x + T(V()[v], a) : T(V()[v], a) + x; else { res = x; res += T(V()[v], a); } break;
    case 9: op = "subt"; a = r.pick(consts); v = r.below(4); if (form) res = x - T(V()[v], a); else { res = x; res -= T(V()[v], a); } break;
    case 10: op = "tsub"; a = r.pick(consts); v = r.below(4); res = T(V()[v], a) - x; break;
    case 11: op = "setc"; a = r.pick(consts); res = x; res.setConst(a); break;
    default: op = "copy"; res = x; break;
    }
    if ((op == "addt" || op == "subt" || op == "tsub") && a == 0) a = 1, op = "copy", res = x; // zero-coefficient terms are not normal
    if (!tame(res)) { fresh(k); continue; }
    bank[k] = res;
    t.raw("{\"e\":\"op\",\"op\":" + jstr(op) + ",\"k\":" + std::to_string(k) + ",\"i\":" + std::to_string(i) + ",\"j\":" + std::to_string(j) + ",\"v\":" + std::to_string(v) + ",\"a\":" +
          std::to_string(quarter ? std::lround(a * 4) : u(a)) + "}");
    obs(k);
    const int p = r.below(6), q = r.coin(70) ? k : r.below(6);
    t.raw("{\"e\":\"eq\",\"i\":" + std::to_string(p) + ",\"j\":" + std::to_string(q) + ",\"r\":" + (bank[p] == bank[q] ? "true" : "false") + ",\"h\":" +
          (std::hash<E>{}(bank[p]) == std::hash<E>{}(bank[q]) ? "true" : "false") + "}");
    t.flag((bank[p] != bank[q]) == !(bank[p] == bank[q]), "!= is the negation of ==");
    if (r.coin(50)) {
      sym::VariableAssignment as;
      std::vector<int> dom;
      std::vector<long> val(4, 0);
      const int full = r.coin(60);
      for (int w = 0; w < 4; ++w) if (full || r.coin(60)) { dom.push_back(w); val[w] = r.range(-40, 40); as[V()[w]] = static_cast<double>(val[w]) / 4; }
      bool err = false;
      double z = 0;
      try { z = bank[k].evaluate(as); } catch (const sym::SymbolicException&) { err = true; }
      t.raw("{\"e\":\"eval\",\"i\":" + std::to_string(k) + ",\"dom\":" + jarr(dom) + ",\"as\":" + jarr(val) + ",\"err\":" + (err ? "true" : "false") + ",\"r\":" + std::to_string(u(z)) + "}");
    }
    bool threw = false;
    if (r.coin(5)) { try { E z = bank[k]; if (r.coin(50)) z /= 0.0; else z /= static_cast<int64_t>(0); } catch (const std::runtime_error&) { threw = true; } t.flag(threw, "division by zero is reported"); }
  }
  // names are identities
  t.flag(sym::Variable("alpha") == V()[0] && sym::Variable("beta") != V()[0] && V()[2].getName() == "gamma", "variables are identified by their names");
}

// ---------------------------------------------------------------- circuits
struct Sym { E e; double v; };
static void circCase(int id, Rng& r, Trace& t) {
  const int n = r.pick(std::vector<int>{1, 2, 2, 3});
  const bool dyn = n <= 2 && r.coin(25);
  GenOpts o;
  o.n = n;
  o.maxCtrl = r.range(1, 2);
  o.compound = r.coin(50);
  o.barrier = true;
  o.gphase = true;
  if (r.coin(50)) o.names = {"rx", "ry", "rz", "p", "u2", "u", "rxx", "ryy", "rzz", "rzx", "xx_minus_yy", "xx_plus_yy", "h", "gphase"};
  auto sc = randomCircuit(r, o, r.range(1, 7));
  if (dyn) for (auto& s : sc) if (s.g != "barrier" && r.coin(40)) { Cond c; c.isBit = r.coin(50); c.start = c.isBit ? r.below(2) : 0; c.len = c.isBit ? 1 : 2; c.cmp = c.isBit ? "==" : r.pick(std::vector<std::string>{"==", "!=", "<", ">="}); c.val = r.below(2); s.cond = {c}; }
  if (dyn) t.caseBasis(n, 2, 0, "symbolic circuit " + show(sc)); else t.caseId(n, 2, "symbolic circuit " + show(sc));
  qc::VariableAssignment as;
  std::vector<double> val;
  for (const auto& v : V()) { val.push_back(r.coin(60) ? r.pick(niceAngles()) : angle(r)); as[v] = val.back(); }
  std::set<int> used;
  qc::QuantumComputation q(n, 2);
  const auto param = [&](double& p) -> qc::SymbolOrNumber {
    if (r.coin(40)) return p;
    E e(r.coin(50) ? r.pick(niceAngles()) : 0.0);
    p = e.getConst();
    for (int i = r.range(1, 2); i > 0; --i) {
      const int k = r.below(4);
      const double f = r.pick(std::vector<double>{1, -1, 0.5, 2});
      e += T(V()[k], f);
      p += f * val[k];
    }
    if (e.isConstant()) return p = e.getConst();
    for (const auto& x : e.getVariables()) used.insert(idx(x));
    return e;
  };
  std::function<std::unique_ptr<qc::Operation>(SOp&)> mk = [&](SOp& s) -> std::unique_ptr<qc::Operation> {
    std::unique_ptr<qc::Operation> op;
    if (s.g == "compound") {
      auto c = std::make_unique<qc::CompoundOperation>();
      for (auto& b : s.body) c->emplace_back(mk(b));
      op = std::move(c);
    } else if (s.p.empty() || s.g == "gphase") { SOp in = s; in.cond.clear(); op = makeOp(in); }
    else {
      std::vector<qc::SymbolOrNumber> ps;
      for (auto& p : s.p) ps.push_back(param(p));
      std::vector<qc::Qubit> tg(s.t.begin(), s.t.end());
      if (tg.size() == 1) op = std::make_unique<qc::SymbolicOperation>(ctrls(s), tg[0], gate(s.g).type, ps);
      else op = std::make_unique<qc::SymbolicOperation>(ctrls(s), tg[0], tg[1], gate(s.g).type, ps);
    }
    if (!s.cond.empty()) {
      const auto& c = s.cond[0];
      if (c.isBit) return std::make_unique<qc::ClassicControlledOperation>(std::move(op), static_cast<qc::Bit>(c.start), c.val, cmpKind(c.cmp));
      return std::make_unique<qc::ClassicControlledOperation>(std::move(op), q.getClassicalRegisters().begin()->second, c.val, cmpKind(c.cmp));
    }
    return op;
  };
  for (auto& s : sc) {
    const auto c = ctrls(s);
    if (s.cond.empty() && !s.p.empty() && s.g != "gphase" && r.coin(60)) { // the named interface
      std::vector<qc::SymbolOrNumber> ps;
      for (auto& p : s.p) ps.push_back(param(p));
#define S1(nm) else if (s.g == #nm) { if (c.empty()) q.nm(ps[0], s.t[0]); else if (c.size() == 1) q.c##nm(ps[0], *c.begin(), s.t[0]); else q.mc##nm(ps[0], c, s.t[0]); }
#define S2(nm) else if (s.g == #nm) { if (c.empty()) q.nm(ps[0], s.t[0], s.t[1]); else if (c.size() == 1) q.c##nm(ps[0], *c.begin(), s.t[0], s.t[1]); else q.mc##nm(ps[0], c, s.t[0], s.t[1]); }
#define S22(nm) else if (s.g == #nm) { if (c.empty()) q.nm(ps[0], ps[1], s.t[0], s.t[1]); else if (c.size() == 1) q.c##nm(ps[0], ps[1], *c.begin(), s.t[0], s.t[1]); else q.mc##nm(ps[0], ps[1], c, s.t[0], s.t[1]); }
      if (false) {}
      S1(rx) S1(ry) S1(rz) S1(p) S2(rxx) S2(ryy) S2(rzz) S2(rzx) S22(xx_minus_yy) S22(xx_plus_yy)
      else if (s.g == "u2") { if (c.empty()) q.u2(ps[0], ps[1], s.t[0]); else if (c.size() == 1) q.cu2(ps[0], ps[1], *c.begin(), s.t[0]); else q.mcu2(ps[0], ps[1], c, s.t[0]); }
      else if (s.g == "u") { if (c.empty()) q.u(ps[0], ps[1], ps[2], s.t[0]); else if (c.size() == 1) q.cu(ps[0], ps[1], ps[2], *c.begin(), s.t[0]); else q.mcu(ps[0], ps[1], ps[2], c, s.t[0]); }
      else { std::fprintf(stderr, "?%s\n", s.g.c_str()); std::exit(3); }
    } else q.emplace_back(mk(s));
  }
  const auto vars = [&](const qc::QuantumComputation& x) { std::set<int> v; for (const auto& y : x.getVariables()) v.insert(idx(y)); return v; };
  t.flag(vars(q) == used, "variables of the circuit are those its operations use");
  t.flag(q.isVariableFree() == used.empty(), "isVariableFree iff no operation is symbolic");
  // assignments of exactly the variables in use suffice; one less does not
  qc::VariableAssignment need;
  for (const int k : used) need[V()[k]] = val[k];
  if (!used.empty()) {
    auto less = need;
    auto it = used.begin();
    std::advance(it, r.below(static_cast<int>(used.size())));
    less.erase(V()[*it]);
    bool threw = false;
    try { const auto z = q.instantiate(less); } catch (const sym::SymbolicException&) { threw = true; }
    t.flag(threw, "a missing assignment is reported");
    t.flag(vars(q) == used && !q.isVariableFree(), "instantiate leaves the circuit alone");
  }
  const auto inst = q.instantiate(r.coin(50) ? as : need);
  t.flag(inst.isVariableFree() && inst.getVariables().empty(), "instantiated circuits are variable free");
  t.flag(vars(q) == used && q.isVariableFree() == used.empty(), "instantiate leaves the circuit alone");
  if (dyn) {
    for (int b = 0; b < 2; ++b) { SOp h; h.g = "h"; h.t = {0}; SOp m; m.g = "measure"; m.t = {0}; m.bits = {b}; emitScript(t, 1, {h, m}); emitScript(t, 2, {h, m}); }
    SOp x; x.g = "ry"; x.t = {0}; x.p = {0.7}; emitScript(t, 1, {x}); emitScript(t, 2, {x});
  }
  emitScript(t, 1, sc);
  emitScript(t, 2, fromIR(inst));
  emitPhase(t, 2, inst.getGlobalPhase());
  if (dyn) { std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i); emitCmp(t, "chan", 3000, ",\"ka\":" + jarr(all) + ",\"kb\":" + jarr(all)); }
  else emitCmp(t, "eq", 3000);
  auto q2 = q;
  q2.instantiateInplace(as);
  t.flag(show(fromIR(q2)) == show(fromIR(inst)) && q2.getVariables().empty(), "in-place instantiation agrees");
  // built with numbers from the start
  bool same = true;
  qc::QuantumComputation num(n, 2);
  const std::function<std::unique_ptr<qc::Operation>(const SOp&)> mkn = [&](const SOp& s) -> std::unique_ptr<qc::Operation> {
    if (s.g != "compound" || !s.cond.empty()) return makeAny(s, num);
    auto c = std::make_unique<qc::CompoundOperation>();
    for (const auto& b : s.body) c->emplace_back(mkn(b));
    return c;
  };
  for (const auto& s : sc) num.emplace_back(mkn(s));
  const std::function<bool(const qc::Operation&, const qc::Operation&)> shape = [&](const qc::Operation& a, const qc::Operation& b) -> bool {
    if (a.isClassicControlledOperation() != b.isClassicControlledOperation()) return false;
    if (a.isClassicControlledOperation()) return shape(*dynamic_cast<const qc::ClassicControlledOperation&>(a).getOperation(), *dynamic_cast<const qc::ClassicControlledOperation&>(b).getOperation());
    if (a.isCompoundOperation() && b.isCompoundOperation()) {
      const auto& x = dynamic_cast<const qc::CompoundOperation&>(a);
      const auto& y = dynamic_cast<const qc::CompoundOperation&>(b);
      if (x.size() != y.size()) return false;
      for (size_t i = 0; i < x.size(); ++i) if (!shape(*x.at(i), *y.at(i))) return false;
      return true;
    }
    return a.isStandardOperation() && !a.isSymbolicOperation() && a.getTargets() == b.getTargets() && a.getControls() == b.getControls() && a.getName() == qc::toString(a.getType());
  };
  same = inst.getNops() == num.getNops();
  for (size_t i = 0; same && i < num.getNops(); ++i) same = shape(*inst.at(i), *num.at(i));
  t.flag(same, "instantiated operations are ordinary operations on the same qubits");
  if (!dyn) { // export works once instantiated
    bool ok = true;
    try { std::ostringstream os; inst.dumpOpenQASM(os, true); } catch (const std::exception&) { ok = false; }
    t.flag(ok, "an instantiated circuit can be exported");
  }
}
int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  return runCases(a, a.mode == "expr" ? std::function<void(int, Rng&, Trace&)>(exprCase) : std::function<void(int, Rng&, Trace&)>(circCase));
}
