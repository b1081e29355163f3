// ZX-calculus: conversion (C21), simplification and diagram manipulation (C22), phases (C23)
#include "common.hpp"
#include "dyncirc.hpp"
#include "ir/operations/SymbolicOperation.hpp"
#include "zx/FunctionalityConstruction.hpp"
#include "zx/Rational.hpp"
#include "zx/Rules.hpp"
#include "zx/Simplify.hpp"
#include "zx/Utils.hpp"
#include "zx/ZXDiagram.hpp"
#include <csignal>
#include <unistd.h>
using namespace vf;
using zx::EdgeType;
using zx::PiExpression;
using zx::PiRational;
using zx::VertexType;
using zx::ZXDiagram;

// ------------------------------------------------------------ hangs are reported, not waited for
static Trace* current = nullptr;
static void onAlarm(int) {
  if (current != nullptr) { current->flag(false, "the call does not terminate"); current->flush(); }
  _exit(0);
}
static void arm(Trace& t) { current = &t; std::signal(SIGALRM, onAlarm); alarm(20); }

static const std::map<std::string, double>& values() {
  static const std::map<std::string, double> V = {{"zxa", 0.7}, {"zxb", -1.9}, {"zxc", qc::PI_4}};
  return V;
}
static double radians(const PiExpression& e) {
  const auto c = e.getConst();
  double v = static_cast<double>(c.getNum().convert_to<long double>() / c.getDenom().convert_to<long double>() * 3.14159265358979323846264338327950288L);
  for (const auto& term : e) v += term.getCoeff() * values().at(term.getVar().getName());
  return v;
}

struct HE { int u, v, h; };
struct Diag { // what the public interface says about a diagram
  std::vector<std::array<long, 3>> vs;
  std::vector<HE> he;
  std::vector<int> ins, outs;
  size_t nv = 0, ne = 0;
  std::map<size_t, int> id;
};
static Diag read(const ZXDiagram& d) {
  Diag r;
  for (const auto& [v, data] : d.getVertices()) {
    r.id[v] = static_cast<int>(r.vs.size()) + 1;
    const double a = radians(d.phase(v));
    r.vs.push_back({d.type(v) == VertexType::Boundary ? 0 : d.type(v) == VertexType::Z ? 1 : 2, fix(std::cos(a)), fix(std::sin(a))});
  }
  for (const auto& [v, i] : r.id)
    for (const auto& e : d.incidentEdges(v)) {
      const auto it = r.id.find(e.to);
      r.he.push_back({i, it == r.id.end() ? 0 : it->second, e.type == EdgeType::Hadamard ? 1 : 0});
    }
  for (const auto v : d.getInputs()) r.ins.push_back(r.id.count(v) ? r.id[v] : 0);
  for (const auto v : d.getOutputs()) r.outs.push_back(r.id.count(v) ? r.id[v] : 0);
  r.nv = d.getNVertices();
  r.ne = d.getNEdges();
  return r;
}
// a schedule for evaluating the diagram; returns the largest number of simultaneous variables
static int schedule(const Diag& d, std::vector<int>& st) {
  const int n = static_cast<int>(d.vs.size());
  std::vector<std::set<int>> nb(n + 1);
  for (const auto& e : d.he) if (e.v > 0 && e.v != e.u) nb[e.u].insert(e.v);
  std::set<int> in, done;
  int peak = 0;
  const auto intro = [&](int v) { if (!in.count(v) && !done.count(v)) { in.insert(v); st.push_back(v); peak = std::max(peak, static_cast<int>(in.size())); } };
  for (;;) {
    int best = 0, cost = 1 << 30;
    for (int v = 1; v <= n; ++v) {
      if (d.vs[v - 1][0] == 0 || done.count(v)) continue;
      int c = in.count(v) ? 0 : 1;
      for (const int w : nb[v]) if (!in.count(w) && !done.count(w)) ++c;
      if (c < cost) { cost = c; best = v; }
    }
    if (best == 0) break;
    intro(best);
    for (const int w : nb[best]) intro(w);
    in.erase(best);
    done.insert(best);
    st.push_back(-best);
  }
  for (int v = 1; v <= n; ++v) if (d.vs[v - 1][0] == 0) intro(v);
  return peak;
}
static std::string json(const Diag& d, const std::vector<int>& st) {
  return "{\"vs\":" + jarr(d.vs, [](const auto& v) { return "[" + std::to_string(v[0]) + "," + std::to_string(v[1]) + "," + std::to_string(v[2]) + "]"; }) +
         ",\"he\":" + jarr(d.he, [](const HE& e) { return "[" + std::to_string(e.u) + "," + std::to_string(e.v) + "," + std::to_string(e.h) + "]"; }) +
         ",\"ins\":" + jarr(d.ins) + ",\"outs\":" + jarr(d.outs) + ",\"nv\":" + std::to_string(d.nv) + ",\"ne\":" + std::to_string(d.ne) + ",\"st\":" + jarr(st) + "}";
}
static bool emitDiag(Trace& t, int side, const Diag& d, int cap = 12) {
  std::vector<int> st;
  if (schedule(d, st) > cap) return false;
  t.raw("{\"e\":\"zx\",\"s\":" + std::to_string(side) + ",\"d\":" + json(d, st) + "}");
  return true;
}
static void emitShape(Trace& t, const Diag& d, bool graphlike) {
  t.raw(std::string("{\"e\":\"shape\",\"graphlike\":") + (graphlike ? "true" : "false") + ",\"d\":" + json(d, {}) + "}");
}
static void zcmp(Trace& t) { t.raw("{\"e\":\"zcmp\",\"tol\":6000}"); }
static std::vector<int> wide(const std::vector<int>& f) { // on the outputs of a matrix
  std::vector<int> g = f;
  for (size_t i = 0; i < f.size(); ++i) g.push_back(static_cast<int>(f.size() + i));
  return g;
}

// ------------------------------------------------------------ conversion
static bool convertible(const SOp& o) {
  if (o.g == "compound") { for (const auto& b : o.body) if (!convertible(b)) return false; return true; }
  static const std::set<std::string> plain = {"z", "rz", "p", "x", "rx", "y", "ry", "t", "tdg", "s", "sdg", "u2", "u", "swap", "iswap", "h", "i",
                                              "sx", "sxdg", "rzz", "rxx", "rzx", "ryy", "dcx", "ecr", "xx_plus_yy", "xx_minus_yy", "gphase", "barrier", "v", "vdg"};
  static const std::set<std::string> one = {"x", "z", "i", "p", "t", "s", "tdg", "sdg"};
  if (o.c.empty()) return plain.count(o.g) > 0 && o.g != "v" && o.g != "vdg";
  if (o.c.size() == 1) return one.count(o.g) > 0;
  return o.c.size() == 2 && (o.g == "x" || o.g == "z");
}
static SOp zxGate(Rng& r, int n) {
  GenOpts g;
  g.n = n;
  for (;;) {
    auto s = randomGate(r, g);
    if (r.coin(35) && n >= 2) { // more of the interesting ones
      const auto q = r.perm(n);
      s = SOp{};
      s.g = r.pick(std::vector<std::string>{"x", "x", "z", "p", "t", "sdg", "i"});
      s.t = {q[0]};
      if (s.g == "p") s.p = {angle(r)};
      s.c.emplace_back(q[1], !r.coin(25));
      if (n > 2 && r.coin(35) && (s.g == "x" || s.g == "z")) s.c.emplace_back(q[2], !r.coin(25));
    }
    if (convertible(s)) return s;
    if (r.coin(1)) return s;
  }
}
static std::vector<SOp> zxScript(Rng& r, int n, int len) {
  std::vector<SOp> v;
  for (int i = 0; i < len; ++i) {
    if (n >= 2 && r.coin(8)) { // something like a swap
      const auto q = r.perm(n);
      const auto cx = [&](int c, int x) { SOp s; s.g = r.coin(92) ? "x" : "z"; s.t = {x}; s.c.emplace_back(c, !r.coin(6)); v.push_back(s); };
      cx(q[0], q[1]);
      if (r.coin(92)) cx(q[1], q[0]); else cx(q[0], q[1]);
      cx(q[0], n > 2 && r.coin(8) ? q[2] : q[1]);
      continue;
    }
    if (r.coin(8)) {
      SOp c;
      c.g = "compound";
      c.body = zxScript(r, n, r.range(1, 3));
      v.push_back(c);
      continue;
    }
    if (r.coin(4)) { SOp b; b.g = "barrier"; b.t = {r.below(n)}; v.push_back(b); continue; }
    v.push_back(zxGate(r, n));
  }
  return v;
}
static const std::vector<sym::Variable>& vars() {
  static const std::vector<sym::Variable> V = {sym::Variable("zxa"), sym::Variable("zxb"), sym::Variable("zxc")};
  return V;
}
static std::unique_ptr<qc::Operation> symbolic(Rng& r, const SOp& s) {
  std::vector<qc::SymbolOrNumber> ps;
  bool any = false;
  for (const auto p : s.p) {
    if (any && r.coin(40)) { ps.emplace_back(p); continue; }
    any = true;
    const auto& v = r.pick(vars());
    const double k = r.pick(std::vector<double>{1.0, -1.0, 0.5, 2.0, 0.3});
    qc::Symbolic e(sym::Term<double>(v, k));
    e += p - k * values().at(v.getName());
    ps.emplace_back(e);
  }
  std::vector<qc::Qubit> tg(s.t.begin(), s.t.end());
  if (tg.size() == 1) return std::make_unique<qc::SymbolicOperation>(ctrls(s), tg[0], gate(s.g).type, ps);
  return std::make_unique<qc::SymbolicOperation>(ctrls(s), tg[0], tg[1], gate(s.g).type, ps);
}
static void build(Rng& r, qc::QuantumComputation& q, const std::vector<SOp>& sc, bool sym) {
  for (const auto& s : sc) {
    if (sym && s.g != "compound" && !s.t.empty() && !s.p.empty() && r.coin(50)) { q.emplace_back(symbolic(r, s)); continue; }
    applyScript(q, {s}, r);
  }
}
static std::vector<int> inverse(const std::vector<int>& f) { auto g = f; for (size_t i = 0; i < f.size(); ++i) g[f[i]] = static_cast<int>(i); return g; }

// known finding xxminusyy-sign (pinned by the repository's own tests): the diagram of XXminusYY(theta, beta) is the one of (-theta, beta)
static std::vector<SOp> asConverted(std::vector<SOp> sc) {
  for (auto& s : sc) {
    if (s.g == "xx_minus_yy") s.p[0] = -s.p[0];
    s.body = asConverted(s.body);
  }
  return sc;
}
static void xxmProbe(int, Rng& r, Trace& t) {
  SOp s;
  s.g = "xx_minus_yy"; s.t = {0, 1}; s.p = {0.7, 0.3};
  t.caseId(2, 0, show({s}));
  qc::QuantumComputation q(2);
  build(r, q, {s}, false);
  const auto dg = read(zx::FunctionalityConstruction::buildFunctionality(&q));
  emitShape(t, dg, false);
  emitScript(t, 1, {s});
  if (emitDiag(t, 2, dg)) zcmp(t);
}

static void convCase(int, Rng& r, Trace& t) {
  arm(t);
  const int n = r.range(1, 3);
  const auto sc = zxScript(r, n, r.range(0, n == 3 ? 5 : 8));
  const bool sy = r.coin(25);
  qc::QuantumComputation q(static_cast<size_t>(n));
  std::vector<int> lay = iota(n);
  if (r.coin(30)) {
    lay = r.perm(n);
    for (int i = 0; i < n; ++i) q.initialLayout[i] = static_cast<qc::Qubit>(lay[i]);
    for (int i = 0; i < n; ++i) q.outputPermutation[i] = static_cast<qc::Qubit>(lay[i]);
  }
  t.caseId(n, 0, show(sc) + (sy ? "(symbolic) " : "") + " layout " + jarr(lay));
  build(r, q, sc, sy);
  bool ok = true;
  for (const auto& s : fromIR(q)) ok = ok && convertible(s); // (operations are canonicalised on construction)
  const bool says = zx::FunctionalityConstruction::transformableToZX(&q);
  ZXDiagram d;
  bool threw = false;
  try { d = zx::FunctionalityConstruction::buildFunctionality(&q); } catch (const zx::ZXException&) { threw = true; }
  if (ok) t.flag(says, "a supported circuit is said not to be transformable");
  t.flag(says == !threw, says ? "a transformable circuit is rejected" : "a circuit that is not transformable is converted");
  if (threw) return;
  t.flag(static_cast<int>(d.getNQubits()) == n, "number of qubits");
  const auto dg = read(d);
  emitShape(t, dg, false);
  emitPerm(t, 1, wide(lay));
  emitScript(t, 1, asConverted(sc));
  emitPerm(t, 1, wide(inverse(lay)));
  if (emitDiag(t, 2, dg)) zcmp(t); else t.note("too wide");
}

// ------------------------------------------------------------ diagrams
struct DOpts { int n, spiders; bool graphlike; int cliffordPct; };
static PiRational randomPhase(Rng& r, int cliffordPct) {
  if (r.coin(cliffordPct)) return PiRational(r.range(-1, 2), 2);
  return r.coin(70) ? PiRational(r.range(-3, 4), 4) : PiRational(r.range(-7, 8), 8);
}
static std::string describe(const ZXDiagram& d) {
  std::ostringstream s;
  for (const auto& [v, data] : d.getVertices()) {
    s << v << ":" << (d.type(v) == VertexType::Boundary ? "B" : d.type(v) == VertexType::Z ? "Z" : "X");
    if (!d.phase(v).isZero()) s << "(" << d.phase(v).getConst() << (d.phase(v).isConstant() ? "" : "+sym") << ")";
    s << "[";
    for (const auto& e : d.incidentEdges(v)) s << (e.type == EdgeType::Hadamard ? "h" : "") << e.to << " ";
    s << "] ";
  }
  return s.str();
}
static ZXDiagram randomDiagram(Rng& r, const DOpts& o) {
  ZXDiagram d(static_cast<size_t>(o.n));
  std::vector<zx::Vertex> sp, dead;
  if (r.coin(30)) for (int i = 0; i < 3; ++i) dead.push_back(d.addVertex(0)); // leaves gaps in the numbering
  for (int i = 0; i < o.spiders; ++i) {
    PiExpression p(randomPhase(r, o.cliffordPct));
    if (r.coin(4)) p += sym::Term<double>(r.pick(vars()), r.pick(std::vector<double>{1.0, -0.5}));
    sp.push_back(d.addVertex(i % std::max(1, o.n), 1, p, !o.graphlike && r.coin(45) ? VertexType::X : VertexType::Z));
  }
  for (const auto v : dead) d.removeVertex(v);
  const int dens = r.range(20, 70);
  for (size_t i = 0; i < sp.size(); ++i)
    for (size_t j = i + 1; j < sp.size(); ++j)
      if (r.coin(dens)) {
        const auto ty = o.graphlike || r.coin(60) ? EdgeType::Hadamard : EdgeType::Simple;
        if (r.coin()) d.addEdge(sp[i], sp[j], ty); else d.addEdge(sp[j], sp[i], ty);
      }
  // every wire passes through spiders at both ends, or goes straight through
  for (int q = 0; q < o.n; ++q) {
    const auto in = d.getInput(q), out = d.getOutput(q);
    if (sp.empty() || r.coin(6)) { if (r.coin(25)) { d.removeEdge(in, out); d.addEdge(in, out, EdgeType::Hadamard); } continue; }
    d.removeEdge(in, out);
    d.addEdge(in, r.pick(sp), r.coin(75) ? EdgeType::Simple : EdgeType::Hadamard);
    d.addEdge(out, r.pick(sp), r.coin(75) ? EdgeType::Simple : EdgeType::Hadamard);
  }
  // phase gadgets
  if (!sp.empty() && r.coin(35)) {
    const int k = r.range(1, 2);
    const auto targets = r.perm(static_cast<int>(sp.size()));
    const int m = r.range(1, std::min<int>(3, static_cast<int>(sp.size())));
    for (int g = 0; g < k; ++g) {
      const auto hub = d.addVertex(0, 0, PiExpression(PiRational(r.coin(30) ? 1 : 0, 1)));
      for (int l = r.coin(8) ? 2 : 1; l > 0; --l) d.addEdge(hub, d.addVertex(0, 0, PiExpression(randomPhase(r, 30))), EdgeType::Hadamard);
      for (int i = 0; i < m; ++i) d.addEdge(hub, sp[targets[(i + (r.coin(10) ? 1 : 0)) % sp.size()]], EdgeType::Hadamard);
    }
  }
  return d;
}
// no parallel edges, no loops
static bool simple(const Diag& d) {
  std::set<std::pair<int, int>> s;
  for (const auto& e : d.he) if (e.u == e.v || !s.emplace(e.u, e.v).second) return false;
  return true;
}
static bool graphlike(const Diag& d) {
  for (const auto& v : d.vs) if (v[0] == 2) return false;
  for (const auto& e : d.he) if (e.h == 0 && d.vs[e.u - 1][0] != 0 && d.vs[e.v - 1][0] != 0) return false;
  return simple(d);
}
static ZXDiagram someDiagram(Rng& r, bool gl) {
  for (;;) {
    ZXDiagram d;
    if (r.coin(35)) {
      const int n = r.range(1, 3);
      qc::QuantumComputation q(static_cast<size_t>(n));
      std::vector<SOp> sc;
      for (const auto& s : zxScript(r, n, r.range(1, n == 3 ? 4 : 7))) if (convertible(s)) sc.push_back(s);
      build(r, q, sc, r.coin(8));
      if (!zx::FunctionalityConstruction::transformableToZX(&q)) continue;
      d = zx::FunctionalityConstruction::buildFunctionality(&q);
      if (gl) { d.toGraphlike(); zx::spiderSimp(d); }
    } else d = randomDiagram(r, {r.range(1, 2), r.range(0, 6), gl, r.pick(std::vector<int>{40, 75, 95})});
    const auto g = read(d);
    if (!simple(g) || (gl && !graphlike(g))) continue;
    std::vector<int> st;
    if (schedule(g, st) > 11) continue;
    return d;
  }
}

using VRule = std::pair<bool (*)(const ZXDiagram&, zx::Vertex), void (*)(ZXDiagram&, zx::Vertex)>;
using ERule = std::pair<bool (*)(const ZXDiagram&, zx::Vertex, zx::Vertex), void (*)(ZXDiagram&, zx::Vertex, zx::Vertex)>;

static void after(Trace& t, const ZXDiagram& d, bool gl) {
  const auto g = read(d);
  t.note("result " + describe(d));
  emitShape(t, g, gl);
  if (emitDiag(t, 2, g, 13)) zcmp(t); else t.note("too wide");
}
static void simpCase(int, Rng& r, Trace& t) {
  arm(t);
  static const std::vector<std::string> P = {"id", "spider", "lc", "pivotPauli", "pivot", "pivotGadget", "gadget", "interior", "clifford", "full", "full", "approx", "graphlike", "disconnected",
                                             "id1", "spider1", "lc1", "pivotPauli1", "pivot1", "pivotGadget1", "gadget1"};
  const auto p = r.pick(P);
  const bool any = p == "full" || p == "approx" || p == "graphlike" || p == "disconnected";
  const bool gl = any ? r.coin(40) : p == "id" || p == "id1" || p == "spider" || p == "spider1" ? r.coin(50) : r.coin(90);
  auto d = someDiagram(r, gl);
  if (p == "disconnected" && r.coin(70)) { // a part that touches no boundary (its scalar is not zero)
    const auto a = d.addVertex(0, 0, PiExpression(PiRational(1, 4))), b = d.addVertex(0, 0, PiExpression(PiRational(1, 2)));
    d.addEdge(a, b, EdgeType::Hadamard);
  }
  t.caseId(1, 0, p + " on " + describe(d));
  const auto before = read(d);
  if (!emitDiag(t, 1, before)) return;
  const size_t nv = d.getNVertices();
  const auto vertexRule = [&](const VRule& R) {
    std::vector<zx::Vertex> c;
    for (const auto& [v, i] : before.id) if (R.first(d, v)) c.push_back(v);
    if (c.empty()) { t.note("no match"); return false; }
    const auto v = r.pick(c);
    t.note("at " + std::to_string(v));
    R.second(d, v);
    return true;
  };
  const auto edgeRule = [&](const ERule& R) {
    std::vector<std::pair<zx::Vertex, zx::Vertex>> c;
    for (const auto& [v, i] : before.id)
      for (const auto& e : d.incidentEdges(v)) if (R.first(d, v, e.to)) c.emplace_back(v, e.to);
    if (c.empty()) { t.note("no match"); return false; }
    const auto e = r.pick(c);
    t.note("at " + std::to_string(e.first) + "," + std::to_string(e.second));
    R.second(d, e.first, e.second);
    return true;
  };
  const auto noVertex = [&](const VRule& R) { for (const auto& [v, i] : read(d).id) if (R.first(d, v)) return false; return true; };
  const auto noEdge = [&](const ERule& R) { for (const auto& [v, i] : read(d).id) for (const auto& e : d.incidentEdges(v)) if (R.first(d, v, e.to)) return false; return true; };
  const VRule idR{zx::checkIdSimp, zx::removeId}, lcR{zx::checkLocalComp, zx::localComp};
  const ERule spR{zx::checkSpiderFusion, zx::fuseSpiders}, ppR{zx::checkPivotPauli, zx::pivotPauli}, pvR{zx::checkPivot, zx::pivot}, pgR{zx::checkPivotGadget, zx::pivotGadget};
  const auto removed = [&](size_t k, const char* what) { t.flag(nv - d.getNVertices() == k, std::string(what) + ": the reported number of steps does not match"); };
  bool g2 = gl;
  if (p == "id1") { if (!vertexRule(idR)) return; g2 = false; }
  else if (p == "lc1") { if (!vertexRule(lcR)) return; }
  else if (p == "spider1") { if (!edgeRule(spR)) return; g2 = false; }
  else if (p == "pivotPauli1") { if (!edgeRule(ppR)) return; }
  else if (p == "pivot1") { if (!edgeRule(pvR)) return; }
  else if (p == "pivotGadget1") { if (!edgeRule(pgR)) return; }
  else if (p == "gadget1") {
    std::vector<zx::Vertex> vs;
    for (const auto& [v, i] : before.id) vs.push_back(v);
    bool hit = false;
    for (int k = 0; k < 12 && !hit; ++k) hit = zx::checkAndFuseGadget(d, r.pick(vs));
    if (!hit) t.note("no match");
  }
  else if (p == "id") { removed(zx::idSimp(d), "idSimp"); t.flag(noVertex(idR), "an identity is left"); g2 = false; }
  else if (p == "spider") { removed(zx::spiderSimp(d), "spiderSimp"); t.flag(noEdge(spR), "two spiders can still be fused"); }
  else if (p == "lc") { removed(zx::localCompSimp(d), "localCompSimp"); t.flag(noVertex(lcR), "local complementation still applies"); }
  else if (p == "pivotPauli") { removed(2 * zx::pivotPauliSimp(d), "pivotPauliSimp"); t.flag(noEdge(ppR), "a Pauli pivot still applies"); }
  else if (p == "pivot") { zx::pivotSimp(d); t.flag(noEdge(pvR), "a pivot still applies"); }
  else if (p == "pivotGadget") { zx::pivotgadgetSimp(d); t.flag(noEdge(pgR), "a gadget pivot still applies"); }
  else if (p == "gadget") { zx::gadgetSimp(d); ZXDiagram c = d; t.flag(zx::gadgetSimp(c) == 0, "a gadget can still be fused"); }
  else if (p == "interior") { zx::interiorCliffordSimp(d); t.flag(noVertex(idR) && noEdge(spR) && noVertex(lcR) && noEdge(ppR), "an interior Clifford simplification still applies"); g2 = true; }
  else if (p == "clifford") { zx::cliffordSimp(d); t.flag(noVertex(idR) && noEdge(spR) && noVertex(lcR) && noEdge(ppR) && noEdge(pvR), "a Clifford simplification still applies"); g2 = true; }
  else if (p == "full") { zx::fullReduce(d); t.flag(noVertex(idR) && noEdge(spR) && noVertex(lcR) && noEdge(ppR) && noEdge(pvR) && noEdge(pgR), "a simplification still applies"); g2 = true; }
  else if (p == "approx") { zx::fullReduceApproximate(d, 1e-7); g2 = true; }
  else if (p == "graphlike") { d.toGraphlike(); g2 = false; for (const auto& v : read(d).vs) t.flag(v[0] != 2, "an X spider is left"); }
  else if (p == "disconnected") {
    d.removeDisconnectedSpiders();
    const auto g = read(d);
    std::set<int> seen(g.ins.begin(), g.ins.end());
    seen.insert(g.outs.begin(), g.outs.end());
    for (bool more = true; more;) { more = false; for (const auto& e : g.he) if (seen.count(e.u) && seen.insert(e.v).second) more = true; }
    t.flag(seen.size() == g.vs.size(), "a disconnected spider is left");
    g2 = false;
  }
  after(t, d, g2 && (gl || p == "full" || p == "approx"));
}

// ------------------------------------------------------------ manipulation
static ZXDiagram ofQubits(Rng& r, int n) {
  for (;;) {
    auto d = someDiagram(r, r.coin(30));
    if (static_cast<int>(d.getNQubits()) == n) return d;
  }
}
static void maniCase(int, Rng& r, Trace& t) {
  arm(t);
  static const std::vector<std::string> P = {"adjoint", "concat", "concat", "ancilla", "edge", "edge", "identity", "queries", "approx", "addQubit"};
  const auto p = r.pick(P);
  const int n = r.range(1, 2);
  if (p == "adjoint") {
    auto d = ofQubits(r, n);
    t.caseId(1, 0, p + " of " + describe(d));
    emitDiag(t, 1, read(d));
    t.raw("{\"e\":\"adjz\"}");
    if (r.coin()) d = d.adjoint(); else d.invert();
    after(t, d, false);
    return;
  }
  if (p == "concat") {
    auto a = ofQubits(r, n), b = ofQubits(r, n);
    if (r.coin(15)) b = ZXDiagram(static_cast<size_t>(n));
    if (r.coin(15)) a = ZXDiagram(static_cast<size_t>(n));
    if (r.coin(15)) b = a.adjoint();
    t.caseId(1, 0, p + " " + describe(a) + " with " + describe(b));
    emitDiag(t, 1, read(a));
    emitDiag(t, 2, read(b));
    t.raw("{\"e\":\"mul\"}");
    if (r.coin()) a.concat(b); else a += b;
    after(t, a, false);
    return;
  }
  if (p == "ancilla") {
    auto a = ofQubits(r, 2);
    int n2 = 2;
    t.caseId(1, 0, p + " in " + describe(a));
    emitDiag(t, 1, read(a));
    const int i = r.below(2), o = r.coin() ? i : r.below(2);
    t.raw("{\"e\":\"plug\",\"in\":" + std::to_string(i) + ",\"out\":" + std::to_string(o) + "}");
    if (i == o && r.coin()) a.makeAncilla(i); else a.makeAncilla(i, o);
    t.flag(static_cast<int>(a.getNQubits()) == n2 - 1, "number of qubits");
    if (r.coin(50)) { // what remains can be composed and simplified like any other diagram
      auto b = ofQubits(r, 1);
      t.note("then " + describe(b));
      emitDiag(t, 2, read(b));
      t.raw("{\"e\":\"mul\"}");
      a.concat(b);
    }
    if (r.coin(30)) zx::fullReduce(a);
    after(t, a, false);
    return;
  }
  if (p == "edge") {
    auto d = ofQubits(r, n);
    const auto g = read(d);
    std::vector<zx::Vertex> sp;
    for (const auto& [v, i] : g.id) if (g.vs[i - 1][0] != 0) sp.push_back(v);
    if (sp.empty()) { t.caseId(1, 0, "nothing"); return; }
    const auto u = r.pick(sp), v = r.pick(sp);
    const bool h = r.coin();
    t.caseId(1, 0, "edge " + std::to_string(u) + (h ? " h " : " - ") + std::to_string(v) + " in " + describe(d));
    auto more = g; // the diagram with one edge more
    more.he.push_back({g.id.at(u), g.id.at(v), h ? 1 : 0});
    more.he.push_back({g.id.at(v), g.id.at(u), h ? 1 : 0});
    ++more.ne;
    emitDiag(t, 1, more);
    d.addEdgeParallelAware(u, v, h ? EdgeType::Hadamard : EdgeType::Simple);
    t.flag(simple(read(d)), "a parallel edge or a loop is left");
    after(t, d, false);
    return;
  }
  if (p == "identity") {
    auto d = ofQubits(r, n);
    const int k = r.below(4);
    if (k == 0) { d.concat(d.adjoint()); zx::fullReduce(d); }
    else if (k == 1) zx::fullReduce(d);
    else if (k == 2) { // wires only
      d = ZXDiagram(static_cast<size_t>(n));
      for (int q = 0; q < n; ++q) { d.removeEdge(d.getInput(q), d.getOutput(q)); }
      const auto f = r.perm(n);
      for (int q = 0; q < n; ++q) d.addEdge(d.getInput(q), d.getOutput(f[q]), r.coin(60) ? EdgeType::Simple : EdgeType::Hadamard);
    }
    t.caseId(1, 0, "identity? " + describe(d));
    const bool yes = d.isIdentity();
    if (k == 2) { bool straight = true; for (int q = 0; q < n; ++q) { const auto e = d.getEdge(d.getInput(q), d.getOutput(q)); straight = straight && e.has_value() && e->type == EdgeType::Simple; } t.flag(yes == straight, "isIdentity of wires"); }
    if (yes) { emitDiag(t, 2, read(d)); emitDiag(t, 1, read(ZXDiagram(static_cast<size_t>(n)))); zcmp(t); }
    return;
  }
  if (p == "queries") {
    auto d = ofQubits(r, n);
    const auto g = read(d);
    t.caseId(1, 0, "queries " + describe(d));
    t.flag(g.id.size() == d.getNVertices(), "number of vertices");
    if (r.coin(10)) t.flag(ZXDiagram().getEdges().empty() && ZXDiagram().getVertices().empty(), "an empty diagram has no edges");
    std::set<std::pair<zx::Vertex, zx::Vertex>> es, want;
    size_t cnt = 0;
    for (const auto& [a, b] : d.getEdges()) { es.emplace(std::min(a, b), std::max(a, b)); ++cnt; }
    for (const auto& [v, i] : g.id) for (const auto& e : d.incidentEdges(v)) want.emplace(std::min(v, e.to), std::max(v, e.to));
    t.flag(es == want && cnt == want.size() && cnt == d.getNEdges(), "getEdges");
    for (const auto& [v, i] : g.id)
      for (const auto& [w, j] : g.id) {
        const bool c = want.count({std::min(v, w), std::max(v, w)}) > 0;
        if (d.connected(v, w) != c || d.getEdge(v, w).has_value() != c) { t.flag(false, "connected/getEdge"); return; }
      }
    const auto m = d.getAdjMat();
    for (const auto& [v, i] : g.id)
      for (const auto& [w, j] : g.id) {
        const bool c = v == w || want.count({std::min(v, w), std::max(v, w)}) > 0;
        if (v >= m.size() || w >= m[v].size() || m[v][w] != c) { t.flag(false, "getAdjMat"); return; }
      }
    std::vector<zx::Vertex> s, ex;
    for (const auto& [v, i] : g.id) { if (r.coin(40)) s.push_back(v); if (r.coin(25)) ex.push_back(v); }
    std::set<zx::Vertex> nb;
    for (const auto v : s) for (const auto& e : d.incidentEdges(v)) if (std::find(ex.begin(), ex.end(), e.to) == ex.end()) nb.insert(e.to);
    const auto cs = d.getConnectedSet(s, ex);
    t.flag(std::vector<zx::Vertex>(nb.begin(), nb.end()) == cs, "getConnectedSet");
    for (const auto& [v, i] : g.id) {
      t.flag(d.isInput(v) == (std::find(d.getInputs().begin(), d.getInputs().end(), v) != d.getInputs().end()) && d.isOutput(v) == (std::find(d.getOutputs().begin(), d.getOutputs().end(), v) != d.getOutputs().end()) && !d.isDeleted(v), "isInput/isOutput");
    }
    return;
  }
  if (p == "approx") {
    auto d = ofQubits(r, n);
    t.caseId(1, 0, "approximateCliffords on " + describe(d));
    emitDiag(t, 1, read(d));
    std::vector<std::pair<zx::Vertex, PiExpression>> keep;
    for (const auto& [v, i] : read(d).id)
      if (!d.isBoundaryVertex(v) && d.phase(v).isConstant()) {
        const auto c = d.phase(v).getConst();
        keep.emplace_back(v, d.phase(v));
        d.setPhase(v, PiExpression(c + PiRational(r.range(-1, 1), 100000000)));
      }
    d.approximateCliffords(1e-6);
    for (const auto& [v, e] : keep) if (e.getConst().getDenom() <= 2) t.flag(d.phase(v).getConst() == e.getConst(), "a phase next to a multiple of pi/2 is not rounded to it");
    after(t, d, false);
    return;
  }
  // a fresh qubit is an identity wire beside the diagram
  auto d = ofQubits(r, 1);
  t.caseId(1, 0, "addQubit to " + describe(d));
  const auto nq = d.getNQubits();
  if (r.coin()) d.addQubit(); else d.addQubits(1);
  t.flag(d.getNQubits() == nq + 1 && d.getOutputs().size() == nq + 1, "number of qubits");
  t.flag(d.isInput(d.getInput(nq)) && d.isOutput(d.getOutput(nq)), "the new qubit has an input and an output");
}

// ------------------------------------------------------------ phases
static std::string pr(const PiRational& x) { return "[" + x.getNum().str() + "," + x.getDenom().str() + "]"; }
static PiRational smallRat(Rng& r) {
  const int d = r.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 64, 100});
  const int n = r.range(-d + 1, d);
  return PiRational(n, d);
}
static void ratCase(int, Rng& r, Trace& t) {
  t.caseId(1, 0, "phases");
  const auto ev = [&](const std::string& op, const std::string& a, const std::string& b, const std::string& res) {
    t.raw("{\"e\":\"rat\",\"op\":" + jstr(op) + ",\"a\":" + a + ",\"b\":" + b + ",\"r\":" + res + "}");
  };
  const auto I = [](int64_t k) { return "[" + std::to_string(k) + ",1]"; };
  const auto B = [](bool b) { return std::string(b ? "true" : "false"); };
  for (int k = 0; k < 12; ++k) {
    const auto x = smallRat(r), y = r.coin(15) ? x : smallRat(r);
    const int64_t m = r.range(-9, 9);
    const auto a = pr(x), b = pr(y);
    switch (r.below(16)) {
    case 14: { // symbolic phases
      const auto e = [&] { PiExpression p(smallRat(r)); for (int i = r.below(3); i > 0; --i) p += sym::Term<double>(r.pick(vars()), r.pick(std::vector<double>{1.0, -1.0, 0.5, 2.0})); return p; };
      const auto is = [&](const PiExpression& got, double want, const std::string& what) {
        const double g = radians(got);
        t.note(what);
        t.raw("{\"e\":\"angle\",\"z\":[" + std::to_string(fix(std::cos(want))) + "," + std::to_string(fix(std::sin(want))) + "],\"w\":[" + std::to_string(fix(std::cos(g))) + "," + std::to_string(fix(std::sin(g))) + "],\"inrange\":true,\"exact\":[],\"r\":[0,1]}");
      };
      const auto a = e(), b = e();
      const double ra = radians(a), rb = radians(b);
      const double f = r.pick(std::vector<double>{2.0, -1.0, 3.0, 0.5});
      is(a + b, ra + rb, "a+b");
      is(a - b, ra - rb, "a-b");
      is(-a, -ra, "-a");
      is(a * f, ra * f, "a*f");
      is(a / f, ra / f, "a/f");
      is(a + x, ra + radians(PiExpression(x)), "a+x");
      is(a - x, ra - radians(PiExpression(x)), "a-x");
      t.flag((a - a).isZero() && (a + (-a)).isZero() && (a - a).isConstant(), "a phase minus itself is not zero");
      t.flag(a == a && a + b == b + a, "equality");
      t.flag(!(a == a + PiRational(1, 1)), "different phases are equal");
      break;
    }
    case 15: {
      const PiExpression e(x), sy = PiExpression(x) + sym::Term<double>(vars()[0], 1.0);
      const bool pauli = x.getDenom() == 1, cliff = x.getDenom() <= 2;
      t.flag(zx::isPauli(e) == pauli && zx::isClifford(e) == cliff && zx::isProperClifford(e) == (cliff && !pauli), "Pauli/Clifford phases: " + a);
      t.flag(!zx::isPauli(sy) && !zx::isClifford(sy) && !zx::isProperClifford(sy), "a symbolic phase is considered constant");
      break;
    }
    case 0: { int n = r.range(-40, 40), d = r.pick(std::vector<int>{1, 2, 3, 4, 7, 8, 16}); if (r.coin(20)) d = -d; const auto z = r.coin() ? PiRational(n, d) : PiRational(BigInt(n), BigInt(d)); ev("new", "[" + std::to_string(n) + "," + std::to_string(d) + "]", "[0,1]", pr(z)); const auto w = PiRational(m); ev("new", I(m), "[0,1]", pr(w)); break; }
    case 1: ev("neg", a, "[0,1]", pr(-x)); break;
    case 2: ev("add", a, b, pr(x + y)); { auto z = x; z += y; ev("add", a, b, pr(z)); } break;
    case 3: ev("sub", a, b, pr(x - y)); { auto z = x; z -= y; ev("sub", a, b, pr(z)); } break;
    case 4: ev("mul", a, b, pr(x * y)); { auto z = x; z *= y; ev("mul", a, b, pr(z)); } break;
    case 5: if (y.isZero()) break; ev("div", a, b, pr(x / y)); { auto z = x; z /= y; ev("div", a, b, pr(z)); } break;
    case 6: ev("add", a, I(m), pr(x + m)); ev("add", I(m), a, pr(m + x)); { auto z = x; z += m; ev("add", a, I(m), pr(z)); } break;
    case 7: ev("sub", a, I(m), pr(x - m)); ev("sub", I(m), a, pr(m - x)); { auto z = x; z -= m; ev("sub", a, I(m), pr(z)); } break;
    case 8: ev("mul", a, I(m), pr(x * m)); ev("mul", I(m), a, pr(m * x)); { auto z = x; z *= m; ev("mul", a, I(m), pr(z)); } break;
    case 9: if (m != 0) { ev("div", a, I(m), pr(x / m)); auto z = x; z /= m; ev("div", a, I(m), pr(z)); } if (!x.isZero()) ev("div", I(m), a, pr(m / x)); break;
    case 10: ev("lt", a, b, B(x < y)); ev("le", a, b, B(x <= y)); ev("gt", a, b, B(x > y)); ev("ge", a, b, B(x >= y)); ev("eq", a, b, B(x == y)); ev("ne", a, b, B(x != y)); break;
    case 11: ev("lt", a, I(m), B(x < m)); ev("le", a, I(m), B(x <= m)); ev("gt", a, I(m), B(x > m)); ev("ge", a, I(m), B(x >= m)); ev("eq", a, I(m), B(x == m)); ev("ne", a, I(m), B(x != m));
             ev("lt", I(m), a, B(m < x)); ev("le", I(m), a, B(m <= x)); ev("gt", I(m), a, B(m > x)); ev("ge", I(m), a, B(m >= x)); ev("eq", I(m), a, B(m == x)); ev("ne", I(m), a, B(m != x)); break;
    case 12: ev("int", a, "[0,1]", B(x.isInteger())); ev("zero", a, "[0,1]", B(x.isZero())); break;
    default: {
      double v;
      std::string exact = "[]";
      const int c = r.below(6);
      if (c == 0) { const int d = r.range(1, 64) * (r.coin() ? 1 : -1); v = qc::PI / d; exact = "[1," + std::to_string(d) + "]"; }
      else if (c == 1) { const int n = r.range(-8, 8); const int d = r.pick(std::vector<int>{1, 2, 4, 8}); v = n * (qc::PI / d); exact = "[" + std::to_string(n) + "," + std::to_string(d) + "]"; }
      else if (c == 2) v = (r.unit() * 2 - 1) * 20;
      else if (c == 3) v = (r.unit() * 2 - 1) * std::pow(10.0, -r.range(1, 14));
      else if (c == 4) v = r.pick(std::vector<double>{1e-12, -1e-12, 2.5e-13, 1e-11, 5e-10, -7e-10, 0.0, 1e-20});
      else v = (r.unit() * 2 - 1) * std::pow(10.0, r.range(1, 6));
      PiRational z(v);
      const double w = static_cast<double>(z.getNum().convert_to<long double>() / z.getDenom().convert_to<long double>() * 3.14159265358979323846264338327950288L);
      const bool in = z.getNum() <= z.getDenom() && z.getNum() > -z.getDenom() && z.getDenom() > 0;
      t.note("angle " + std::to_string(v) + " -> " + std::to_string(w));
      t.flag(std::abs(z.toDouble() - w) < 1e-9 && std::abs(static_cast<double>(z) - w) < 1e-9 && std::abs(z.toDoubleDivPi() - w / qc::PI) < 1e-9, "toDouble");
      t.raw("{\"e\":\"angle\",\"z\":[" + std::to_string(fix(std::cos(v))) + "," + std::to_string(fix(std::sin(v))) + "],\"w\":[" + std::to_string(fix(std::cos(w))) + "," + std::to_string(fix(std::sin(w))) + "],\"inrange\":" + B(in) + ",\"exact\":" + exact + ",\"r\":" + (exact == "[]" ? "[0,1]" : pr(z)) + "}");
      break;
    }
    }
  }
}

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  if (a.mode == "conv") return runCases(a, convCase);
  if (a.mode == "xxmprobe") return runCases(a, xxmProbe);
  if (a.mode == "simp") return runCases(a, simpCase);
  if (a.mode == "mani") return runCases(a, maniCase);
  if (a.mode == "rat") return runCases(a, ratCase);
  return 3;
}
