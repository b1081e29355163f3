// data structures: graphs, disjoint sets, symmetric matrices (C27) and the layer scheduler (C26)
#include "datastructures/DirectedAcyclicGraph.hpp"
#include "datastructures/DirectedGraph.hpp"
#include "datastructures/DisjointSet.hpp"
#include "datastructures/Layer.hpp"
#include "datastructures/SymmetricMatrix.hpp"
#include "datastructures/UndirectedGraph.hpp"
#include "dyncirc.hpp"
#include <algorithm>
#include <map>
#include <sstream>
using namespace vf;
static std::string I(long x) { return std::to_string(x); }
static std::string pairsJson(const std::vector<std::pair<int, int>>& v) { return jarr(v, [](const std::pair<int, int>& p) { return "[" + I(p.first) + "," + I(p.second) + "]"; }); }
template <class S> static std::vector<int> sorted(const S& s) { std::vector<int> v(s.begin(), s.end()); std::sort(v.begin(), v.end()); return v; }

// vertices and edges of a DOT description, by label
static void dot(Trace& t, const std::string& s, const std::string& arrow) {
  std::istringstream in(s);
  std::string line;
  std::map<int, int> label;
  std::vector<int> vs;
  std::vector<std::pair<int, int>> es;
  while (std::getline(in, line)) {
    int i = 0, j = 0;
    if (std::sscanf(line.c_str(), "  %d [label=\"%d\"];", &i, &j) == 2) { label[i] = j; vs.push_back(j); }
  }
  std::istringstream in2(s);
  while (std::getline(in2, line)) {
    int i = 0, j = 0;
    if (std::sscanf(line.c_str(), ("  %d " + arrow + " %d;").c_str(), &i, &j) == 2) es.emplace_back(label.at(i), label.at(j));
  }
  t.raw("{\"e\":\"dot\",\"vs\":" + jarr(vs) + ",\"es\":" + pairsJson(es) + "}");
}
template <class G> static void vertexQuery(Trace& t, const G& g) {
  t.raw("{\"e\":\"count\",\"nv\":" + I(static_cast<long>(g.getNVertices())) + ",\"ne\":" + I(static_cast<long>(g.getNEdges())) + ",\"vs\":" + jarr(sorted(g.getVertices())) + "}");
}
template <class F> static int attempt(F f) { try { return f(); } catch (const std::exception&) { return -1; } }

template <class G> static void directed(Rng& r, Trace& t, bool acyclic) {
  t.raw(std::string("{\"e\":\"new\",\"kind\":\"") + (acyclic ? "a" : "d") + "\",\"vs\":[]}");
  G g;
  const int n = r.range(1, acyclic ? 8 : 6);
  const auto V = [&](int i) { return i * 7 + 3; };
  const int style = r.below(4);
  const int len = r.range(3, 30);
  for (int k = 0; k < len; ++k) {
    int a = V(r.below(n)), b = V(r.below(n));
    if (acyclic && style < 2 && r.coin(85) && a > b) std::swap(a, b);
    if (acyclic && style == 2 && r.coin(70)) b = V((a / 7 + 1) % n);
    switch (r.below(12)) {
    case 0: { const bool ok = attempt([&]() { g.addVertex(a); return 0; }) == 0; t.raw("{\"e\":\"addv\",\"v\":" + I(a) + ",\"ok\":" + (ok ? "true" : "false") + "}"); break; }
    case 1: t.raw("{\"e\":\"edge\",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"r\":" + I(attempt([&]() { return g.isEdge(a, b) ? 1 : 0; })) + "}"); break;
    case 2: t.raw("{\"e\":\"deg\",\"v\":" + I(a) + ",\"in\":" + I(attempt([&]() { return static_cast<int>(g.getInDegree(a)); })) + ",\"out\":" + I(attempt([&]() { return static_cast<int>(g.getOutDegree(a)); })) + "}"); break;
    case 3: vertexQuery(t, g); break;
    case 4: dot(t, g.toString(), "->"); break;
    default: { const bool ok = attempt([&]() { g.addEdge(a, b); return 0; }) == 0; t.raw("{\"e\":\"adde\",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"x\":0,\"ok\":" + (ok ? "true" : "false") + "}"); }
    }
    if constexpr (std::is_same_v<G, qc::DirectedAcyclicGraph<int>>) {
      if (r.coin(40)) { a = V(r.below(n + 1)); b = V(r.below(n)); t.raw("{\"e\":\"reach\",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"r\":" + I(attempt([&]() { return g.isReachable(a, b) ? 1 : 0; })) + "}"); }
      if (r.coin(20)) t.raw("{\"e\":\"topo\",\"r\":" + jarr(g.orderTopologically()) + "}");
    }
  }
  vertexQuery(t, g);
  dot(t, g.toString(), "->");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    const int a = V(i), b = V(j);
    t.raw("{\"e\":\"edge\",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"r\":" + I(attempt([&]() { return g.isEdge(a, b) ? 1 : 0; })) + "}");
    if constexpr (std::is_same_v<G, qc::DirectedAcyclicGraph<int>>)
      t.raw("{\"e\":\"reach\",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"r\":" + I(attempt([&]() { return g.isReachable(a, b) ? 1 : 0; })) + "}");
  }
  if constexpr (std::is_same_v<G, qc::DirectedAcyclicGraph<int>>) t.raw("{\"e\":\"topo\",\"r\":" + jarr(g.orderTopologically()) + "}");
}
static void undirected(Rng& r, Trace& t) {
  t.raw("{\"e\":\"new\",\"kind\":\"u\",\"vs\":[]}");
  qc::UndirectedGraph<int, int> g;
  const int n = r.range(1, 6);
  const auto V = [&](int i) { return i * 5 + 1; };
  const auto all = [&](int a, int b) {
    t.raw("{\"e\":\"edge\",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"r\":" + I(attempt([&]() { return g.isAdjacent(a, b) ? 1 : 0; })) + "}");
    t.raw("{\"e\":\"label\",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"r\":" + I(attempt([&]() { return g.getEdge(a, b); })) + "}");
  };
  const auto neigh = [&](int a) {
    std::vector<int> ns;
    std::vector<std::pair<int, int>> ae;
    const bool ok = attempt([&]() { ns = sorted(g.getNeighbours(a)); for (const auto& e : g.getAdjacentEdges(a)) ae.push_back(e); return 0; }) == 0;
    t.raw("{\"e\":\"neigh\",\"v\":" + I(a) + ",\"ok\":" + (ok ? "true" : "false") + ",\"r\":" + jarr(ns) + ",\"ae\":" + pairsJson(ae) + "}");
  };
  const auto deg = [&](int a) {
    const int d = attempt([&]() { return static_cast<int>(g.getDegree(a)); });
    t.raw("{\"e\":\"deg\",\"v\":" + I(a) + ",\"in\":" + I(d) + ",\"out\":" + I(d) + "}");
  };
  const int len = r.range(3, 25);
  for (int k = 0; k < len; ++k) {
    const int a = V(r.below(n)), b = V(r.below(n));
    switch (r.below(12)) {
    case 0: { const bool ok = attempt([&]() { g.addVertex(a); return 0; }) == 0; t.raw("{\"e\":\"addv\",\"v\":" + I(a) + ",\"ok\":" + (ok ? "true" : "false") + "}"); break; }
    case 1: all(a, b); break;
    case 2: deg(a); break;
    case 3: neigh(a); break;
    case 4: vertexQuery(t, g); break;
    case 5: dot(t, g.toString(), "--"); break;
    case 6: { const int c = V(r.below(n)), d = V(r.below(n)); t.raw("{\"e\":\"adje\",\"x\":[" + I(a) + "," + I(b) + "],\"y\":[" + I(c) + "," + I(d) + "],\"r\":" + (qc::UndirectedGraph<int, int>::isAdjacentEdge({a, b}, {c, d}) ? "1" : "0") + "}"); break; }
    default: { const int x = r.below(100); const bool ok = attempt([&]() { g.addEdge(a, b, x); return 0; }) == 0; t.raw("{\"e\":\"adde\",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"x\":" + I(x) + ",\"ok\":" + (ok ? "true" : "false") + "}"); }
    }
  }
  vertexQuery(t, g);
  dot(t, g.toString(), "--");
  for (int i = 0; i < n; ++i) { deg(V(i)); neigh(V(i)); for (int j = 0; j < n; ++j) all(V(i), V(j)); }
}
static void graphCase(int, Rng& r, Trace& t) {
  t.begin("container");
  switch (r.below(6)) {
  case 0: directed<qc::DirectedGraph<int>>(r, t, false); break;
  case 1: case 2: directed<qc::DirectedAcyclicGraph<int>>(r, t, true); break;
  case 3: undirected(r, t); break;
  case 4: {
    const int n = r.range(1, 10);
    std::vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(i * 3 - 4);
    t.raw("{\"e\":\"new\",\"kind\":\"p\",\"vs\":" + jarr(v) + "}");
    qc::DisjointSet<int> d(v.begin(), v.end());
    for (int k = r.range(1, 14); k > 0; --k) {
      const int a = r.pick(v), b = r.pick(v);
      if (r.coin(20)) { (void)d.findSet(a); continue; }
      d.unionSet(a, b);
      t.raw("{\"e\":\"union\",\"u\":" + I(a) + ",\"v\":" + I(b) + "}");
      if (r.coin(50)) continue;
      std::vector<int> rep;
      for (const int x : v) rep.push_back(d.findSet(x));
      t.raw("{\"e\":\"find\",\"vs\":" + jarr(v) + ",\"r\":" + jarr(rep) + "}");
    }
    std::vector<int> rep;
    for (const int x : v) rep.push_back(d.findSet(x));
    t.raw("{\"e\":\"find\",\"vs\":" + jarr(v) + ",\"r\":" + jarr(rep) + "}");
    break;
  }
  default: {
    const int n = r.range(1, 6);
    const int x = r.coin() ? r.below(50) : 0;
    qc::SymmetricMatrix<int> m = x == 0 ? qc::SymmetricMatrix<int>(n) : qc::SymmetricMatrix<int>(n, x);
    const auto& cm = m;
    t.raw("{\"e\":\"snew\",\"n\":" + I(n) + ",\"x\":" + I(x) + "}");
    const auto get = [&](int a, int b) {
      t.raw("{\"e\":\"sget\",\"n\":" + I(static_cast<long>(m.size())) + ",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"r\":" + I(r.coin() ? m(a, b) : cm(a, b)) + "}");
    };
    for (int k = r.range(1, 15); k > 0; --k) {
      const int a = r.below(n), b = r.below(n), y = r.below(1000);
      if (r.coin()) { m(a, b) = y; t.raw("{\"e\":\"sset\",\"u\":" + I(a) + ",\"v\":" + I(b) + ",\"x\":" + I(y) + "}"); }
      else get(a, b);
    }
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) get(a, b);
  }
  }
}

// ---- layer scheduler ----
// gates without controls may have several targets ("global" gates): one application per target
static std::vector<SOp> spread(const SOp& o) {
  std::vector<SOp> v;
  if (o.g == "compound") { for (const auto& b : o.body) for (auto& x : spread(b)) v.push_back(x); return v; }
  if (o.g != "barrier" && gate(o.g).targets == 1 && o.t.size() > 1) { for (const int q : o.t) { SOp s = o; s.t = {q}; v.push_back(s); } return v; }
  return {o};
}
static void layerCase(int, Rng& r, Trace& t) {
  const int n = r.range(1, 4);
  const bool commutable = r.coin(75);
  qc::QuantumComputation q(n);
  std::vector<SOp> src;
  GenOpts o;
  o.n = n;
  o.barrier = false;
  const int flavour = r.below(5);
  if (flavour == 0) o.names = {"z", "rz", "h", "x", "t"};
  else if (flavour == 1) o.names = {"x", "z", "s", "h"};
  else if (flavour == 2) o.names = {"ry", "rz", "z"};
  const int len = r.range(2, 8);
  for (int k = 0; k < len; ++k) {
    SOp s;
    const int c = r.below(10);
    if (c < 2 && n > 1) { // a global gate
      s.g = r.pick(std::vector<std::string>{"ry", "rz", "h", "x", "z"});
      for (int i = 0; i < n; ++i) if (r.coin(75)) s.t.push_back(i);
      if (s.t.empty()) s.t = {0};
      if (s.g[0] == 'r') s.p = {r.pick(std::vector<double>{qc::PI_2, -qc::PI_2, qc::PI_4, -qc::PI_4})};
    } else if (c == 2 && n > 1) { // global gate written as compound operation
      s.g = "compound";
      const auto g = r.pick(std::vector<std::string>{"ry", "rz", "h", "x"});
      const double p = r.pick(std::vector<double>{qc::PI_2, -qc::PI_2, qc::PI_4});
      for (int i = 0; i < n; ++i) if (r.coin(80)) { SOp b; b.g = g; b.t = {i}; if (g[0] == 'r') b.p = {p}; s.body.push_back(b); }
      if (s.body.empty()) continue;
    } else if (c < 6 && !src.empty()) { // repeat or undo an earlier operation
      s = src[r.coin(60) ? src.size() - 1 : r.below(static_cast<int>(src.size()))];
      auto op = makeOp(s);
      if (r.coin(70)) op->invert();
      s = fromIR(*op);
    } else {
      s = randomGate(r, o);
      if (s.g == "gphase" || s.g == "barrier") continue;
    }
    src.push_back(s);
  }
  for (const auto& s : src) q.emplace_back(makeOp(s));
  std::vector<SOp> ops = fromIR(q);
  if (ops.empty()) return;
  // no two operations on the same qubits: no cancelling pairs
  std::set<std::set<qc::Qubit>> qs;
  bool pairs = false;
  std::string circ;
  std::map<const qc::Operation*, int> index;
  int i = 0;
  for (const auto& op : q) {
    const auto u = op->getUsedQubits();
    pairs = pairs || !qs.insert(u).second;
    index[op.get()] = ++i;
    std::ostringstream ty; ty << op->getType();
    circ += std::string(i > 1 ? "," : "") + "{\"g\":" + jstr(ty.str()) + ",\"nc\":" + I(static_cast<long>(op->getNcontrols())) + ",\"q\":" + jarr(std::vector<int>(u.begin(), u.end())) + "}";
  }
  const std::string mode = pairs ? "pairs" : commutable ? "commute" : "inorder";
  for (int rep = 0; rep < 3; ++rep) {
    t.caseBasis(n, 0, 0, "layer" + std::string(commutable ? " commutable " : " ") + show(ops));
    std::vector<SOp> pre;
    for (int k = 0; k < n; ++k) { SOp u; u.g = "u"; u.t = {k}; u.p = {0.4 + 0.3 * k + r.unit(), angle(r), angle(r)}; pre.push_back(u); }
    emitScript(t, 1, pre);
    for (int k = 0; k + 1 < n; ++k) { SOp u; u.g = "x"; u.t = {k + 1}; u.c = {{k, 1}}; emitScript(t, 1, {u}); }
    t.raw("{\"e\":\"copy\"}");
    t.raw("{\"e\":\"circ\",\"ops\":[" + circ + "]}");
    for (const auto& s : ops) emitScript(t, 1, spread(s));
    const qc::Layer layer(q, commutable);
    const int taste = r.below(4);
    std::vector<std::shared_ptr<qc::Layer::DAGVertex>> seen;
    for (size_t step = 0;; ++step) {
      std::map<int, std::shared_ptr<qc::Layer::DAGVertex>> off;
      std::vector<int> ids;
      for (const auto& v : layer.getExecutableSet()) { off[index.at(v->getOperation())] = v; ids.push_back(index.at(v->getOperation())); }
      std::sort(ids.begin(), ids.end());
      t.raw("{\"e\":\"offer\",\"mode\":\"" + mode + "\",\"off\":" + jarr(ids) + "}");
      for (const auto& [k, v] : off) t.flag(v->isExecutable() && !v->isExecuted(), "offered is executable");
      if (r.coin(30)) {
        const auto& op = q.at(r.below(static_cast<int>(q.size())));
        std::vector<int> ks;
        for (const auto& v : layer.getExecutablesOfType(op->getType(), op->getNcontrols())) ks.push_back(index.at(v->getOperation()));
        std::ostringstream ty; ty << op->getType();
        t.raw("{\"e\":\"kinds\",\"g\":" + jstr(ty.str()) + ",\"nc\":" + I(static_cast<long>(op->getNcontrols())) + ",\"r\":" + jarr(ks) + "}");
      }
      if (r.coin(30)) {
        for (const auto ty : {qc::Z, qc::X}) {
          std::set<std::set<qc::Qubit>> us;
          bool dup = false;
          for (const auto& [k, v] : off) if (v->getOperation()->getType() == ty && v->getOperation()->getNcontrols() == 1) dup = dup || !us.insert(v->getOperation()->getUsedQubits()).second || v->getOperation()->getUsedQubits().size() != 2;
          if (dup) continue;
          const auto g = layer.constructInteractionGraph(ty, 1);
          std::string es;
          for (const auto a : sorted(g.getVertices())) for (const auto b : sorted(g.getNeighbours(a))) es += (es.empty() ? "" : ",") + std::string("[") + I(a) + "," + I(b) + "," + I(index.at(g.getEdge(a, b)->getOperation())) + "]";
          std::ostringstream tn; tn << ty;
          t.raw("{\"e\":\"inter\",\"g\":" + jstr(tn.str()) + ",\"edges\":[" + es + "]}");
        }
      }
      for (const auto& [k, v] : off) if (std::find(seen.begin(), seen.end(), v) == seen.end()) seen.push_back(v);
      if (r.coin(25)) for (const auto& v : seen) if (off.count(index.at(v->getOperation())) == 0) { // withdrawn or executed
        bool threw = false;
        try { v->execute(); } catch (const std::logic_error&) { threw = true; }
        t.raw("{\"e\":\"refuse\",\"i\":" + I(index.at(v->getOperation())) + "}");
        t.flag(threw, "execution refused");
        break;
      }
      if (off.empty() || step > ops.size()) break;
      const int pick = taste == 0 ? ids.back() : taste == 1 ? ids.front() : r.pick(ids);
      off[pick]->execute();
      t.flag(off[pick]->isExecuted() && !off[pick]->isExecutable(), "executed");
      t.raw("{\"e\":\"exec\",\"i\":" + I(pick) + "}");
      emitScript(t, 2, spread(ops[pick - 1]));
    }
    emitCmp(t, "eq", 4000);
  }
}

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  if (a.mode == "graph") return runCases(a, graphCase);
  if (a.mode == "layer") return runCases(a, layerCase);
  return 3;
}
