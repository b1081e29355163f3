// circuits with measurements, resets and conditions
#pragma once
#include "common.hpp"
#include <set>
namespace vf {
inline std::vector<int> iota(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
inline void prefix(Rng& r, Trace& t, int n, int nb) {
  GenOpts o;
  o.n = n;
  o.barrier = false;
  o.names = {"h", "ry", "rx", "x", "t", "p", "u"};
  std::vector<SOp> pre;
  for (int b = 0; b < nb; ++b) {
    SOp h; h.g = "h"; h.t = {0};
    SOp m; m.g = "measure"; m.t = {0}; m.bits = {b};
    pre.push_back(h);
    pre.push_back(m);
  }
  for (int i = 0; i < n; ++i) { SOp u; u.g = "u"; u.t = {i}; u.p = {angle(r) * 0.9 + 0.3, angle(r), angle(r)}; pre.push_back(u); }
  const auto ent = randomCircuit(r, o, 3);
  pre.insert(pre.end(), ent.begin(), ent.end());
  emitScript(t, 1, pre);
  emitScript(t, 2, pre);
}
inline SOp renameOp(SOp o, const std::vector<int>& f) {
  for (auto& q : o.t) q = f[q];
  for (auto& c : o.c) c.first = f[c.first];
  for (auto& b : o.body) b = renameOp(b, f);
  return o;
}
struct Reg { std::string name; int start, size; };
inline std::vector<Reg> split(Rng& r, int n, const std::vector<std::string>& names, size_t& k) {
  std::vector<Reg> v;
  for (int s = 0; s < n;) {
    const int z = r.range(1, n - s);
    v.push_back({names[k++], s, z});
    s += z;
  }
  return v;
}
inline const std::vector<std::string>& idNames() {
  static const std::vector<std::string> N = {"q", "c", "a", "b", "reg", "q_1", "zz", "anc", "meas", "r2", "Q", "_t", "x1", "m0", "data", "c_", "k9", "phi2"};
  return N;
}
inline Cond regCond(Rng& r, const std::vector<Reg>& cr) {
  const auto& g = r.pick(cr);
  Cond c;
  if (r.coin(40)) { c.isBit = true; c.start = g.start + r.below(g.size); c.len = 1; c.cmp = r.coin(50) ? "==" : "!="; c.val = r.below(2); }
  else { c.isBit = false; c.start = g.start; c.len = g.size; c.cmp = r.pick(std::vector<std::string>{"==", "==", "!=", "<", "<=", ">", ">="}); c.val = r.below((1 << g.size) + 1); }
  return c;
}
// a circuit made of unitary operations, measurements, resets, barriers and conditioned unitary operations
inline std::vector<SOp> dynCircuit(Rng& r, const GenOpts& o, int len, int nb, const std::vector<Reg>& qr, const std::vector<Reg>& cr) {
  std::vector<SOp> v;
  int meas = 0;
  for (int i = 0; i < len; ++i) {
    const int k = r.below(10);
    SOp s;
    if (k < 2 && nb > 0 && meas < 3) {
      ++meas;
      s.g = "measure";
      if (r.coin(50)) { s.t = {r.below(o.n)}; s.bits = {r.below(nb)}; }
      else if (r.coin(50)) { // whole registers, maybe in another order
        const auto& a = r.pick(qr);
        const auto& c = r.pick(cr);
        const int w = std::min(a.size, c.size);
        for (int j = 0; j < w; ++j) { s.t.push_back(a.start + j); s.bits.push_back(c.start + j); }
        if (r.coin(40)) r.shuffle(s.t);
        if (r.coin(40)) r.shuffle(s.bits);
      } else {
        const auto a = r.perm(o.n), c = r.perm(nb);
        const int w = r.range(1, std::min(o.n, nb));
        for (int j = 0; j < w; ++j) { s.t.push_back(a[j]); s.bits.push_back(c[j]); }
      }
    } else if (k == 2) {
      s.g = "reset";
      if (r.coin(30)) { const auto& a = r.pick(qr); for (int j = 0; j < a.size; ++j) s.t.push_back(a.start + j); }
      else { const auto a = r.perm(o.n); const int w = r.range(1, o.n); for (int j = 0; j < w; ++j) s.t.push_back(a[j]); }
    } else if (k == 3) {
      s.g = "barrier";
      const auto a = r.perm(o.n); const int w = r.range(1, o.n); for (int j = 0; j < w; ++j) s.t.push_back(a[j]);
    } else if (k < 7 && nb > 0) {
      if (r.coin(35)) { s.g = "compound"; GenOpts oo = o; oo.compound = false; oo.barrier = false; s.body = randomCircuit(r, oo, r.range(1, 3)); }
      else s = randomGate(r, o);
      s.cond = {regCond(r, cr)};
    } else if (r.coin(15)) { s.g = "compound"; GenOpts oo = o; oo.compound = true; oo.barrier = false; s.body = randomCircuit(r, oo, r.range(1, 3)); }
    else s = randomGate(r, o);
    v.push_back(s);
  }
  return v;
}
inline bool unitary(const SOp& o) {
  if (!o.cond.empty() || o.g == "measure" || o.g == "reset") return false;
  for (const auto& b : o.body) if (!unitary(b)) return false;
  return true;
}
inline std::unique_ptr<qc::Operation> deep(const SOp& s, const qc::QuantumComputation& q) {
  if (s.g != "compound") return makeAny(s, q);
  std::vector<std::unique_ptr<qc::Operation>> in;
  for (const auto& b : s.body) in.push_back(deep(b, q));
  auto c = std::make_unique<qc::CompoundOperation>(std::move(in), s.p.empty() ? false : s.p[0] != 0);
  if (s.cond.empty()) return c;
  const auto& k = s.cond[0];
  if (k.isBit) return std::make_unique<qc::ClassicControlledOperation>(std::move(c), static_cast<qc::Bit>(k.start), static_cast<uint64_t>(k.val), cmpKind(k.cmp));
  for (const auto& [n, reg] : q.getClassicalRegisters())
    if (static_cast<int>(reg.getStartIndex()) == k.start && static_cast<int>(reg.getSize()) == k.len)
      return std::make_unique<qc::ClassicControlledOperation>(std::move(c), reg, static_cast<uint64_t>(k.val), cmpKind(k.cmp));
  std::exit(3);
}
inline bool any(const std::vector<SOp>& v, const std::function<bool(const SOp&)>& f) {
  for (const auto& o : v) if (f(o) || (o.cond.empty() && any(o.body, f))) return true;
  return false;
}
inline void used(const SOp& o, std::set<int>& s) {
  for (auto q : o.t) s.insert(q);
  for (auto& c : o.c) s.insert(c.first);
  for (auto& b : o.body) used(b, s);
}
inline std::vector<SOp> nest(Rng& r, const std::vector<SOp>& v, int pct) { // put runs of operations into compound operations
  std::vector<SOp> w;
  for (size_t i = 0; i < v.size();) {
    const int k = r.range(1, 3);
    if (r.coin(pct) && i + k <= v.size()) {
      SOp c;
      c.g = "compound";
      c.body.assign(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i) + k);
      if (r.coin(25)) c.body = nest(r, c.body, 60);
      w.push_back(c);
      i += k;
    } else w.push_back(v[i++]);
  }
  return w;
}
} // namespace vf
