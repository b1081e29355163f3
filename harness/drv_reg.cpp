// C14 (edit), C15 (iomap), C30 (perm): bookkeeping histories of a circuit
#include "common.hpp"
using namespace vf;
using qc::QuantumComputation;

template <class M> static std::string jregs(const M& regs) {
  std::multimap<std::pair<long, std::string>, std::string> s;
  for (const auto& [n, r] : regs)
    s.emplace(std::make_pair(static_cast<long>(r.getStartIndex()), n), "[" + jstr(n) + "," + std::to_string(r.getStartIndex()) + "," + std::to_string(r.getSize()) + "]");
  return jarr(s, [](const auto& x) { return x.second; });
}
static std::string jperm(const qc::Permutation& p) {
  return jarr(p, [](const auto& x) { return "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; });
}
static std::vector<int> flags(const std::vector<bool>& v) {
  std::vector<int> r;
  for (size_t i = 0; i < v.size(); ++i) if (v[i]) r.push_back(static_cast<int>(i));
  return r;
}
static std::string jop(const qc::Operation& op) {
  std::vector<long> q, b;
  std::string k = "u";
  const auto all = op.getUsedQubits();
  if (op.getType() == qc::Measure) {
    k = "m";
    const auto& m = dynamic_cast<const qc::NonUnitaryOperation&>(op);
    q.assign(m.getTargets().begin(), m.getTargets().end());
    b.assign(m.getClassics().begin(), m.getClassics().end());
  } else {
    q.assign(all.begin(), all.end());
    if (op.getType() == qc::Barrier) { k = "b"; q.assign(op.getTargets().begin(), op.getTargets().end()); }
    if (op.getType() == qc::Reset) k = "r";
    if (op.isClassicControlledOperation()) {
      k = "c";
      const auto& c = dynamic_cast<const qc::ClassicControlledOperation&>(op);
      if (c.getControlRegister()) for (size_t i = 0; i < c.getControlRegister()->getSize(); ++i) b.push_back(static_cast<long>(c.getControlRegister()->getStartIndex() + i));
      else b.push_back(static_cast<long>(*c.getControlBit()));
    }
  }
  return "{\"k\":" + jstr(k) + ",\"q\":" + jarr(q) + ",\"b\":" + jarr(b) + "}";
}
static std::string dump(const QuantumComputation& q) {
  std::ostringstream o;
  std::vector<int> idle;
  for (const auto& [p, lq] : q.initialLayout) if (q.isIdleQubit(p)) idle.push_back(static_cast<int>(p));

  std::string find = "[";
  const int hi = static_cast<int>(q.getHighestLogicalQubitIndex()) + 2;
  for (int lq = 0; lq <= hi; ++lq) {
    long p = -1;
    try { p = q.getPhysicalQubitIndex(static_cast<qc::Qubit>(lq)); } catch (const std::exception&) {}
    const auto c = q.containsLogicalQubit(static_cast<qc::Qubit>(lq));
    find += (lq ? ",[" : "[") + std::to_string(lq) + "," + std::to_string(p) + "," + std::to_string(c.first ? static_cast<long>(*c.second) : -1L) + "]";
  }
  const QuantumComputation copy(q);
  bool eq = copy == q;
  // single-qubit flag queries agree with the flag vectors, register lookups with the registers
  for (const auto& [p, lq] : q.initialLayout) {
    eq = eq && q.logicalQubitIsAncillary(lq) == q.getAncillary().at(lq) && q.logicalQubitIsGarbage(lq) == q.getGarbage().at(lq);
    QuantumComputation c2(copy);
    auto& reg = c2.getQubitRegister(p);
    eq = eq && reg.contains(p) && reg.getGlobalIndex(reg.getLocalIndex(p)) == p;
    eq = eq && q.physicalQubitIsAncillary(p) == (q.getAncillaRegisters().count(reg.getName()) == 1);
  }
  o << ",\"st\":{\"lay\":" << jperm(q.initialLayout) << ",\"out\":" << jperm(q.outputPermutation) << ",\"anc\":" << jarr(flags(q.getAncillary()))
    << ",\"gar\":" << jarr(flags(q.getGarbage())) << ",\"qr\":" << jregs(q.getQuantumRegisters()) << ",\"ar\":" << jregs(q.getAncillaRegisters())
    << ",\"cr\":" << jregs(q.getClassicalRegisters()) << ",\"nq\":" << q.getNqubits() << ",\"na\":" << q.getNancillae() << ",\"nw\":" << q.getNqubitsWithoutAncillae()
    << ",\"ng\":" << q.getNgarbageQubits() << ",\"nm\":" << q.getNmeasuredQubits() << ",\"nc\":" << q.getNcbits() << ",\"nops\":" << q.getNops()
    << ",\"hp\":" << q.getHighestPhysicalQubitIndex() << ",\"hl\":" << q.getHighestLogicalQubitIndex() << ",\"depth\":" << q.getDepth()
    << ",\"ops\":" << jarr(q, [](const auto& op) { return jop(*op); }) << ",\"idle\":" << jarr(idle) << ",\"find\":" << find << "]"
    << ",\"copyeq\":" << (eq ? "true" : "false") << "}";
  return o.str();
}

struct Ed {
  Rng& r;
  Trace& t;
  QuantumComputation q;
  std::vector<std::tuple<int, int, int>> removed; // label, physical, output
  // perform, report acceptance, dump
  template <class F> void act(const std::string& head, F f) {
    bool ok = true;
    std::string extra;
    try { extra = f(); } catch (const std::exception& e) { ok = false; extra = ""; }
    t.raw("{" + head + ",\"ok\":" + (ok ? "true" : "false") + extra + dump(q) + "}");
  }
  std::vector<int> labels() const { std::vector<int> v; for (const auto& [p, lq] : q.initialLayout) v.push_back(static_cast<int>(lq)); return v; }
  std::vector<int> phys() const { std::vector<int> v; for (const auto& [p, lq] : q.initialLayout) v.push_back(static_cast<int>(p)); return v; }
  std::vector<int> freeOut() const {
    std::set<int> used; for (const auto& [p, o] : q.outputPermutation) used.insert(static_cast<int>(o));
    std::vector<int> v; for (int i = 0; i < 12; ++i) if (!used.count(i)) v.push_back(i);
    return v;
  }
  bool inUse(int p) const { return !q.isIdleQubit(static_cast<qc::Qubit>(p)); }
  static std::string I(const char* k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
  static std::string ev(const char* e) { return std::string("\"e\":\"") + e + "\""; }
  template <class R> static std::string ret(const R& g) { return ",\"ret\":[" + jstr(g.getName()) + "," + std::to_string(g.getStartIndex()) + "," + std::to_string(g.getSize()) + "]"; }
  std::string name() { return r.pick(std::vector<std::string>{"q", "a", "b", "anc", "q_l", "q_h", "c", "d", "meas", "anc_2", "q_3"}); }
  void addq() { const int n = r.below(4); const auto nm = name(); act(ev("addq") + I("n", n) + ",\"name\":" + jstr(nm), [&] { return ret(q.addQubitRegister(n, nm)); }); }
  void adda() { const int n = r.below(4); const auto nm = name(); act(ev("adda") + I("n", n) + ",\"name\":" + jstr(nm), [&] { return ret(q.addAncillaryRegister(n, nm)); }); }
  void addc() { const int n = r.below(4); const auto nm = name(); act(ev("addc") + I("n", n) + ",\"name\":" + jstr(nm), [&] { return ret(q.addClassicalRegister(n, nm)); }); }
  void rem() {
    std::vector<int> c;
    for (const auto& [p, lq] : q.initialLayout) if (!inUse(static_cast<int>(p))) c.push_back(static_cast<int>(lq));
    int lq;
    if (c.empty() || r.coin(8)) { const auto ls = labels(); do lq = r.below(14); while (std::count(ls.begin(), ls.end(), lq)); }
    else lq = r.pick(c);
    act(ev("rem") + I("l", lq), [&] {
      const auto x = q.removeQubit(static_cast<qc::Qubit>(lq));
      const int o = x.second ? static_cast<int>(*x.second) : -1;
      removed.emplace_back(lq, static_cast<int>(x.first), o);
      return I("p", x.first) + I("o", o);
    });
  }
  static std::optional<qc::Qubit> opt(int o) { return o < 0 ? std::nullopt : std::optional<qc::Qubit>(static_cast<qc::Qubit>(o)); }
  void add() {
    int lq, p, o;
    const auto fo = freeOut();
    if (!removed.empty() && r.coin(75)) {
      const int i = r.below(static_cast<int>(removed.size()));
      std::tie(lq, p, o) = removed[i];
      removed.erase(removed.begin() + i);
      if (o >= 0 && !std::count(fo.begin(), fo.end(), o)) o = -1;
    } else {
      lq = r.below(static_cast<int>(q.getNqubits()) + 3); p = r.below(10); o = r.coin(30) ? -1 : r.pick(fo);
    }
    act(ev("add") + I("l", lq) + I("p", p) + I("o", o), [&] { q.addQubit(static_cast<qc::Qubit>(lq), static_cast<qc::Qubit>(p), opt(o)); return std::string(); });
  }
  void addanc() {
    const auto fo = freeOut();
    const int p = r.below(10), o = r.coin(40) ? -1 : r.pick(fo);
    act(ev("addanc") + I("p", p) + I("o", o), [&] { q.addAncillaryQubit(static_cast<qc::Qubit>(p), opt(o)); return std::string(); });
  }
  void mark(bool anc) {
    const auto ls = labels();
    int a, b;
    if (ls.empty() || r.coin(6)) { do a = r.below(14); while (std::count(ls.begin(), ls.end(), a)); b = a; }
    else { a = b = r.pick(ls); while (r.coin(40) && std::count(ls.begin(), ls.end(), b + 1)) ++b; }
    const int form = a == b ? r.below(2) : 1;
    act(ev("mark") + I("a", a) + I("b", b) + ",\"anc\":" + (anc ? "true" : "false"), [&] {
      if (form == 0) { if (anc) q.setLogicalQubitAncillary(a); else q.setLogicalQubitGarbage(a); }
      else { if (anc) q.setLogicalQubitsAncillary(a, b); else q.setLogicalQubitsGarbage(a, b); }
      return std::string();
    });
  }
  void strip() { const bool f = r.coin(30); removed.clear(); act(ev("strip") + ",\"force\":" + (f ? "true" : "false"), [&] { q.stripIdleQubits(f); return std::string(); }); }
  void unify() {
    const auto p = phys();
    if (p.empty() || p.back() != static_cast<int>(p.size()) - 1) return;
    const auto nm = name();
    act(ev("unify") + ",\"name\":" + jstr(nm), [&] { q.unifyQuantumRegisters(nm); return std::string(); });
  }
  void op(bool mayFail = true) {
    auto p = phys();
    if (p.empty()) return;
    r.shuffle(p);
    const bool bad = mayFail && r.coin(8);
    if (bad) { int x; const auto all = phys(); do x = r.below(14); while (std::count(all.begin(), all.end(), x)); p[0] = x; }
    const auto Q = [&](int i) { return static_cast<qc::Qubit>(p[i]); };
    const int nc = static_cast<int>(q.getNcbits());
    const auto head = [&](const std::string& k, const std::vector<long>& qs, const std::vector<long>& bs) {
      return ev("op") + ",\"o\":{\"k\":" + jstr(k) + ",\"q\":" + jarr(qs) + ",\"b\":" + jarr(bs) + "}";
    };
    const auto none = [](const auto&) {};
    (void)none;
    switch (r.below(9)) {
    case 0: case 1: act(head("u", {p[0]}, {}), [&] { switch (r.below(3)) { case 0: q.h(Q(0)); break; case 1: q.rz(0.5, Q(0)); break; default: q.u(0.1, 0.2, 0.3, Q(0)); } return std::string(); }); break;
    case 2: if (p.size() > 1) { if (bad && r.coin(50)) std::swap(p[0], p[1]); std::vector<long> s = {std::min(p[0], p[1]), std::max(p[0], p[1])}; act(head("u", s, {}), [&] { switch (r.below(4)) { case 0: q.cx(Q(0), Q(1)); break; case 1: q.swap(Q(0), Q(1)); break; case 2: q.cp(0.3, qc::Control{Q(0), qc::Control::Type::Neg}, Q(1)); break; default: q.rzz(0.4, Q(0), Q(1)); } return std::string(); }); } break;
    case 3: if (p.size() > 2) { if (bad) std::swap(p[0], p[r.below(3)]); std::vector<long> s = {p[0], p[1], p[2]}; std::sort(s.begin(), s.end()); act(head("u", s, {}), [&] { if (r.coin(50)) q.mcx({Q(0), Q(1)}, Q(2)); else q.cswap(Q(0), Q(1), Q(2)); return std::string(); }); } break;
    case 4: { const long b = nc == 0 || r.coin(6) ? nc + r.below(2) : r.below(nc); act(head("m", {p[0]}, {b}), [&] { q.measure(Q(0), static_cast<size_t>(b)); return std::string(); }); break; }
    case 5: {
      const int k = 1 + r.below(static_cast<int>(p.size()));
      std::vector<long> qs(p.begin(), p.begin() + k), bs;
      for (int i = 0; i < k; ++i) bs.push_back(nc == 0 ? 0 : r.below(nc));
      if (r.coin(8)) bs.pop_back();
      act(head("m", qs, bs), [&] { q.measure(qc::Targets(qs.begin(), qs.end()), std::vector<qc::Bit>(bs.begin(), bs.end())); return std::string(); });
      break;
    }
    case 6: act(head("r", {p[0]}, {}), [&] { q.reset(Q(0)); return std::string(); }); break;
    case 7: act(head("b", {p[0]}, {}), [&] { q.barrier(Q(0)); return std::string(); }); break;
    default:
      if (!q.getClassicalRegisters().empty() && r.coin(60)) {
        std::map<std::string, std::pair<long, long>> rs;
        for (const auto& [n, g] : q.getClassicalRegisters()) rs[n] = {static_cast<long>(g.getStartIndex()), static_cast<long>(g.getSize())};
        auto it = rs.begin();
        std::advance(it, r.below(static_cast<int>(rs.size())));
        long len = it->second.second;
        if (r.coin(10)) len += nc; // beyond the existing bits
        std::vector<long> bs;
        for (long i = 0; i < len; ++i) bs.push_back(it->second.first + i);
        act(head("c", {p[0]}, bs), [&] { q.classicControlled(qc::X, Q(0), qc::ClassicalRegister(static_cast<qc::Bit>(it->second.first), static_cast<size_t>(len), it->first), 1U); return std::string(); });
      } else {
        const long b = nc == 0 || r.coin(10) ? nc + r.below(2) : r.below(nc);
        act(head("c", {p[0]}, {b}), [&] { q.classicControlled(qc::X, Q(0), static_cast<qc::Bit>(b), 1U); return std::string(); });
      }
    }
  }
  void drop() {
    if (q.empty()) return;
    const int i = r.below(static_cast<int>(q.size()));
    act(ev("drop") + I("i", i + 1), [&] { if (i + 1 == static_cast<int>(q.size()) && r.coin(50)) q.pop_back(); else q.erase(q.begin() + i); return std::string(); });
  }
  void barrier() { if (!q.initialLayout.empty()) act(ev("barrier"), [&] { q.barrier(); return std::string(); }); }
  void mall() { if (q.initialLayout.empty()) return; const bool a = r.coin(60); act(ev("mall") + ",\"add\":" + (a ? "true" : "false"), [&] { q.measureAll(a); return std::string(); }); }
  // any bijective layout, any injective output permutation
  void layout() {
    auto ls = labels();
    const auto ps = phys();
    r.shuffle(ls);
    qc::Permutation lay, out;
    for (size_t i = 0; i < ps.size(); ++i) lay[static_cast<qc::Qubit>(ps[i])] = static_cast<qc::Qubit>(ls[i]);
    std::vector<int> os;
    for (size_t i = 0; i < ps.size(); ++i) os.push_back(static_cast<int>(i));
    r.shuffle(os);
    if (r.coin(30)) os.assign(ls.begin(), ls.end());
    const auto gar = q.getGarbage();
    for (size_t i = 0; i < ps.size(); ++i)
      if (r.coin(80) && !(static_cast<size_t>(os[i]) < gar.size() && gar[os[i]])) out[static_cast<qc::Qubit>(ps[i])] = static_cast<qc::Qubit>(os[i]);
    act(ev("layout") + ",\"lay\":" + jperm(lay) + ",\"out\":" + jperm(out), [&] { q.initialLayout = lay; q.outputPermutation = out; return std::string(); });
  }
  // the derived mapping is only meaningful if no bit receives results of two different qubits
  bool derivable() const {
    std::map<long, long> byBit, first;
    for (const auto& op : q) {
      if (op->getType() != qc::Measure) continue;
      const auto& m = dynamic_cast<const qc::NonUnitaryOperation&>(*op);
      for (size_t i = 0; i < m.getTargets().size(); ++i) {
        const long qq = m.getTargets()[i], b = static_cast<long>(m.getClassics()[i]);
        if (first.count(qq)) continue;
        first[qq] = b;
        if (byBit.count(b)) return false;
        byBit[b] = qq;
      }
    }
    return true;
  }
  void derive() { if (derivable()) act(ev("derive"), [&] { q.initializeIOMapping(); return std::string(); }); }
  void append() {
    const auto nm = r.coin(70) ? std::string("c") : name();
    act(ev("append") + ",\"name\":" + jstr(nm), [&] { q.appendMeasurementsAccordingToOutputPermutation(nm); return std::string(); });
  }
};

static void edit(int id, Rng& r, Trace& t) {
  t.begin("bookkeeping history");
  const int nq = r.below(6), nc = r.below(4);
  Ed e{r, t, QuantumComputation(0, 0, 1), {}};
  if (nq) e.act(Ed::ev("addq") + Ed::I("n", nq) + ",\"name\":\"q\"", [&] { return Ed::ret(e.q.addQubitRegister(nq, "q")); });
  if (nc) e.act(Ed::ev("addc") + Ed::I("n", nc) + ",\"name\":\"c\"", [&] { return Ed::ret(e.q.addClassicalRegister(nc, "c")); });
  const int prof = r.below(3);
  for (int s = 0; s < 25; ++s) {
    if (e.q.getNqubits() > 9) { e.strip(); if (e.q.getNqubits() > 9) e.rem(); }
    const int x = r.below(100);
    if (prof == 0) { // qubits come and go
      if (x < 30) e.rem(); else if (x < 55) e.add(); else if (x < 65) e.addanc(); else if (x < 73) e.mark(true); else if (x < 80) e.mark(false);
      else if (x < 84) e.adda(); else if (x < 88) e.addq(); else if (x < 92) e.strip(); else if (x < 98) e.op(); else e.barrier();
    } else if (prof == 1) { // everything
      switch (x % 17) {
      case 0: e.addq(); break; case 1: e.adda(); break; case 2: e.addc(); break; case 3: case 4: e.rem(); break; case 5: e.add(); break; case 6: e.addanc(); break;
      case 7: e.mark(r.coin()); break; case 8: e.strip(); break; case 9: e.unify(); break; case 10: e.drop(); break; case 11: e.barrier(); break; case 12: e.mall(); break;
      case 13: if (r.coin(10)) e.act(Ed::ev("reset"), [&] { e.removed.clear(); e.q.reset(); return std::string(); }); else e.op(); break;
      default: e.op();
      }
    } else { if (x < 60) e.op(); else if (x < 70) e.drop(); else if (x < 80) e.rem(); else if (x < 88) e.add(); else if (x < 92) e.mall(); else if (x < 96) e.strip(); else e.mark(r.coin()); }
  }
}

static void iomap(int id, Rng& r, Trace& t) {
  t.begin("layouts and measurements");
  const int nq = 1 + r.below(5), nc = r.below(nq + 3), na = r.below(3);
  Ed e{r, t, QuantumComputation(0, 0, 1), {}};
  e.act(Ed::ev("addq") + Ed::I("n", nq) + ",\"name\":\"q\"", [&] { return Ed::ret(e.q.addQubitRegister(nq, "q")); });
  if (na) e.act(Ed::ev("adda") + Ed::I("n", na) + ",\"name\":\"anc\"", [&] { return Ed::ret(e.q.addAncillaryRegister(na, "anc")); });
  if (nc) e.act(Ed::ev("addc") + Ed::I("n", nc) + ",\"name\":\"c\"", [&] { return Ed::ret(e.q.addClassicalRegister(nc, "c")); });
  for (int rounds = 0; rounds < 2; ++rounds) {
    if (r.coin(70)) e.layout();
    if (r.coin(30)) e.mark(r.coin());
    for (int i = r.below(6); i > 0; --i) e.op(false);
    if (r.coin(30)) e.strip();
    switch (r.below(4)) {
    case 0: e.derive(); break;
    case 1: e.append(); e.derive(); break;
    case 2: e.derive(); e.append(); e.derive(); break;
    default: if (r.coin()) e.mall(); e.derive(); e.strip();
    }
  }
}

int main(int argc, char** argv) {
  const Args a = parseArgs(argc, argv);
  return runCases(a, [&](int id, Rng& r, Trace& t) {
    if (a.mode == "edit") edit(id, r, t);
    else if (a.mode == "iomap") iomap(id, r, t);
  });
}
