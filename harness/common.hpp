// Shared by all drivers: deterministic randomness, trace writing, random
// circuits ("scripts"), applying scripts through the public API, and the
// projection of IR operations onto trace events.
#pragma once
#include "ir/Definitions.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/StandardOperation.hpp"
#include "ir/operations/SymbolicOperation.hpp"

#include <sys/personality.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed, uint64_t stream = 0)
      : s(mix(mix(seed + 0x1234567) ^ (stream * 0xBF58476D1CE4E5B9ULL + 1))) {}
  static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t next() {
    return mix(s += 0x9E3779B97F4A7C15ULL);
  }
  int below(int n) { return static_cast<int>(next() % static_cast<uint64_t>(n)); }
  int range(int a, int b) { return a + below(b - a + 1); } // inclusive
  bool coin(int pct = 50) { return below(100) < pct; }
  double unit() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(static_cast<int>(v.size()))]; }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(static_cast<int>(i))]);
  }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    shuffle(p);
    return p;
  }
};

inline long fix(double x) {
  const double y = x * 268435456.0;
  if (!(y < 2147483000.0)) return 2147483000L; // also NaN
  if (y < -2147483000.0) return -2147483000L;
  return std::lround(y);
}

// ---------------------------------------------------------------- JSON bits
inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (const char ch : s) {
    const auto c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') { r += '\\'; r += ch; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += ch;
  }
  return r + "\"";
}
template <class V> std::string jarr(const V& v) {
  std::string r = "[";
  bool first = true;
  for (const auto& x : v) { if (!first) r += ','; first = false; r += std::to_string(x); }
  return r + "]";
}
template <class V, class F> std::string jarr(const V& v, F f) {
  std::string r = "[";
  bool first = true;
  for (const auto& x : v) { if (!first) r += ','; first = false; r += f(x); }
  return r + "]";
}

// ---------------------------------------------------------------- arguments
struct Args {
  uint64_t seed = 1;
  int count = 10, shard = 0, shards = 1, only = -1;
  std::string out, mode, extra;
  bool thorough = false;
};
inline Args parseArgs(int argc, char** argv) {
  // a fixed address layout, so that a run can be repeated exactly
  const int old = personality(0xffffffffU);
  if (old != -1 && (static_cast<unsigned>(old) & ADDR_NO_RANDOMIZE) == 0U && std::getenv("VF_NO_ASLR") == nullptr) {
    setenv("VF_NO_ASLR", "1", 1);
    if (personality(static_cast<unsigned>(old) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  Args a;
  for (int i = 1; i < argc; ++i) {
    const std::string k = argv[i];
    const auto val = [&]() { return std::string(argv[++i]); };
    if (k == "--seed") a.seed = std::stoull(val());
    else if (k == "--count") a.count = std::stoi(val());
    else if (k == "--shard") a.shard = std::stoi(val());
    else if (k == "--shards") a.shards = std::stoi(val());
    else if (k == "--only") a.only = std::stoi(val());
    else if (k == "--out") a.out = val();
    else if (k == "--mode") a.mode = val();
    else if (k == "--extra") a.extra = val();
    else if (k == "--thorough") a.thorough = true;
  }
  return a;
}

struct Trace {
  FILE* f;
  int id = -1;
  explicit Trace(const std::string& path) : f(std::fopen(path.c_str(), "w")) {
    if (f == nullptr) { std::perror("trace"); std::exit(3); }
  }
  ~Trace() { std::fclose(f); }
  void raw(const std::string& s) { std::fputs(s.c_str(), f); std::fputc('\n', f); }
  void flush() { std::fflush(f); }
  void caseId(int n, int nc, const std::string& desc) {
    raw("{\"e\":\"case\",\"init\":\"id\",\"n\":" + std::to_string(n) + ",\"nc\":" + std::to_string(nc) + ",\"id\":" +
        std::to_string(id) + ",\"desc\":" + jstr(desc) + "}");
    flush();
  }
  void caseBasis(int n, int nc, long b, const std::string& desc) {
    raw("{\"e\":\"case\",\"init\":\"b\",\"b\":" + std::to_string(b) + ",\"n\":" + std::to_string(n) + ",\"nc\":" +
        std::to_string(nc) + ",\"id\":" + std::to_string(id) + ",\"desc\":" + jstr(desc) + "}");
    flush();
  }
  void flag(bool ok, const std::string& what) {
    raw(std::string("{\"e\":\"flag\",\"ok\":") + (ok ? "true" : "false") + ",\"what\":" + jstr(what) + "}");
  }
  void note(const std::string& what) { raw("{\"e\":\"note\",\"what\":" + jstr(what) + "}"); }
  // marks the beginning of a case in traces whose cases start otherwise
  void begin(const std::string& desc) { note("case " + std::to_string(id) + ": " + desc); flush(); }
};

// run body for the cases of this shard
inline int runCases(const Args& a, const std::function<void(int, Rng&, Trace&)>& body) {
  Trace t(a.out);
  for (int i = 0; i < a.count; ++i) {
    if (a.only >= 0 ? i != a.only : i % a.shards != a.shard) continue;
    Rng r(a.seed, static_cast<uint64_t>(i) * 1000003ULL + std::hash<std::string>{}(a.mode) % 1000);
    t.id = i;
    // announces the case before any code under test runs
    std::string pre = "{\"e\":\"start\",\"id\":" + std::to_string(i) + "}";
    t.raw(pre);
    t.flush();
    try {
      body(i, r, t);
    } catch (const std::exception& ex) {
      t.flag(false, std::string("unexpected exception: ") + ex.what());
    }
    t.flush();
  }
  return 0;
}

// ---------------------------------------------------------------- scripts
struct Cond { int start, len; std::string cmp; long val; bool isBit; };
struct SOp {
  std::string g;                          // gate name, or "measure"/"reset"/"barrier"
  std::vector<int> t;                     // targets
  std::vector<std::pair<int, int>> c;     // controls (qubit, 1 positive / 0 negative)
  std::vector<double> p;
  std::vector<int> bits;                  // measure
  std::vector<Cond> cond;
  std::vector<SOp> body;                  // "compound"
};
inline std::string show(const SOp& o) {
  std::ostringstream s;
  for (const auto& c : o.cond) s << "if(c[" << c.start << "+" << c.len << "]" << c.cmp << c.val << ")";
  s << o.g;
  if (!o.p.empty()) { s << "("; for (auto p : o.p) s << p << " "; s << ")"; }
  for (const auto& c : o.c) s << (c.second ? " +" : " -") << c.first;
  for (auto t : o.t) s << " " << t;
  for (auto b : o.bits) s << "->" << b;
  if (!o.body.empty()) { s << "{"; for (const auto& b : o.body) s << show(b); s << "}"; }
  s << "; ";
  return s.str();
}
inline std::string show(const std::vector<SOp>& v) { std::string r; for (const auto& o : v) r += show(o); return r; }

struct GateInfo { std::string name; qc::OpType type; int targets, params; };
inline const std::vector<GateInfo>& gates() {
  static const std::vector<GateInfo> G = {
      {"i", qc::I, 1, 0}, {"h", qc::H, 1, 0}, {"x", qc::X, 1, 0}, {"y", qc::Y, 1, 0}, {"z", qc::Z, 1, 0},
      {"s", qc::S, 1, 0}, {"sdg", qc::Sdg, 1, 0}, {"t", qc::T, 1, 0}, {"tdg", qc::Tdg, 1, 0}, {"v", qc::V, 1, 0},
      {"vdg", qc::Vdg, 1, 0}, {"sx", qc::SX, 1, 0}, {"sxdg", qc::SXdg, 1, 0}, {"rx", qc::RX, 1, 1},
      {"ry", qc::RY, 1, 1}, {"rz", qc::RZ, 1, 1}, {"p", qc::P, 1, 1}, {"u2", qc::U2, 1, 2}, {"u", qc::U, 1, 3},
      {"swap", qc::SWAP, 2, 0}, {"iswap", qc::iSWAP, 2, 0}, {"iswapdg", qc::iSWAPdg, 2, 0}, {"peres", qc::Peres, 2, 0},
      {"peresdg", qc::Peresdg, 2, 0}, {"dcx", qc::DCX, 2, 0}, {"ecr", qc::ECR, 2, 0}, {"rxx", qc::RXX, 2, 1},
      {"ryy", qc::RYY, 2, 1}, {"rzz", qc::RZZ, 2, 1}, {"rzx", qc::RZX, 2, 1}, {"xx_minus_yy", qc::XXminusYY, 2, 2},
      {"xx_plus_yy", qc::XXplusYY, 2, 2}, {"gphase", qc::GPhase, 0, 1}};
  return G;
}
inline const GateInfo& gate(const std::string& n) {
  for (const auto& g : gates()) if (g.name == n) return g;
  std::fprintf(stderr, "no gate %s\n", n.c_str());
  std::exit(3);
}
inline std::string nameOf(qc::OpType t) {
  for (const auto& g : gates()) if (g.type == t) return g.name;
  if (t == qc::Barrier) return "barrier";
  return "?" + qc::toString(t);
}

inline const std::vector<double>& niceAngles() {
  static const std::vector<double> A = [] {
    std::vector<double> v;
    for (int k = -8; k <= 8; ++k) v.push_back(k * qc::PI_4);
    return v;
  }();
  return A;
}
inline double angle(Rng& r) {
  const int m = r.below(10);
  if (m < 5) return r.pick(niceAngles());
  if (m < 6) return r.range(-32, 32) * qc::PI / 16;
  if (m < 7) return r.pick(std::vector<double>{qc::PI, qc::PI_2, qc::PI_4, -qc::PI_2, -qc::PI, 0.0}) + r.pick(std::vector<double>{1e-3, -1e-3, 1e-4, -1e-4});
  return (r.unit() * 2 - 1) * 2 * qc::PI;
}

struct GenOpts {
  int n = 3, maxCtrl = 2;
  bool neg = true, two = true, params = true, gphase = true, barrier = true, compound = false;
  std::vector<std::string> names; // restrict
  int ctrlPct = 45;
};
inline SOp randomGate(Rng& r, const GenOpts& o) {
  for (;;) {
    SOp s;
    const GateInfo& g = o.names.empty() ? gates()[r.below(static_cast<int>(gates().size()))] : gate(r.pick(o.names));
    if (g.targets == 2 && (!o.two || o.n < 2)) continue;
    if (g.params > 0 && !o.params) continue;
    if (g.targets == 0 && !o.gphase) continue;
    s.g = g.name;
    const auto q = r.perm(o.n);
    for (int i = 0; i < g.targets; ++i) s.t.push_back(q[i]);
    for (int i = 0; i < g.params; ++i) s.p.push_back(angle(r));
    if (g.targets > 0 && r.coin(o.ctrlPct)) {
      const int room = std::min(o.maxCtrl, o.n - g.targets);
      const int k = room > 0 ? r.range(1, room) : 0;
      for (int i = 0; i < k; ++i) s.c.emplace_back(q[g.targets + i], o.neg ? !r.coin(40) : 1);
    }
    return s;
  }
}
inline std::vector<SOp> randomCircuit(Rng& r, const GenOpts& o, int len) {
  std::vector<SOp> v;
  for (int i = 0; i < len; ++i) {
    if (o.barrier && r.coin(4)) {
      SOp b; b.g = "barrier";
      for (int q = 0; q < o.n; ++q) if (r.coin(60)) b.t.push_back(q);
      if (!b.t.empty()) { v.push_back(b); continue; }
    }
    if (o.compound && r.coin(12)) {
      SOp b; b.g = "compound";
      GenOpts oo = o;
      oo.compound = r.coin(30);
      oo.barrier = false;
      b.body = randomCircuit(r, oo, r.range(1, 4));
      v.push_back(b);
      continue;
    }
    v.push_back(randomGate(r, o));
  }
  return v;
}

// ------------------------------------------------- scripts -> trace events
inline std::string jparam(double p) {
  return "[" + std::to_string(fix(std::cos(p / 2))) + "," + std::to_string(fix(std::sin(p / 2))) + "," +
         std::to_string(fix(std::cos(p))) + "," + std::to_string(fix(std::sin(p))) + "]";
}
inline std::string jcond(const std::vector<Cond>& cs) {
  if (cs.empty()) return "";
  return ",\"if\":" + jarr(cs, [](const Cond& c) {
    return "[" + std::to_string(c.start) + "," + std::to_string(c.len) + "," + jstr(c.cmp) + "," + std::to_string(c.val) + "]";
  });
}
inline void emitOp(Trace& t, int side, const std::string& g, const std::vector<int>& tg,
                   const std::vector<std::pair<int, int>>& c, const std::vector<double>& p, const std::vector<Cond>& cond = {}) {
  t.raw("{\"e\":\"op\",\"s\":" + std::to_string(side) + ",\"g\":" + jstr(g) + ",\"t\":" + jarr(tg) + ",\"c\":" +
        jarr(c, [](const auto& x) { return "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }) +
        ",\"p\":" + jarr(p, jparam) + jcond(cond) + "}");
}
inline void emitPhase(Trace& t, int side, double a) { emitOp(t, side, "gphase", {}, {}, {a}); }
inline void emitScript(Trace& t, int side, const std::vector<SOp>& v, std::vector<Cond> ctx = {});
inline void emitScriptOp(Trace& t, int side, const SOp& o, std::vector<Cond> ctx) {
  for (const auto& c : o.cond) ctx.push_back(c);
  if (o.g == "compound") emitScript(t, side, o.body, ctx);
  else if (o.g == "measure") {
    for (size_t i = 0; i < o.t.size(); ++i)
      t.raw("{\"e\":\"m\",\"s\":" + std::to_string(side) + ",\"q\":" + std::to_string(o.t[i]) + ",\"b\":" + std::to_string(o.bits[i]) + jcond(ctx) + "}");
  } else if (o.g == "reset") {
    for (const int q : o.t) t.raw("{\"e\":\"r\",\"s\":" + std::to_string(side) + ",\"q\":" + std::to_string(q) + jcond(ctx) + "}");
  } else emitOp(t, side, o.g, o.t, o.c, o.p, ctx);
}
inline void emitScript(Trace& t, int side, const std::vector<SOp>& v, std::vector<Cond> ctx) {
  for (const auto& o : v) emitScriptOp(t, side, o, ctx);
}
inline void emitPerm(Trace& t, int side, const std::vector<int>& f) {
  bool id = true;
  for (size_t i = 0; i < f.size(); ++i) id = id && f[i] == static_cast<int>(i);
  if (!id) t.raw("{\"e\":\"perm\",\"s\":" + std::to_string(side) + ",\"f\":" + jarr(f) + "}");
}
inline void emitCmp(Trace& t, const std::string& rel, long tol, const std::string& extra = "") {
  t.raw("{\"e\":\"cmp\",\"rel\":" + jstr(rel) + ",\"tol\":" + std::to_string(tol) + extra + "}");
}
template <class C> inline std::string jvec(const C& v) {
  std::string r = "[";
  bool first = true;
  for (const auto& z : v) {
    if (!first) r += ',';
    first = false;
    r += std::to_string(fix(z.real())) + "," + std::to_string(fix(z.imag()));
  }
  return r + "]";
}

// ------------------------------------------------- scripts -> public API
inline qc::Controls ctrls(const SOp& o) {
  qc::Controls c;
  for (const auto& x : o.c) c.emplace(static_cast<qc::Qubit>(x.first), x.second ? qc::Control::Type::Pos : qc::Control::Type::Neg);
  return c;
}
inline std::unique_ptr<qc::Operation> makeOp(const SOp& o) {
  if (o.g == "compound") {
    auto c = std::make_unique<qc::CompoundOperation>();
    for (const auto& b : o.body) c->emplace_back(makeOp(b));
    return c;
  }
  std::vector<qc::Qubit> t(o.t.begin(), o.t.end());
  if (o.g == "measure") return std::make_unique<qc::NonUnitaryOperation>(t, std::vector<qc::Bit>(o.bits.begin(), o.bits.end()));
  if (o.g == "reset") return std::make_unique<qc::NonUnitaryOperation>(t, qc::Reset);
  if (o.g == "barrier") return std::make_unique<qc::StandardOperation>(t, qc::Barrier);
  const auto& gi = gate(o.g);
  std::vector<qc::fp> p(o.p.begin(), o.p.end());
  if (gi.targets == 0) return std::make_unique<qc::StandardOperation>(qc::Targets{}, gi.type, p);
  if (gi.targets == 2) return std::make_unique<qc::StandardOperation>(ctrls(o), t[0], t[1], gi.type, p);
  return std::make_unique<qc::StandardOperation>(ctrls(o), t[0], gi.type, p);
}
// through the named member functions (x / cx / mcx ...)
inline bool viaMember(qc::QuantumComputation& q, const SOp& o) {
  const auto C = ctrls(o);
  const auto one = [&]() { return *C.begin(); };
#define V1(n) if (o.g == #n) { if (C.empty()) q.n(o.t[0]); else if (C.size() == 1) q.c##n(one(), o.t[0]); else q.mc##n(C, o.t[0]); return true; }
#define V1P(n) if (o.g == #n) { if (C.empty()) q.n(o.p[0], o.t[0]); else if (C.size() == 1) q.c##n(o.p[0], one(), o.t[0]); else q.mc##n(o.p[0], C, o.t[0]); return true; }
#define V2(n) if (o.g == #n) { if (C.empty()) q.n(o.t[0], o.t[1]); else if (C.size() == 1) q.c##n(one(), o.t[0], o.t[1]); else q.mc##n(C, o.t[0], o.t[1]); return true; }
#define V2P(n) if (o.g == #n) { if (C.empty()) q.n(o.p[0], o.t[0], o.t[1]); else if (C.size() == 1) q.c##n(o.p[0], one(), o.t[0], o.t[1]); else q.mc##n(o.p[0], C, o.t[0], o.t[1]); return true; }
#define V2PP(n) if (o.g == #n) { if (C.empty()) q.n(o.p[0], o.p[1], o.t[0], o.t[1]); else if (C.size() == 1) q.c##n(o.p[0], o.p[1], one(), o.t[0], o.t[1]); else q.mc##n(o.p[0], o.p[1], C, o.t[0], o.t[1]); return true; }
  V1(i) V1(x) V1(y) V1(z) V1(h) V1(s) V1(sdg) V1(t) V1(tdg) V1(v) V1(vdg) V1(sx) V1(sxdg)
  V1P(rx) V1P(ry) V1P(rz) V1P(p)
  if (o.g == "u2") { if (C.empty()) q.u2(o.p[0], o.p[1], o.t[0]); else if (C.size() == 1) q.cu2(o.p[0], o.p[1], one(), o.t[0]); else q.mcu2(o.p[0], o.p[1], C, o.t[0]); return true; }
  if (o.g == "u") { if (C.empty()) q.u(o.p[0], o.p[1], o.p[2], o.t[0]); else if (C.size() == 1) q.cu(o.p[0], o.p[1], o.p[2], one(), o.t[0]); else q.mcu(o.p[0], o.p[1], o.p[2], C, o.t[0]); return true; }
  V2(swap) V2(dcx) V2(ecr) V2(iswap) V2(iswapdg) V2(peres) V2(peresdg)
  V2P(rxx) V2P(ryy) V2P(rzz) V2P(rzx) V2PP(xx_minus_yy) V2PP(xx_plus_yy)
  if (o.g == "gphase") { q.gphase(o.p[0]); return true; }
  if (o.g == "barrier") { q.barrier(qc::Targets(o.t.begin(), o.t.end())); return true; }
  if (o.g == "reset") { q.reset(qc::Targets(o.t.begin(), o.t.end())); return true; }
  if (o.g == "measure") { q.measure(qc::Targets(o.t.begin(), o.t.end()), std::vector<qc::Bit>(o.bits.begin(), o.bits.end())); return true; }
  return false;
}
inline qc::ComparisonKind cmpKind(const std::string& s) {
  if (s == "==") return qc::Eq;
  if (s == "!=") return qc::Neq;
  if (s == "<") return qc::Lt;
  if (s == "<=") return qc::Leq;
  if (s == ">") return qc::Gt;
  return qc::Geq;
}
inline std::string cmpStr(qc::ComparisonKind k) {
  switch (k) {
  case qc::Eq: return "==";
  case qc::Neq: return "!=";
  case qc::Lt: return "<";
  case qc::Leq: return "<=";
  case qc::Gt: return ">";
  default: return ">=";
  }
}
// regs: start index -> register (to build conditions)
inline std::unique_ptr<qc::Operation> makeAny(const SOp& o, const qc::QuantumComputation& q) {
  if (o.cond.empty()) return makeOp(o);
  SOp inner = o;
  inner.cond.clear();
  const auto& c = o.cond[0];
  auto in = makeOp(inner);
  if (c.isBit)
    return std::make_unique<qc::ClassicControlledOperation>(std::move(in), static_cast<qc::Bit>(c.start), static_cast<uint64_t>(c.val), cmpKind(c.cmp));
  for (const auto& [n, reg] : q.getClassicalRegisters())
    if (static_cast<int>(reg.getStartIndex()) == c.start && static_cast<int>(reg.getSize()) == c.len)
      return std::make_unique<qc::ClassicControlledOperation>(std::move(in), reg, static_cast<uint64_t>(c.val), cmpKind(c.cmp));
  std::fprintf(stderr, "no register\n");
  std::exit(3);
}
inline bool niceScript(const std::vector<SOp>& v) { // every angle a multiple of pi/4
  for (const auto& o : v) {
    for (const auto x : o.p) { const auto k = x / (3.14159265358979323846 / 4); if (std::abs(k - std::round(k)) > 1e-9) return false; }
    if (!niceScript(o.body)) return false;
  }
  return true;
}
inline void applyScript(qc::QuantumComputation& q, const std::vector<SOp>& v, Rng& r) {
  for (const auto& o : v) {
    if (o.cond.empty() && o.g != "compound" && r.coin(70) && viaMember(q, o)) continue;
    if (!o.cond.empty() && o.g != "compound" && o.g != "measure" && o.g != "reset" && r.coin(50)) {
      const auto& gi = gate(o.g);
      const auto& c = o.cond[0];
      if (gi.targets == 1) {
        std::vector<qc::fp> p(o.p.begin(), o.p.end());
        if (c.isBit) { q.classicControlled(gi.type, o.t[0], ctrls(o), static_cast<qc::Bit>(c.start), static_cast<uint64_t>(c.val), cmpKind(c.cmp), p); continue; }
        for (const auto& [n, reg] : q.getClassicalRegisters())
          if (static_cast<int>(reg.getStartIndex()) == c.start && static_cast<int>(reg.getSize()) == c.len) {
            q.classicControlled(gi.type, o.t[0], ctrls(o), reg, static_cast<uint64_t>(c.val), cmpKind(c.cmp), p);
            goto next;
          }
      }
    }
    q.emplace_back(makeAny(o, q));
  next:;
  }
}

// ------------------------------------------------- IR -> script
inline SOp fromIR(const qc::Operation& op) {
  SOp s;
  if (op.isCompoundOperation()) {
    s.g = "compound";
    for (const auto& b : dynamic_cast<const qc::CompoundOperation&>(op)) s.body.push_back(fromIR(*b));
    return s;
  }
  if (op.isClassicControlledOperation()) {
    const auto& c = dynamic_cast<const qc::ClassicControlledOperation&>(op);
    s = fromIR(*c.getOperation());
    Cond k;
    k.cmp = cmpStr(c.getComparisonKind());
    k.val = static_cast<long>(c.getExpectedValue());
    if (c.getControlRegister().has_value()) {
      k.start = static_cast<int>(c.getControlRegister()->getStartIndex());
      k.len = static_cast<int>(c.getControlRegister()->getSize());
      k.isBit = false;
    } else {
      k.start = static_cast<int>(*c.getControlBit());
      k.len = 1;
      k.isBit = true;
    }
    s.cond.insert(s.cond.begin(), k);
    return s;
  }
  s.t.assign(op.getTargets().begin(), op.getTargets().end());
  if (op.getType() == qc::Measure) {
    s.g = "measure";
    const auto& m = dynamic_cast<const qc::NonUnitaryOperation&>(op);
    s.bits.assign(m.getClassics().begin(), m.getClassics().end());
    return s;
  }
  if (op.getType() == qc::Reset) { s.g = "reset"; return s; }
  s.g = nameOf(op.getType());
  for (const auto& c : op.getControls()) s.c.emplace_back(static_cast<int>(c.qubit), c.type == qc::Control::Type::Pos ? 1 : 0);
  s.p.assign(op.getParameter().begin(), op.getParameter().end());
  if (s.g != "barrier") {
    const auto& gi = gate(s.g);
    // the IR keeps all parameters it needs; anything else is a malformed operation
    if (static_cast<int>(s.p.size()) < gi.params) throw std::runtime_error("operation " + s.g + " lacks parameters");
    s.p.resize(gi.params);
    if (gi.targets == 1 && s.t.size() != 1) throw std::runtime_error("operation " + s.g + " has " + std::to_string(s.t.size()) + " targets");
    if (gi.targets == 2 && s.t.size() != 2) throw std::runtime_error("operation " + s.g + " has " + std::to_string(s.t.size()) + " targets");
  } else s.p.clear();
  return s;
}
inline std::vector<SOp> fromIR(const qc::QuantumComputation& q) {
  std::vector<SOp> v;
  for (const auto& op : q) v.push_back(fromIR(*op));
  return v;
}
} // namespace vf
