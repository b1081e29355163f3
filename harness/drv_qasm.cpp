// C16 exp: export to OpenQASM and import again; C17 imp; C18 bad
#include "dyncirc.hpp"
#include "qasm3/Importer.hpp"
#include "qasm3/Exception.hpp"
#include <csignal>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;

static std::string showPerm(const qc::Permutation& p) {
  std::string s;
  for (const auto& [k, x] : p) s += std::to_string(k) + ">" + std::to_string(x) + " ";
  return s;
}
template <class M> static std::map<std::string, std::pair<int, int>> regsOf(const M& m) {
  std::map<std::string, std::pair<int, int>> v;
  for (const auto& [k, x] : m) v[k] = {static_cast<int>(x.getStartIndex()), static_cast<int>(x.getSize())};
  return v;
}
static std::string showRegs(const std::map<std::string, std::pair<int, int>>& m) {
  std::string s;
  for (const auto& [k, x] : m) s += k + "@" + std::to_string(x.first) + "+" + std::to_string(x.second) + " ";
  return s;
}
static void expCase(int id, Rng& r, Trace& t) {
  const bool v3 = id % 2 == 0;
  const bool dyn = r.coin(50);
  const int n = r.pick(std::vector<int>{1, 2, 2, 3, 3});
  const int nb = dyn ? r.range(1, 3) : r.below(3);
  auto names = idNames();
  r.shuffle(names);
  size_t k = 0;
  const int extra = r.coin(25) ? 1 : 0; // an idle qubit that is stripped before exporting
  auto qr = split(r, n + extra, names, k);
  const auto cr = split(r, nb, names, k);
  GenOpts o;
  o.n = n;
  o.maxCtrl = r.range(1, 3);
  o.compound = r.coin(40);
  if (!dyn && n > 1 && id % 3 == 0) o.names = {gates()[(id / 6) % gates().size()].name, gates()[r.below(static_cast<int>(gates().size()))].name};
  qc::QuantumComputation q;
  for (const auto& g : qr) {
    if (g.start > 0 && g.start + g.size == n + extra && r.coin(40)) q.addAncillaryRegister(g.size, g.name);
    else q.addQubitRegister(g.size, g.name);
  }
  for (const auto& g : cr) q.addClassicalRegister(g.size, g.name);
  std::vector<int> phys = iota(n); // physical qubit of the i-th qubit that is kept
  if (extra == 1) {
    const int idle = r.below(n + 1);
    phys.clear();
    for (int i = 0; i <= n; ++i) if (i != idle) phys.push_back(i);
    q.removeQubit(idle);
    for (auto& [p, l] : q.initialLayout) if (static_cast<int>(l) > idle) --l;
    for (auto& [p, l] : q.outputPermutation) if (static_cast<int>(l) > idle) --l;
    q.outputPermutation.clear();
    for (int i = 0; i < n; ++i) q.outputPermutation[phys[i]] = static_cast<qc::Qubit>(i);
  }
  std::vector<Reg> qs; // registers over the kept qubits
  {
    std::vector<int> inv(n + extra, -1);
    for (int i = 0; i < n; ++i) inv[phys[i]] = i;
    for (const auto* m : {&q.getQuantumRegisters(), &q.getAncillaRegisters()})
      for (const auto& [nm, g] : *m) qs.push_back({nm, inv[g.getStartIndex()], static_cast<int>(g.getSize())});
  }
  auto sc = dyn ? dynCircuit(r, o, r.range(2, 7), nb, qs, cr) : randomCircuit(r, o, r.range(0, 7));
  std::vector<SOp> real;
  for (const auto& s : sc) real.push_back(renameOp(s, phys));
  const bool isUnitary = std::all_of(sc.begin(), sc.end(), unitary);
  std::string text;
  const std::string desc = std::string("export OpenQASM ") + (v3 ? "3" : "2") + " n=" + std::to_string(n) + " bits=" + std::to_string(nb) + (extra == 1 ? " stripped " : " ") + show(sc);
  if (isUnitary && n <= 3) t.caseId(n, nb, desc); else t.caseBasis(n, nb, 0, desc);
  applyScript(q, real, r);
  if (r.coin(50)) {
    const auto in = r.perm(n), out = r.perm(n);
    for (int i = 0; i < n; ++i) {
      q.initialLayout[phys[i]] = in[i];
      q.outputPermutation[phys[i]] = out[i];
    }
  }
  bool cut = false;
  if (isUnitary && extra == 0 && n > 1 && r.coin(25)) { // the last output is garbage
    cut = true;
    for (int i = 0; i < n; ++i)
      if (static_cast<int>(q.outputPermutation.at(phys[i])) == n - 1) { q.outputPermutation.erase(phys[i]); break; }
    q.setLogicalQubitGarbage(n - 1);
  }
  const auto layout = q.initialLayout;
  if (!isUnitary) q.initializeIOMapping();
  // the format lists outputs in order, so there must not be gaps
  bool gaps = false;
  { std::set<int> labels; for (const auto& [p, l] : q.outputPermutation) labels.insert(static_cast<int>(l));
    gaps = labels.size() != q.outputPermutation.size() || (!labels.empty() && *labels.rbegin() + 1 != static_cast<int>(labels.size())); }
  qc::Permutation wantIn, wantOut;
  for (int i = 0; i < n; ++i) {
    wantIn[i] = layout.at(phys[i]);
    if (const auto it = q.outputPermutation.find(phys[i]); it != q.outputPermutation.end()) wantOut[i] = it->second;
  }
  std::stringstream os;
  q.dumpOpenQASM(os, v3);
  text = os.str();
  t.note(text);
  const auto before = regsOf(q.getClassicalRegisters());
  qc::QuantumComputation p;
  try {
    p = qasm3::Importer::imports(text);
  } catch (const std::exception& e) {
    t.flag(false, std::string("exported program is rejected: ") + e.what());
    return;
  }
  t.flag(static_cast<int>(p.getNqubits()) == n && static_cast<int>(p.getNcbits()) == nb, "sizes after import: " + std::to_string(p.getNqubits()) + " qubits, " + std::to_string(p.getNcbits()) + " bits");
  t.flag(regsOf(p.getClassicalRegisters()) == before, "classical registers: " + showRegs(before) + "became " + showRegs(regsOf(p.getClassicalRegisters())));
  std::map<std::string, std::pair<int, int>> wr;
  for (const auto& g : qs) wr[g.name] = {g.start, g.size};
  t.flag(regsOf(p.getQuantumRegisters()) == wr && p.getAncillaRegisters().empty(), "qubit registers: " + showRegs(wr) + "became " + showRegs(regsOf(p.getQuantumRegisters())));
  t.flag(p.initialLayout == wantIn, "initial layout: " + showPerm(wantIn) + "became " + showPerm(p.initialLayout));
  // two qubits measured into the same bit leave the assignment of outputs open
  std::set<int> seenBits;
  bool twice = false;
  for (const auto& s : sc) if (s.g == "measure") for (const auto b : s.bits) twice |= !seenBits.insert(b).second;
  if (!gaps && !twice) t.flag(p.outputPermutation == wantOut || wantOut.empty(), "output permutation: " + showPerm(wantOut) + "became " + showPerm(p.outputPermutation));
  if (cut && n > 1) t.flag(p.logicalQubitIsGarbage(n - 1) && p.getNgarbageQubits() == 1, "unused output is garbage");
  if (!(isUnitary && n <= 3)) prefix(r, t, n, std::min(nb, 2));
  emitScript(t, 1, sc);
  emitScript(t, 2, fromIR(p));
  if (isUnitary) emitCmp(t, "phase", 6000);
  else emitCmp(t, "chan", 6000, ",\"ka\":" + jarr(iota(n)) + ",\"kb\":" + jarr(iota(n)));
}

// ---------------------------------------------------------------- C17
struct Val { int k = 0; long n = 0, d = 1; };
static long gcdl(long a, long b) { a = std::labs(a); b = std::labs(b); while (b != 0) { const long t = a % b; a = b; b = t; } return a; }
static Val norm(int k, long n, long d) {
  if (d < 0) { n = -n; d = -d; }
  const long g = std::max(1L, gcdl(n, d));
  return {k, n / g, d / g};
}
using Env = std::map<std::string, Val>;
struct Bad {}; // an expression without an exact value: generate another one
struct Ex;
using ExP = std::shared_ptr<Ex>;
struct Ex {
  std::string op; // n a pi v + - * / ^ neg f
  Val v;
  std::string text; // literals; variable and function names
  bool integer = false; // an integer literal
  ExP x, y;
  bool isInt() const {
    if (op == "n") return integer;
    if (op == "neg") return x->isInt();
    if (op == "+" || op == "-" || op == "*" || op == "/") return x->isInt() && y->isInt();
    if (op == "^") return x->isInt();
    return false;
  }
  Val eval(const Env& e) const {
    if (op == "n" || op == "a") return v;
    if (op == "pi") return {1, 1, 1};
    if (op == "v") return e.at(text);
    const Val a = x->eval(e);
    Val r;
    if (op == "neg") r = {a.k, -a.n, a.d};
    else if (op == "f") {
      const auto isv = [&](int k, long n, long d) { return a.n == n && a.d == d && (a.k == k || n == 0); };
      if (text == "sqrt") { if (!isv(0, 1, 1) && !isv(0, 4, 1) && !isv(0, 9, 1)) throw Bad{}; r = {0, a.n == 9 ? 3 : a.n == 4 ? 2 : 1, 1}; }
      else if (text == "exp") { if (a.n != 0) throw Bad{}; r = {0, 1, 1}; }
      else if (text == "ln") { if (!isv(0, 1, 1)) throw Bad{}; r = {0, 0, 1}; }
      else if (text == "cos") { if ((a.k != 1 && a.n != 0) || a.d != 1) throw Bad{}; r = {0, a.n % 2 == 0 ? 1 : -1, 1}; }
      else if (text == "sin") { if ((a.k != 1 && a.n != 0) || a.d > 2) throw Bad{}; r = a.d == 1 ? Val{0, 0, 1} : Val{0, ((a.n % 4) + 4) % 4 == 1 ? 1 : -1, 1}; }
      else { if ((a.k != 1 && a.n != 0) || a.d != 1) throw Bad{}; r = {0, 0, 1}; }
    } else if (op == "^") {
      if (a.k != 0) throw Bad{};
      r = {0, 1, 1};
      for (long i = 0; i < y->v.n; ++i) r = norm(0, r.n * a.n, r.d * a.d);
    } else {
      const Val b = y->eval(e);
      if (op == "*") r = norm(a.k + b.k, a.n * b.n, a.d * b.d);
      else if (op == "/") { if (b.n == 0) throw Bad{}; r = norm(a.k - b.k, a.n * b.d, a.d * b.n); }
      else {
        const long s = op == "+" ? 1 : -1;
        if (a.n == 0) r = {b.k, s * b.n, b.d};
        else if (b.n == 0) r = a;
        else { if (a.k != b.k) throw Bad{}; r = norm(a.k, a.n * b.d + s * b.n * a.d, a.d * b.d); }
      }
    }
    if (r.k < 0 || r.k > 1 || std::labs(r.n) > 3000 || r.d > 1000) throw Bad{};
    return r;
  }
  int prec() const { return op == "+" || op == "-" ? 1 : op == "*" || op == "/" ? 2 : op == "neg" ? 1 : op == "^" ? 3 : 4; }
  std::string str(Rng& r) const {
    const auto sp = [&] { return r.coin(40) ? std::string(" ") : std::string(); };
    const auto par = [&](const ExP& e, bool need) { const auto t = e->str(r); return need || r.coin(8) ? "(" + sp() + t + sp() + ")" : t; };
    if (op == "n" || op == "a" || op == "v") return text;
    if (op == "pi") return r.coin(85) ? "pi" : "\xcf\x80";
    if (op == "neg") return "-" + par(x, x->prec() < 2 || x->op == "neg");
    if (op == "f") return text + "(" + x->str(r) + ")";
    if (op == "^") return par(x, x->prec() < 4) + sp() + "^" + sp() + y->str(r);
    const bool lneg = x->op == "neg";
    const auto l = par(x, x->prec() < prec() || lneg);
    const auto ri = par(y, y->prec() <= prec() || y->op == "neg");
    return l + sp() + op + sp() + ri;
  }
  std::string json() const {
    const auto nd = [&] { return "," + std::to_string(v.n) + "," + std::to_string(v.d) + "]"; };
    if (op == "n") return "[\"n\"" + nd();
    if (op == "a") return "[\"a\"" + nd();
    if (op == "pi") return "[\"pi\"]";
    if (op == "v") return "[\"v\"," + jstr(text) + "]";
    if (op == "neg") return "[\"neg\"," + x->json() + "]";
    if (op == "f") return "[\"f\"," + jstr(text) + "," + x->json() + "]";
    if (op == "^") return "[\"^\"," + x->json() + "," + std::to_string(y->v.n) + "]";
    return "[" + jstr(op) + "," + x->json() + "," + y->json() + "]";
  }
};
static ExP mk(const std::string& op, ExP x = nullptr, ExP y = nullptr) { auto e = std::make_shared<Ex>(); e->op = op; e->x = std::move(x); e->y = std::move(y); return e; }
static ExP intLit(long n) { auto e = mk("n"); e->v = {0, n, 1}; e->text = std::to_string(n); e->integer = true; return e; }
struct Gen { // what expressions may mention
  Rng& r;
  int ver;
  std::map<std::string, int> vars; // name -> kind
  std::string fmt(double x) {
    char b[64];
    const int m = r.below(4);
    if (m == 0) std::snprintf(b, sizeof b, "%.17g", x);
    else if (m == 1) std::snprintf(b, sizeof b, "%.17e", x);
    else if (m == 2) std::snprintf(b, sizeof b, "%.16E", x);
    else std::snprintf(b, sizeof b, "%.18f", x);
    std::string s = b;
    if (s.find_first_of(".eE") == std::string::npos) s += ".0";
    if (s.rfind("0.", 0) == 0 && r.coin(30)) s = s.substr(1);
    return s;
  }
  ExP num(int depth) {
    const int k = r.below(depth > 0 ? 10 : 5);
    std::vector<std::string> vs;
    for (const auto& [n, kd] : vars) if (kd == 0) vs.push_back(n);
    if (k < 3) {
      if (ver == 3 && r.coin(10)) { auto e = intLit(r.range(1, 4)); e->text = r.pick(std::vector<std::string>{"0x", "0b", "0o"}); const long n = e->v.n; e->text += e->text == "0b" ? std::string(n >= 2 ? "1" : "") + ((n & 1) != 0 ? "1" : "0") + (n == 4 ? "0" : "") : std::to_string(n); if (n == 4 && e->text[1] == 'b') e->text = "0b100"; return e; }
      return intLit(r.range(1, 4));
    }
    if (k == 3) { auto e = mk("n"); const auto [n, d, t] = r.pick(std::vector<std::tuple<long, long, std::string>>{{1, 2, "0.5"}, {1, 2, ".5"}, {3, 2, "1.5"}, {1, 4, "0.25"}, {2, 1, "2.0"}, {2, 1, "2."}, {3, 1, "30e-1"}, {1, 2, "5E-1"}, {4, 1, "0.4e+1"}}); e->v = norm(0, n, d); e->text = t; return e; }
    if (k == 4) { if (vs.empty()) return intLit(2); auto e = mk("v"); e->text = r.pick(vs); return e; }
    if (k == 5) return mk("neg", num(depth - 1));
    if (k == 6) { auto e = mk("f", num(depth - 1)); e->text = r.pick(std::vector<std::string>{"sqrt", "ln", "exp"}); if (r.coin(60)) { e->text = "sqrt"; e->x = intLit(r.pick(std::vector<long>{1, 4, 9})); } return e; }
    if (k == 7 && ver == 2) return mk("^", num(0), intLit(r.range(0, 3)));
    if (k == 8) { auto e = mk("f", ang(depth - 1)); e->text = r.pick(std::vector<std::string>{"sin", "cos", "tan"}); return e; }
    const auto op = r.pick(std::vector<std::string>{"+", "-", "*", "/"});
    auto a = num(depth - 1);
    auto b = num(depth - 1);
    if (op == "/" && a->isInt() && b->isInt() && ver == 3) { b = mk("n"); b->v = {0, 2, 1}; b->text = "2.0"; } // integer quotients are rounded
    return mk(op, a, b);
  }
  ExP ang(int depth) {
    std::vector<std::string> vs;
    for (const auto& [n, kd] : vars) if (kd == 1) vs.push_back(n);
    const int k = r.below(depth > 0 ? 12 : 4);
    if (k < 2) { if (!vs.empty() && r.coin(60)) { auto e = mk("v"); e->text = r.pick(vs); return e; } return mk("pi"); }
    if (k == 2) { auto e = mk("a"); e->v = norm(1, r.range(1, 48), 24); e->text = fmt(static_cast<double>(e->v.n) * qc::PI / static_cast<double>(e->v.d)); return e; }
    if (k == 3) { if (vs.empty()) return mk("pi"); auto e = mk("v"); e->text = r.pick(vs); return e; }
    if (k < 6) return mk("/", ang(depth - 1), r.coin(60) ? intLit(r.pick(std::vector<long>{2, 3, 4, 6, 8, 12})) : num(depth - 1));
    if (k == 6) return mk("*", ang(depth - 1), num(depth - 1));
    if (k == 7) return mk("*", num(depth - 1), ang(depth - 1));
    if (k == 8) return mk("neg", ang(depth - 1));
    if (k == 9) return mk("+", ang(depth - 1), ang(depth - 1));
    if (k == 10) return mk("-", ang(depth - 1), ang(depth - 1));
    return mk("/", mk("*", num(depth - 1), ang(depth - 1)), intLit(r.range(1, 6)));
  }
};
static bool exact(const Val& v) { return v.n == 0 || (v.k == 1 && (24 * v.n) % v.d == 0 && std::labs(v.n) <= 12 * v.d); }
struct GateDef { std::string name; std::vector<std::string> ps, qs; std::vector<int> kinds; };
struct QCall { std::string g; std::vector<std::pair<std::string, ExP>> mods; std::vector<ExP> ps; };
struct StdG { std::string name; int q, p; int ver; }; // operands, parameters, language version (0: any)
static const std::vector<StdG>& stdGates() {
  static const std::vector<StdG> G = {
      {"x", 1, 0, 0}, {"y", 1, 0, 0}, {"z", 1, 0, 0}, {"h", 1, 0, 0}, {"s", 1, 0, 0}, {"sdg", 1, 0, 0}, {"t", 1, 0, 0}, {"tdg", 1, 0, 0},
      {"sx", 1, 0, 0}, {"sxdg", 1, 0, 0}, {"id", 1, 0, 0}, {"rx", 1, 1, 0}, {"ry", 1, 1, 0}, {"rz", 1, 1, 0}, {"p", 1, 1, 0}, {"u1", 1, 1, 0},
      {"u2", 1, 2, 0}, {"u3", 1, 3, 0}, {"U", 1, 3, 0}, {"u", 1, 3, 0}, {"phase", 1, 1, 0}, {"cx", 2, 0, 0}, {"CX", 2, 0, 0}, {"ccx", 3, 0, 0},
      {"cy", 2, 0, 0}, {"cz", 2, 0, 0}, {"ch", 2, 0, 0}, {"cp", 2, 1, 0}, {"cphase", 2, 1, 0}, {"crx", 2, 1, 0}, {"cry", 2, 1, 0}, {"crz", 2, 1, 0},
      {"swap", 2, 0, 0}, {"cswap", 3, 0, 0}, {"iswap", 2, 0, 0}, {"iswapdg", 2, 0, 0}, {"dcx", 2, 0, 0}, {"ecr", 2, 0, 0}, {"rxx", 2, 1, 0},
      {"ryy", 2, 1, 0}, {"rzz", 2, 1, 0}, {"rzx", 2, 1, 0}, {"xx_minus_yy", 2, 2, 0}, {"xx_plus_yy", 2, 2, 0}, {"gphase", 0, 1, 3}, {"cu", 2, 4, 3},
      {"rccx", 3, 0, 2}, {"c3x", 4, 0, 0}, {"c3sqrtx", 4, 0, 0}, {"mcx", 2, 0, 0}, {"mcx", 3, 0, 0}, {"mcphase", 3, 1, 0}, {"mcx_gray", 3, 0, 0}, {"mcx_vchain", 2, 0, 0}, {"mcx_vchain", 3, 0, 0}, {"mcx_recursive", 3, 0, 0}, {"mcphase", 2, 1, 0}, {"mcphase", 4, 1, 0},
      {"cu1", 2, 1, 2}, {"cu3", 2, 3, 2}, {"csx", 2, 0, 2}, {"ccz", 3, 0, 2}, {"cch", 3, 0, 2}, {"crzz", 3, 1, 2}, {"crxx", 3, 1, 2}, {"ccp", 3, 1, 2},
      {"cs", 2, 0, 2}, {"ct", 2, 0, 2}, {"cdcx", 3, 0, 2}, {"cu2", 2, 2, 2}, {"ccrx", 3, 1, 2}, {"ciswap", 3, 0, 2}, {"csdg", 2, 0, 2}};
  return G;
}
struct Prog {
  Rng& r;
  int ver;
  bool strict = true;
  std::string text;
  std::vector<std::string> st; // JSON statements
  std::vector<Reg> qr, cr;
  Env ks;
  std::map<std::string, int> kinds;
  std::map<std::string, GateDef> gs;
  std::map<std::string, std::vector<QCall>> bodies;
  std::vector<std::string> order;
  int n = 0, nb = 0;
  std::string nl() {
    if (r.coin(80)) return "\n";
    if (r.coin(30)) return " ";
    if (r.coin(40)) return " /* measure q -> c; **/ ";
    return r.pick(std::vector<std::string>{" // comment\n", " // i am a comment 1 2\n", "\n\n", " // rotate by pi 3 times\n", " // also 4\n", "\r\n"});
  }
  bool valid(const std::string& g, const std::vector<Val>& vals) const {
    if (gs.find(g) == gs.end()) { for (const auto& v : vals) if (!exact(v)) return false; return true; }
    const auto& d = gs.at(g);
    Env e = ks;
    for (size_t i = 0; i < d.ps.size(); ++i) e[d.ps[i]] = vals[i];
    for (const auto& c : bodies.at(g)) {
      std::vector<Val> v;
      try { for (const auto& p : c.ps) v.push_back(p->eval(e)); } catch (const Bad&) { return false; }
      if (!valid(c.g, v)) return false;
    }
    return true;
  }
  struct Pick { std::string g; int q; std::vector<int> kinds; };
  // a gate acting on at most room qubits
  Pick pickGate(int room, bool nested) {
    for (;;) {
      if (!order.empty() && r.coin(nested ? 35 : 50)) {
        const auto& d = gs.at(r.pick(order));
        if (static_cast<int>(d.qs.size()) > room) continue;
        return {d.name, static_cast<int>(d.qs.size()), d.kinds};
      }
      const auto& s = r.pick(stdGates());
      if (s.q > room || (s.ver != 0 && s.ver != ver)) continue;
      return {s.name, s.q, std::vector<int>(s.p, 1)};
    }
  }
  // modifiers that use up at most room further operands
  std::vector<std::pair<std::string, ExP>> mods(int room, int& used) {
    std::vector<std::pair<std::string, ExP>> m;
    used = 0;
    if (ver != 3) return m;
    while (r.coin(m.empty() ? 40 : 35)) {
      if (r.coin(40)) { m.emplace_back("inv", nullptr); continue; }
      if (used >= room) break;
      const int k = r.range(1, room - used);
      used += k;
      m.emplace_back(r.coin(50) ? "ctrl" : "negctrl", k == 1 && r.coin(70) ? nullptr : intLit(k));
    }
    return m;
  }
  std::string modText(const std::vector<std::pair<std::string, ExP>>& m) {
    std::string s;
    for (const auto& [k, x] : m) s += k + (x ? "(" + x->str(r) + ")" : "") + (r.coin(80) ? " @ " : "@");
    return s;
  }
  static std::string modJson(const std::vector<std::pair<std::string, ExP>>& m) {
    return jarr(m, [](const auto& x) { return "[" + jstr(x.first) + "," + (x.second ? x.second->json() : "[\"n\",1,1]") + "]"; });
  }
  bool params(const std::vector<int>& kd, const std::map<std::string, int>& vars, const Env* env, const std::string& g, std::vector<ExP>& out) {
    for (int tries = 0; tries < 60; ++tries) {
      out.clear();
      Gen gen{r, ver, vars};
      for (const auto k : kd) out.push_back(k == 1 ? gen.ang(r.below(3)) : gen.num(r.below(2)));
      if (env == nullptr) return true; // checked when the gate is called
      std::vector<Val> v;
      try { for (const auto& e : out) v.push_back(e->eval(*env)); } catch (const Bad&) { continue; }
      bool ok = true;
      for (size_t i = 0; i < v.size(); ++i) ok = ok && (v[i].n == 0 || v[i].k == kd[i]);
      if (ok && valid(g, v)) return true;
    }
    return false;
  }
  std::string argText(const std::vector<ExP>& ps) {
    if (ps.empty()) return r.coin(5) ? "()" : "";
    std::string s = "(";
    for (size_t i = 0; i < ps.size(); ++i) s += (i > 0 ? "," : "") + std::string(r.coin(50) ? " " : "") + ps[i]->str(r);
    return s + ")";
  }
  void defineGate(const std::string& name) {
    GateDef d;
    d.name = name;
    const int nq = r.pick(std::vector<int>{1, 1, 2, 2, 3});
    auto pn = std::vector<std::string>{"a", "b", "theta", "phi", "x0", "lambda"};
    for (const auto& [k, v] : ks) pn.push_back(k); // parameters may hide constants
    r.shuffle(pn);
    std::sort(pn.begin(), pn.end()); pn.erase(std::unique(pn.begin(), pn.end()), pn.end()); r.shuffle(pn);
    for (int i = r.below(3); i > 0; --i) { d.ps.push_back(pn[i]); d.kinds.push_back(r.coin(70) ? 1 : 0); }
    auto qn = std::vector<std::string>{"q", "r", "s1", "t1", "c1", "w"};
    for (const auto& g : qr) qn.push_back(g.name); // and operands may hide registers
    std::sort(qn.begin(), qn.end()); qn.erase(std::unique(qn.begin(), qn.end()), qn.end()); r.shuffle(qn);
    for (const auto& x : qn) if (static_cast<int>(d.qs.size()) < nq && std::find(d.ps.begin(), d.ps.end(), x) == d.ps.end()) d.qs.push_back(x);
    auto vars = kinds;
    for (size_t i = 0; i < d.ps.size(); ++i) vars[d.ps[i]] = d.kinds[i];
    std::vector<QCall> body;
    std::string bt;
    std::string bj;
    for (int i = r.pick(std::vector<int>{0, 1, 1, 2, 2, 3}); i > 0; --i) {
      QCall c;
      const auto pk = pickGate(nq, true);
      int used = 0;
      c.g = pk.g;
      c.mods = mods(nq - pk.q, used);
      params(pk.kinds, vars, nullptr, pk.g, c.ps);
      auto ops = d.qs;
      r.shuffle(ops);
      ops.resize(pk.q + used);
      bt += "  " + modText(c.mods) + c.g + argText(c.ps) + " ";
      for (size_t j = 0; j < ops.size(); ++j) bt += (j > 0 ? ", " : "") + ops[j];
      bt += ";" + nl();
      bj += std::string(bj.empty() ? "" : ",") + "{\"k\":\"call\",\"g\":" + jstr(c.g) + ",\"mods\":" + modJson(c.mods) + ",\"ps\":" + jarr(c.ps, [](const ExP& e) { return e->json(); }) +
            ",\"a\":" + jarr(ops, [](const std::string& x) { return "{\"n\":" + jstr(x) + ",\"i\":[]}"; }) + "}";
      body.push_back(c);
    }
    text += "gate " + name;
    if (!d.ps.empty() || r.coin(10)) { text += "("; for (size_t i = 0; i < d.ps.size(); ++i) text += (i > 0 ? "," : "") + d.ps[i]; text += ")"; }
    for (size_t i = 0; i < d.qs.size(); ++i) text += (i > 0 ? ", " : " ") + d.qs[i];
    text += " {" + nl() + bt + "}" + nl();
    st.push_back("{\"k\":\"gate\",\"n\":" + jstr(name) + ",\"ps\":" + jarr(d.ps, jstr) + ",\"qs\":" + jarr(d.qs, jstr) + ",\"b\":[" + bj + "]}");
    gs[name] = d;
    bodies[name] = body;
    order.push_back(name);
  }
  std::string idxText(int i, std::string& js) {
    if (i > 0 && r.coin(15)) { auto e = mk("-", intLit(i + 1), intLit(1)); js = e->json(); return e->str(r); }
    js = intLit(i)->json();
    return std::to_string(i);
  }
  // one operand: a qubit, by index or as a register of size one
  std::string single(int q, std::string& js) {
    for (const auto& g : qr)
      if (q >= g.start && q < g.start + g.size) {
        if (g.size == 1 && r.coin(60)) { js = "{\"n\":" + jstr(g.name) + ",\"i\":[]}"; return g.name; }
        std::string ij;
        const auto t = idxText(q - g.start, ij);
        js = "{\"n\":" + jstr(g.name) + ",\"i\":" + ij + "}";
        return g.name + "[" + t + "]";
      }
    return "?";
  }
  // a gate call; empty if none could be found
  bool call(std::string& tx, std::string& js) {
    for (int tries = 0; tries < 20; ++tries) {
      const auto pk = pickGate(n, false);
      int used = 0;
      const auto m = mods(n - pk.q, used);
      const int k = pk.q + used;
      std::vector<ExP> ps;
      if (!params(pk.kinds, kinds, &ks, pk.g, ps)) continue;
      std::vector<std::string> ot(k), oj(k);
      bool done = false;
      if (k > 0 && r.coin(35)) { // broadcast
        std::vector<Reg> big;
        for (const auto& g : qr) if (g.size > 1) big.push_back(g);
        if (!big.empty()) {
          const int w = r.pick(big).size;
          std::vector<Reg> same;
          for (const auto& g : qr) if (g.size == w) same.push_back(g);
          r.shuffle(same);
          const int nreg = r.range(1, std::min<int>(k, static_cast<int>(same.size())));
          std::vector<int> rest;
          for (int q = 0; q < n; ++q) { bool in = false; for (int j = 0; j < nreg; ++j) in |= q >= same[j].start && q < same[j].start + w; if (!in) rest.push_back(q); }
          if (static_cast<int>(rest.size()) >= k - nreg) {
            r.shuffle(rest);
            auto pos = r.perm(k);
            for (int j = 0; j < k; ++j) {
              if (j < nreg) { ot[pos[j]] = same[j].name; oj[pos[j]] = "{\"n\":" + jstr(same[j].name) + ",\"i\":[]}"; }
              else ot[pos[j]] = single(rest[j - nreg], oj[pos[j]]);
            }
            done = true;
          }
        }
      }
      if (!done) {
        const auto q = r.perm(n);
        for (int j = 0; j < k; ++j) ot[j] = single(q[j], oj[j]);
      }
      tx = modText(m) + pk.g + argText(ps);
      for (int j = 0; j < k; ++j) tx += (j > 0 ? (r.coin(60) ? ", " : ",") : " ") + ot[j];
      tx += ";";
      js = "{\"k\":\"call\",\"g\":" + jstr(pk.g) + ",\"mods\":" + modJson(m) + ",\"ps\":" + jarr(ps, [](const ExP& e) { return e->json(); }) + ",\"a\":[";
      for (int j = 0; j < k; ++j) js += (j > 0 ? "," : "") + oj[j];
      js += "]}";
      return true;
    }
    return false;
  }
  void qreg(const Reg& g) {
    const bool scalar = ver == 3 && g.size == 1 && r.coin(50);
    ExP z = intLit(g.size);
    if (ver == 3 && r.coin(20)) z = r.coin(50) ? mk("+", intLit(g.size - 1), intLit(1)) : mk("*", intLit(g.size), intLit(1));
    if (ver == 2 || r.coin(15)) text += "qreg " + g.name + "[" + z->str(r) + "];" + nl();
    else text += scalar ? "qubit " + g.name + ";" + nl() : "qubit[" + z->str(r) + "] " + g.name + ";" + nl();
    st.push_back("{\"k\":\"qreg\",\"n\":" + jstr(g.name) + ",\"z\":" + z->json() + "}");
    qr.push_back(g);
    n += g.size;
  }
  void creg(const Reg& g) {
    const bool scalar = ver == 3 && g.size == 1 && r.coin(50);
    if (ver == 2 || r.coin(15)) text += "creg " + g.name + "[" + std::to_string(g.size) + "];" + nl();
    else text += scalar ? "bit " + g.name + ";" + nl() : "bit[" + std::to_string(g.size) + "] " + g.name + ";" + nl();
    st.push_back("{\"k\":\"creg\",\"n\":" + jstr(g.name) + ",\"z\":" + intLit(g.size)->json() + "}");
    cr.push_back(g);
    nb += g.size;
  }
  void constant(const std::string& name) {
    Gen gen{r, ver, kinds};
    for (int tries = 0; tries < 40; ++tries) {
      const int k = r.below(2);
      auto e = k == 1 ? gen.ang(r.below(3)) : gen.num(r.below(3));
      Val v;
      try { v = e->eval(ks); } catch (const Bad&) { continue; }
      if (v.k != k && v.n != 0) continue;
      text += "const " + r.pick(std::vector<std::string>{"float", "float[64]"}) + " " + name + " = " + e->str(r) + ";" + nl();
      st.push_back("{\"k\":\"const\",\"n\":" + jstr(name) + ",\"x\":" + e->json() + "}");
      ks[name] = v;
      kinds[name] = k;
      return;
    }
  }
  bool measure(int i) {
    std::string q, b, qj, bj;
    std::vector<std::pair<Reg, Reg>> whole;
    for (const auto& a : qr) for (const auto& c : cr) if (a.size == c.size) whole.emplace_back(a, c);
    if (!whole.empty() && r.coin(50)) {
      const auto& [a, c] = r.pick(whole);
      q = a.name; b = c.name;
      qj = "{\"n\":" + jstr(q) + ",\"i\":[]}";
      bj = "{\"n\":" + jstr(b) + ",\"i\":[]}";
    } else {
      q = single(r.below(n), qj);
      const auto& c = r.pick(cr);
      const int k = r.below(c.size);
      std::string ij;
      b = c.name + "[" + idxText(k, ij) + "]";
      bj = "{\"n\":" + jstr(c.name) + ",\"i\":" + ij + "}";
    }
    if (ver == 2 || r.coin(25)) text += "measure " + q + " -> " + b + ";" + nl();
    else text += b + " = measure " + q + ";" + nl();
    st.push_back("{\"k\":\"measure\",\"q\":" + qj + ",\"b\":" + bj + "}");
    return true;
  }
  void conditional() {
    const auto& c = r.pick(cr);
    std::string ct, cj;
    const auto cond = [&](const std::string& o, const std::string& ij, long v, bool sw) {
      cj = "{\"n\":" + jstr(c.name) + ",\"i\":" + ij + ",\"o\":" + jstr(o) + ",\"v\":" + std::to_string(v) + ",\"sw\":" + (sw ? "true" : "false") + "}";
    };
    if (ver == 2) {
      const long v = r.below((1 << c.size) + 1);
      ct = c.name + (r.coin(70) ? " == " : "==") + std::to_string(v);
      cond("==", "[]", v, false);
    } else if (r.coin(45)) {
      const int i = r.below(c.size);
      std::string ij;
      const auto t = c.name + "[" + idxText(i, ij) + "]";
      const int k = r.below(4);
      if (k == 0) { ct = t; cond("is", ij, 0, false); }
      else if (k == 1) { ct = "!" + t; cond("not", ij, 0, false); }
      else { const long v = r.below(2); const auto o = r.pick(std::vector<std::string>{"==", "!="}); ct = t + " " + o + " " + (k == 2 ? std::to_string(v) : v == 1 ? "true" : "false"); cond(o, ij, v, false); }
    } else {
      const long v = r.below((1 << c.size) + 1);
      const auto o = r.pick(std::vector<std::string>{"==", "!=", "<", "<=", ">", ">="});
      const bool sw = r.coin(25);
      ct = sw ? std::to_string(v) + " " + o + " " + c.name : c.name + " " + o + " " + std::to_string(v);
      cond(o, "[]", v, sw);
    }
    const auto block = [&](int k, std::string& bt, std::string& bj) {
      for (int i = 0; i < k; ++i) {
        std::string a, b;
        if (!call(a, b)) continue;
        bt += a + nl();
        bj += (bj.empty() ? "" : ",") + b;
      }
    };
    std::string tt, tj, ft, fj;
    if (ver == 2) {
      block(1, tt, tj);
      if (tt.empty()) return;
      text += "if (" + ct + ") " + tt;
    } else {
      const int k = r.pick(std::vector<int>{1, 1, 2, 3});
      block(k, tt, tj);
      if (tt.empty()) return;
      text += "if (" + ct + ")" + (k == 1 && r.coin(50) ? " " + tt : " {" + nl() + tt + "}" + nl());
      if (r.coin(40)) {
        const int l = r.range(1, 2);
        block(l, ft, fj);
        if (!ft.empty()) text += "else" + (l == 1 && r.coin(50) ? " " + ft : " {" + nl() + ft + "}" + nl());
      }
    }
    st.push_back("{\"k\":\"if\",\"c\":" + cj + ",\"t\":[" + tj + "],\"f\":[" + fj + "]}");
  }
  void reset() {
    std::string t, j;
    if (r.coin(40)) { const auto& g = r.pick(qr); t = g.name; j = "{\"n\":" + jstr(t) + ",\"i\":[]}"; } else t = single(r.below(n), j);
    text += "reset " + t + ";" + nl();
    st.push_back("{\"k\":\"reset\",\"a\":" + j + "}");
  }
  void barrier() {
    std::string t, j;
    const auto p = r.perm(n);
    for (int i = r.range(1, n); i > 0; --i) { std::string jj; const auto s = single(p[i - 1], jj); t += (t.empty() ? " " : ", ") + s; j += (j.empty() ? "" : ",") + jj; }
    text += "barrier" + t + ";" + nl();
    st.push_back("{\"k\":\"barrier\",\"a\":[]}");
  }
};
static void randomProgram(Prog& g, bool dyn, int nWant, int nbWant) {
  auto& r = g.r;
  auto names = idNames();
  r.shuffle(names);
  size_t k = 0;
  g.text += g.ver == 2 ? "OPENQASM 2.0;" + g.nl() + "include \"qelib1.inc\";" + g.nl() : r.pick(std::vector<std::string>{"OPENQASM 3.0;", "OPENQASM 3;", "OPENQASM 3.1;"}) + g.nl() + "include \"stdgates.inc\";" + g.nl();
  const auto qs = split(r, nWant, names, k), cs = split(r, nbWant, names, k);
  std::vector<std::string> decl; // a random order of the declarations that keeps the registers in order
  for (size_t i = 0; i < qs.size(); ++i) decl.emplace_back("q");
  for (size_t i = 0; i < cs.size(); ++i) decl.emplace_back("c");
  const int gates = r.pick(std::vector<int>{0, 1, 2, 3});
  for (int i = 0; i < gates; ++i) decl.emplace_back("g");
  if (g.ver == 3) for (int i = r.below(3); i > 0; --i) decl.emplace_back("k");
  r.shuffle(decl);
  size_t iq = 0, ic = 0;
  int ig = 0, ik = 0;
  const auto gn = r.coin(30) ? std::vector<std::string>{"foo", "cfoo", "ccfoo"} : std::vector<std::string>{"g0", "my_gate", "_G2"};
  const auto kn = std::vector<std::string>{"theta", "phi", "a", "kk"};
  for (const auto& d : decl) {
    if (d == "q") g.qreg(qs[iq++]);
    else if (d == "c") g.creg(cs[ic++]);
    else if (d == "g") g.defineGate(gn[ig++]);
    else { const auto& nm = kn[ik++]; bool clash = false; for (const auto& x : qs) clash |= x.name == nm; for (const auto& x : cs) clash |= x.name == nm; if (!clash) g.constant(nm); }
  }
  int meas = 0;
  for (int i = r.range(1, 6); i > 0; --i) {
    const int c = r.below(10);
    if (dyn && c < 2 && g.nb > 0 && meas < 2) { ++meas; g.measure(i); }
    else if (dyn && c == 2) g.reset();
    else if (c == 3) g.barrier();
    else if (dyn && c < 7 && g.nb > 0) g.conditional();
    else { std::string t, j; if (g.call(t, j)) { g.text += t + g.nl(); g.st.push_back(j); } }
  }
}
static std::string regJson(const std::map<std::string, std::pair<int, int>>& m) {
  return jarr(std::vector<std::pair<std::string, std::pair<int, int>>>(m.begin(), m.end()), [](const auto& x) { return "[" + jstr(x.first) + "," + std::to_string(x.second.first) + "," + std::to_string(x.second.second) + "]"; });
}
static void impCase(int id, Rng& r, Trace& t) {
  Prog g{r, id % 3 == 0 ? 2 : 3};
  const bool dyn = r.coin(50);
  const int n = r.pick(std::vector<int>{1, 2, 3, 3, dyn ? 3 : 4}), nb = dyn ? r.range(1, 3) : r.below(3);
  randomProgram(g, dyn, n, nb);
  std::vector<int> lay, outp;
  if (r.coin(20)) {
    lay = r.perm(n);
    std::string h = "// i";
    for (const auto x : lay) h += " " + std::to_string(x);
    g.text = h + "\n" + g.text;
  }
  if (!dyn && r.coin(20)) {
    outp = r.perm(n);
    std::string h = r.coin(50) ? "//o" : "// o";
    h[h.size() - 1] = 'o';
    for (const auto x : outp) h += " " + std::to_string(x);
    g.text = h + "\n" + g.text;
  }
  const bool uni = !dyn && n <= 3;
  const std::string desc = "import OpenQASM " + std::to_string(g.ver);
  if (uni) t.caseId(n, nb, desc); else t.caseBasis(n, nb, 0, desc);
  t.note(g.text);
  t.flush();
  qc::QuantumComputation p;
  try {
    p = qasm3::Importer::imports(g.text);
  } catch (const std::exception& e) {
    t.flag(false, std::string("program is rejected: ") + e.what());
    return;
  }
  t.raw("{\"e\":\"qbegin\",\"v\":" + std::to_string(g.ver) + "}");
  if (!uni) {
    // the machine starts in an entangled state with random classical bits
    prefix(r, t, n, std::min(nb, 2));
  }
  for (const auto& s : g.st) t.raw("{\"e\":\"st\",\"st\":" + s + "}");
  t.raw("{\"e\":\"regs\",\"nq\":" + std::to_string(p.getNqubits()) + ",\"nb\":" + std::to_string(p.getNcbits()) + ",\"qr\":" + regJson(regsOf(p.getQuantumRegisters())) + ",\"cr\":" + regJson(regsOf(p.getClassicalRegisters())) + "}");
  if (!lay.empty()) for (int i = 0; i < n; ++i) t.flag(static_cast<int>(p.initialLayout.at(lay[i])) == i, "initial layout of the program");
  if (!outp.empty()) for (int i = 0; i < n; ++i) t.flag(static_cast<int>(p.outputPermutation.at(outp[i])) == i, "output permutation of the program");
  emitScript(t, 2, fromIR(p));
  emitPhase(t, 2, p.getGlobalPhase());
  if (!dyn) emitCmp(t, "eq", 6000);
  else emitCmp(t, "chan", 6000, ",\"ka\":" + jarr(iota(n)) + ",\"kb\":" + jarr(iota(n)));
}

// ---------------------------------------------------------------- C18
struct Outcome { std::string kind, what; }; // accepted, rejected, or how the importer failed
static Outcome importInChild(const std::string& text) {
  int fd[2];
  if (pipe(fd) != 0) std::abort();
  const auto pid = fork();
  if (pid == 0) {
    close(fd[0]);
    rlimit lim{0, 0};
    setrlimit(RLIMIT_CORE, &lim);
#ifndef __SANITIZE_ADDRESS__
    lim = {2UL << 30, 2UL << 30};
    setrlimit(RLIMIT_AS, &lim);
#endif
    lim = {8, 8};
    setrlimit(RLIMIT_CPU, &lim);
    std::string out;
    try {
      const auto q = qasm3::Importer::imports(text);
      out = "accepted ";
    } catch (const qasm3::CompilerError& e) { out = std::string("rejected ") + e.what(); }
    catch (const qasm3::ConstEvalError& e) { out = std::string("rejected ") + e.what(); }
    catch (const qasm3::TypeCheckError& e) { out = std::string("rejected ") + e.what(); }
    catch (const std::bad_alloc& e) { out = "memory "; }
    // what the standard library throws about the importer's own data is no diagnosis
    catch (const std::out_of_range& e) { out = std::string("internal ") + e.what(); }
    catch (const std::length_error& e) { out = std::string("internal ") + e.what(); }
    catch (const std::invalid_argument& e) { out = std::string(std::string(e.what()).size() < 12 ? "internal " : "rejected ") + e.what(); }
    catch (const std::runtime_error& e) { out = std::string("rejected ") + e.what(); }
    catch (const std::exception& e) { out = std::string("internal ") + e.what(); }
    catch (...) { out = "internal unknown exception"; }
    if (write(fd[1], out.data(), std::min<size_t>(out.size(), 2000)) < 0) _exit(3);
    _exit(0);
  }
  close(fd[1]);
  std::string got;
  char b[4096];
  for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) got.append(b, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return {WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "hang" : "crash", "signal " + std::to_string(WTERMSIG(st))};
  const auto sp = got.find(' ');
  if (sp == std::string::npos) return {"crash", "the importer ended the program"};
  return {got.substr(0, sp), got.substr(sp + 1)};
}
struct Wild { // statements that may or may not be fine
  Prog& g;
  Rng& r;
  std::vector<std::string> names() {
    std::vector<std::string> v;
    for (const auto& x : g.qr) v.push_back(x.name);
    for (const auto& x : g.cr) v.push_back(x.name);
    for (const auto& [k, x] : g.ks) v.push_back(k);
    v.emplace_back("nothing");
    return v;
  }
  // mostly a register of the wanted sort
  std::string name(bool quantum) {
    if (r.coin(8)) return r.pick(names());
    const auto& v = quantum ? g.qr : g.cr;
    return v.empty() ? "nothing" : r.pick(v).name;
  }
  int sizeOf(const std::string& n) {
    for (const auto* v : {&g.qr, &g.cr}) for (const auto& x : *v) if (x.name == n) return x.size;
    return 1;
  }
  std::pair<std::string, std::string> operand(const std::string& n, int whole = 30) {
    if (r.coin(whole)) return {n, "{\"n\":" + jstr(n) + ",\"i\":[]}"};
    ExP e;
    const int s = sizeOf(n), k = r.below(20);
    if (k == 0) e = intLit(s);
    else if (k == 1) e = mk("neg", intLit(1));
    else if (k == 2) { e = mk("n"); e->v = {0, 1, 2}; e->text = "0.5"; }
    else if (k == 3) e = mk("-", intLit(s + 1), intLit(r.range(0, s + 2)));
    else if (k == 4) e = intLit(s + r.range(0, 70));
    else e = intLit(r.below(s));
    return {n + "[" + e->str(r) + "]", "{\"n\":" + jstr(n) + ",\"i\":" + e->json() + "}"};
  }
  ExP expr(const std::vector<std::string>& vars) {
    const int k = r.below(25);
    if (k == 0) return mk("/", mk("pi"), intLit(0));
    if (k == 1) return mk("/", intLit(2), intLit(0));
    if (k == 2) { auto e = mk("v"); e->text = "nothing"; return e; }
    if (k == 3) { auto e = mk("f", intLit(1)); e->text = "foo"; return e; }
    if (k < 8 && !vars.empty()) { auto e = mk("v"); e->text = r.pick(vars); return e; }
    if (k < 12) return mk("/", mk("pi"), intLit(r.range(1, 4)));
    if (k < 15) return mk(r.pick(std::vector<std::string>{"+", "-", "*"}), expr(vars), intLit(r.range(1, 3)));
    if (k < 17) return mk("neg", expr(vars));
    return r.coin(50) ? mk("pi") : intLit(r.range(1, 9));
  }
  std::string gateName(int& q, int& p) {
    const int k = r.below(20);
    q = r.range(1, 3);
    p = r.below(2);
    if (k == 0) return r.pick(std::vector<std::string>{"nogate", "foo_", "rx_", "xx", "cq", "ccc"});
    if (k < 8 && !g.order.empty()) { const auto& d = g.gs.at(r.pick(g.order)); q = static_cast<int>(d.qs.size()); p = static_cast<int>(d.ps.size()); return d.name; }
    for (;;) {
      const auto& s = r.pick(stdGates());
      if (s.ver != 0 && s.ver != g.ver) continue;
      q = s.q; p = s.p;
      return s.name;
    }
  }
  // a call whose operands are all drawn at random; op yields an operand
  template <class Op> void anyCall(const std::vector<std::string>& vars, Op op, std::string& tx, std::string& js) {
    int q = 0, p = 0;
    const auto gn = gateName(q, p);
    std::vector<std::pair<std::string, ExP>> m;
    if (g.ver == 3)
      while (r.coin(25)) {
        const int k = r.below(12);
        if (k < 4) m.emplace_back("inv", nullptr);
        else if (k < 10) { const int c = r.pick(std::vector<int>{1, 1, 1, 2, 2, 3}); m.emplace_back(r.coin(50) ? "ctrl" : "negctrl", c == 1 && r.coin(50) ? nullptr : intLit(c)); q += c; }
        else if (k == 10) m.emplace_back("ctrl", mk("neg", intLit(1)));
        else m.emplace_back("pow", intLit(2));
      }
    if (r.coin(12)) q = std::max(0, q + r.pick(std::vector<int>{-1, 1}));
    if (r.coin(8)) p = std::max(0, p + r.pick(std::vector<int>{-1, 1}));
    std::vector<ExP> ps;
    for (int i = 0; i < p; ++i) ps.push_back(expr(vars));
    std::vector<std::pair<std::string, std::string>> o;
    for (int i = 0; i < q; ++i) o.push_back(op(i));
    tx = g.modText(m) + gn + g.argText(ps);
    for (size_t j = 0; j < o.size(); ++j) tx += (j > 0 ? ", " : " ") + o[j].first;
    tx += ";";
    js = "{\"k\":\"call\",\"g\":" + jstr(gn) + ",\"mods\":" + Prog::modJson(m) + ",\"ps\":" + jarr(ps, [](const ExP& e) { return e->json(); }) + ",\"a\":" + jarr(o, [](const auto& x) { return x.second; }) + "}";
  }
  std::vector<std::string> constNames() { std::vector<std::string> v; for (const auto& [k, x] : g.ks) v.push_back(k); return v; }
  void call(std::string& tx, std::string& js) {
    // distinct qubits most of the time
    std::vector<std::pair<std::string, int>> all;
    for (const auto& x : g.qr) for (int i = 0; i < x.size; ++i) all.emplace_back(x.name, i);
    r.shuffle(all);
    const int style = r.below(10);
    anyCall(constNames(), [&](int i) -> std::pair<std::string, std::string> {
      if (style < 6 && i < static_cast<int>(all.size()) && !r.coin(4)) return {all[i].first + "[" + std::to_string(all[i].second) + "]", "{\"n\":" + jstr(all[i].first) + ",\"i\":" + intLit(all[i].second)->json() + "}"};
      return operand(name(true), style < 8 ? 70 : 30);
    }, tx, js);
  }
  void cond(std::string& tx, std::string& js) {
    const auto n = name(false);
    auto [t, j] = operand(n, g.ver == 2 ? 100 : 60);
    const bool bit = t != n;
    const long v = bit ? r.below(2) : r.below(5);
    const auto o = g.ver == 2 ? "==" : bit ? r.pick(std::vector<std::string>{"==", "!="}) : r.pick(std::vector<std::string>{"==", "!=", "<", ">="});
    tx = t + " " + o + " " + std::to_string(v);
    js = j.substr(0, j.size() - 1) + ",\"o\":" + jstr(o) + ",\"v\":" + std::to_string(v) + ",\"sw\":false}";
  }
  void statement() {
    std::string tx, js;
    const int k = r.below(14);
    if (k < 5) call(tx, js);
    else if (k == 5) {
      const auto q = operand(name(true)), b = operand(name(false));
      tx = g.ver == 2 || r.coin(25) ? "measure " + q.first + " -> " + b.first + ";" : b.first + " = measure " + q.first + ";";
      js = "{\"k\":\"measure\",\"q\":" + q.second + ",\"b\":" + b.second + "}";
    } else if (k == 6) {
      const auto q = operand(name(true));
      tx = "reset " + q.first + ";";
      js = "{\"k\":\"reset\",\"a\":" + q.second + "}";
    } else if (k == 7) {
      const auto q = operand(name(true));
      tx = "barrier " + q.first + ";";
      js = "{\"k\":\"barrier\",\"a\":[" + q.second + "]}";
    } else if (k < 10) {
      std::string c, cj, b, bj, f, fj;
      cond(c, cj);
      call(b, bj);
      tx = "if (" + c + ") " + b;
      if (g.ver == 3 && r.coin(30)) { call(f, fj); tx += " else { " + f + " }"; }
      js = "{\"k\":\"if\",\"c\":" + cj + ",\"t\":[" + bj + "],\"f\":[" + fj + "]}";
    } else if (k < 12) {
      const auto n = r.coin(35) ? r.pick(names()) : "fresh" + std::to_string(r.below(3));
      const bool q = r.coin(50);
      const int s = r.pick(std::vector<int>{1, 1, 2, 2, 3, 0, -1});
      auto e = s < 0 ? mk("neg", intLit(1)) : intLit(s);
      if (g.ver == 2) { e = intLit(std::max(0, s)); tx = (q ? "qreg " : "creg ") + n + "[" + e->str(r) + "];"; }
      else tx = (q ? "qubit[" : "bit[") + e->str(r) + "] " + n + ";";
      js = std::string("{\"k\":\"") + (q ? "qreg" : "creg") + "\",\"n\":" + jstr(n) + ",\"z\":" + e->json() + "}";
      if (s > 0) (q ? g.qr : g.cr).push_back({n, 0, s}); // only names matter from here on
    } else if (k == 12 && g.ver == 3) {
      const auto n = r.coin(35) ? r.pick(names()) : "konst" + std::to_string(r.below(3));
      auto e = expr(constNames());
      const auto tj = e->json();
      if (tj.find(",0,1]]") != std::string::npos) return; // the value may be infinite, which only matters where it is used
      tx = "const float " + n + " = " + e->str(r) + ";";
      js = "{\"k\":\"const\",\"n\":" + jstr(n) + ",\"x\":" + tj + "}";
      g.ks[n] = {0, 1, 1};
    } else {
      GateDef d;
      d.name = r.coin(40) && !g.order.empty() ? r.pick(g.order) : "made" + std::to_string(r.below(3));
      const int nq = r.range(1, 3);
      for (int i = 0; i < nq; ++i) d.qs.push_back(r.coin(5) ? "u0" : "u" + std::to_string(i));
      for (int i = r.below(3); i > 0; --i) d.ps.push_back(r.coin(5) ? "p1" : "p" + std::to_string(i));
      auto vars = constNames();
      vars.insert(vars.end(), d.ps.begin(), d.ps.end());
      std::string bt;
      std::string bj;
      for (int i = r.below(3); i > 0; --i) {
        auto ops = d.qs;
        r.shuffle(ops);
        std::string t, j;
        anyCall(vars, [&](int a) -> std::pair<std::string, std::string> {
          const auto x = a < static_cast<int>(ops.size()) && !r.coin(5) ? ops[a] : r.coin(70) ? r.pick(ops) : name(true);
          return {x, "{\"n\":" + jstr(x) + ",\"i\":[]}"};
        }, t, j);
        bt += " " + t;
        bj += (bj.empty() ? "" : ",") + j;
      }
      tx = "gate " + d.name;
      if (!d.ps.empty()) { tx += "("; for (size_t i = 0; i < d.ps.size(); ++i) tx += (i > 0 ? "," : "") + d.ps[i]; tx += ")"; }
      for (size_t i = 0; i < d.qs.size(); ++i) tx += (i > 0 ? ", " : " ") + d.qs[i];
      tx += " {" + bt + " }";
      js = "{\"k\":\"gate\",\"n\":" + jstr(d.name) + ",\"ps\":" + jarr(d.ps, jstr) + ",\"qs\":" + jarr(d.qs, jstr) + ",\"b\":[" + bj + "]}";
      d.kinds.assign(d.ps.size(), 1);
      if (g.gs.find(d.name) == g.gs.end()) { g.gs[d.name] = d; g.order.push_back(d.name); }
    }
    g.text += tx + "\n";
    g.st.push_back(js);
  }
};
static void badCase(int id, Rng& r, Trace& t) {
  Prog g{r, id % 3 == 0 ? 2 : 3};
  randomProgram(g, r.coin(70), r.range(1, 4), r.range(0, 3));
  const int what = id % 4;
  if (what < 2) {
    Wild w{g, r};
    const int k = r.range(1, 3);
    for (int i = 0; i < k; ++i) w.statement();
    t.caseBasis(1, 0, 0, "well-formedness OpenQASM " + std::to_string(g.ver));
    t.note(g.text);
    t.flush();
    const auto o = importInChild(g.text);
    t.flag(o.kind == "accepted" || o.kind == "rejected", "the importer failed: " + o.kind + " " + o.what);
    t.raw("{\"e\":\"qbegin\",\"v\":" + std::to_string(g.ver) + "}");
    for (const auto& s : g.st) t.raw("{\"e\":\"wf\",\"st\":" + s + "}");
    t.raw(std::string("{\"e\":\"verdict\",\"accepted\":") + (o.kind == "accepted" ? "true" : "false") + ",\"what\":" + jstr(o.what) + "}");
    return;
  }
  t.caseBasis(1, 0, 0, "malformed text OpenQASM " + std::to_string(g.ver));
  bool mustReject = false;
  std::string s = g.text;
  if (what == 2) { // lexical and syntactic errors
    mustReject = true;
    std::string q0 = g.qr.front().name + "[0]";
    const int k = r.below(12);
    if (k == 0) s += "/* never closed";
    else if (k == 1) s += "include \"stdgates.inc";
    else if (k == 2) s += "x " + q0;
    else if (k == 3) s += "gate unfinished a { x a;";
    else if (k == 4) s += std::string(1, r.pick(std::vector<char>{'?', '`', '\\', '\x01', '\x7f'})) + "\n";
    else if (k == 5) s += "rx(" + r.pick(std::vector<std::string>{"1.2.3", "0x", "0b2", "1e", "1e+", "0b", "0o8", "99999999999999999999999", "1.5e", "0xG", "2..5", "1e400"}) + ") " + q0 + ";";
    else if (k == 6) s += r.pick(std::vector<std::string>{"rx(1", "rx(1,", "rx 1)", "rx((1)", "rx(1))", "rx(+)", "rx(1 2)", "rx(1 +)", "rx(* 2)"}) + " " + q0 + ";";
    else if (k == 7) s += r.pick(std::vector<std::string>{"}", ")", "]", "barrier " + q0 + "; else x " + q0 + ";", "if () x " + q0 + ";", "if x " + q0 + ";", "measure;", "-> " + q0 + ";", "gate;", "gate a;", "gate a {}", "qubit;", "qreg a;x", "bit[] c9;", "const float k9;", "ctrl x " + q0 + ";", "@ x " + q0 + ";", "inv x " + q0 + ";", "include;", "include stdgates;", "OPENQASM 3.0;", "= measure " + q0 + ";", "[0] x;", "x " + g.qr.front().name + "[;", "x " + g.qr.front().name + "[0;", "x " + g.qr.front().name + "[0]];", "x " + g.qr.front().name + "[0] " + q0 + ";", "x ," + q0 + ";", "opaque nope a;", "barrier", "reset;", "1;", "\"text\";", "float;", "const = 3;"});
    else if (k == 8) s = "// i 0 0\n" + s;
    else if (k == 9) s = "// o 0 0\n" + s;
    else if (k == 10) { std::string l = "// i"; for (int i = 0; i <= g.n; ++i) l += " " + std::to_string(i); s = l + "\n" + s; }
    else s += "include \"no_such_file.inc\";";
  } else {
    const auto cut = [&](int& a, int& b) { // a random token
      a = r.below(static_cast<int>(s.size()));
      const auto word = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) != 0 || c == '_' || c == '.'; };
      b = a + 1;
      if (word(s[a])) { while (a > 0 && word(s[a - 1])) --a; while (b < static_cast<int>(s.size()) && word(s[b])) ++b; }
    };
    static const std::vector<std::string> TOK = {"(", ")", "[", "]", "{", "}", ";", ",", "=", "==", "!=", "->", "@", "-", "+", "*", "/", "^", "%", "!", "~", "&&", "||", "<<", ">>", "<", ">=", "$0", "$3", "\"", "//", "/*", "*/", "0", "1", "7", "-1", "1.5", "1e5", "0x1F", "18446744073709551615", "pi", "tau", "true", "false", "measure", "reset", "barrier", "if", "else", "gate", "opaque", "qubit", "bit", "qreg", "creg", "const", "float", "int", "uint", "bool", "angle", "duration", "stretch", "ctrl", "negctrl", "inv", "pow", "gphase", "include", "OPENQASM", "sin", "sqrt", "x", "cx", "rx", "U", "CX", "def", "for", "while", "let", "input", "output", "return", "box", "delay", "#pragma", "@annotation", "cal", "array", "10ns", "2.5us", "// i 0\n", "// o 0\n", "\xcf\x80", "\xff", "\t", "**", "+=", "++", "::", ":", "."};
    const int k = r.range(1, 3);
    for (int i = 0; i < k && s.size() > 2; ++i) {
      int a = 0, b = 0;
      cut(a, b);
      const int m = r.below(7);
      if (m == 0) s.erase(a, b - a);
      else if (m == 1) s.insert(a, r.pick(TOK) + " ");
      else if (m == 2) s.replace(a, b - a, r.pick(TOK));
      else if (m == 3) { int c = 0, d = 0; cut(c, d); s.insert(a, s.substr(c, d - c) + (r.coin(50) ? " " : "")); }
      else if (m == 4) s.resize(a);
      else if (m == 5) s[a] = static_cast<char>(r.range(1, 255));
      else { const auto e = s.find(';', a); if (e != std::string::npos) { const auto st = s.substr(a, e - a + 1); int c = 0, d = 0; cut(c, d); s.insert(c, st); } }
    }
  }
  t.note(s);
  t.flush();
  const auto o = importInChild(s);
  t.flag(o.kind == "rejected" || ((o.kind == "accepted" || o.kind == "memory") && !mustReject), "the importer should have reported an error: " + o.kind + " " + o.what);
}
int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  const std::map<std::string, std::function<void(int, Rng&, Trace&)>> M = {{"exp", expCase}, {"imp", impCase}, {"bad", badCase}};
  return runCases(a, M.at(a.mode));
}
