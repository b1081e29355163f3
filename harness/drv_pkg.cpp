// C06 canon, C07 alg, C08 gc, C09 ser: random histories of operations on one
// (or two) DD packages; every result is reported densely.
#include "common.hpp"
#include "dd/Export.hpp"
#include "dd/GateMatrixDefinitions.hpp"
#include "dd/Operations.hpp"
#include "dd/Package.hpp"
#include <unordered_map>
using namespace vf;
using C = std::complex<double>;
using Vec = std::vector<C>;

struct H {
  int id; bool mat; int n;
  dd::vEdge v{}; dd::mEdge m{};
  int hold = 0;
  Vec x; // dense
};
static const long TOL = 800;

struct World {
  Rng& r; Trace& t; std::string mode;
  dd::DDPackageConfig cfg;
  std::unique_ptr<dd::Package> p, p2;
  std::vector<H> hs;
  int next = 1, N;
  World(Rng& rr, Trace& tt, const std::string& md) : r(rr), t(tt), mode(md) {
    N = r.range(1, 3);
    churning = mode == "gc" && r.coin(40);
    vectorsOnly = churning && r.coin(50);
    if (vectorsOnly) N = r.range(2, 5);
    const auto bk = [&]() -> size_t { return r.coin(50) ? 1U << r.range(0, 4) : 256U; };
    cfg.utVecNumBucket = bk(); cfg.utMatNumBucket = bk(); cfg.utVecInitialAllocationSize = 1U << r.range(1, 6);
    cfg.utMatInitialAllocationSize = 1U << r.range(1, 6);
    cfg.ctVecAddNumBucket = bk(); cfg.ctMatAddNumBucket = bk(); cfg.ctVecAddMagNumBucket = bk(); cfg.ctMatAddMagNumBucket = bk();
    cfg.ctVecConjNumBucket = bk(); cfg.ctMatConjTransNumBucket = bk(); cfg.ctMatVecMultNumBucket = bk(); cfg.ctMatMatMultNumBucket = bk();
    cfg.ctVecKronNumBucket = bk(); cfg.ctMatKronNumBucket = bk(); cfg.ctMatTraceNumBucket = bk(); cfg.ctVecInnerProdNumBucket = bk();
    p = std::make_unique<dd::Package>(N, cfg);
    base = p->cUniqueTable.getStats().numEntries;
    half = dd::RealNumber::getAlignedPointer(p->cUniqueTable.lookup(0.5));
    half0 = half->ref;
  }
  size_t base = 0; // immortal numbers of a fresh package
  const dd::RealNumber* half = nullptr; // ... of which 1/2 is known to be one
  size_t half0 = 0;
  static size_t dim(int n) { return size_t{1} << n; }
  static Vec dense(const dd::vEdge& e, int n) {
    if (e.isTerminal()) return Vec(dim(n), 0);
    return e.getVector();
  }
  static Vec dense(const dd::mEdge& e, int n) {
    const auto m = e.getMatrix(n);
    Vec x(dim(2 * n));
    for (size_t i = 0; i < dim(n); ++i) for (size_t j = 0; j < dim(n); ++j) x[i + dim(n) * j] = m[i][j];
    return x;
  }
  Vec denseOf(const H& h) { return h.mat ? dense(h.m, h.n) : dense(h.v, h.n); }
  static bool inRange(const Vec& x, bool mat, int n) {
    const size_t d = dim(n);
    if (!mat) { double s = 0; for (auto& z : x) s += std::norm(z); return s < 6; }
    for (size_t i = 0; i < d; ++i) {
      double a = 0, b = 0;
      for (size_t j = 0; j < d; ++j) { a += std::norm(x[i + d * j]); b += std::norm(x[j + d * i]); }
      if (a > 6 || b > 6) return false;
    }
    return true;
  }
  bool readout(const H& h) {
    bool ok = true;
    if (!h.mat) {
      if (h.v.isTerminal()) return true;
      const auto sp = h.v.getSparseVector();
      dd::CVec acc(dim(h.n), 0.);
      h.v.addToVector(acc);
      for (size_t i = 0; i < h.x.size(); ++i) {
        const auto it = sp.find(i);
        const C s = it == sp.end() ? C(0) : it->second;
        ok = ok && std::abs(h.v.getValueByIndex(i) - h.x[i]) < 1e-9 && std::abs(s - h.x[i]) < 1e-9 && std::abs(acc[i] - h.x[i]) < 1e-9;
      }
    } else {
      const auto sp = h.m.getSparseMatrix(h.n);
      for (size_t i = 0; i < dim(h.n); ++i) for (size_t j = 0; j < dim(h.n); ++j) {
        const auto it = sp.find({i, j});
        const C s = it == sp.end() ? C(0) : it->second;
        const auto z = h.x[i + dim(h.n) * j];
        ok = ok && std::abs(h.m.getValueByIndex(h.n, i, j) - z) < 1e-9 && std::abs(s - z) < 1e-9;
      }
    }
    return ok;
  }
  // registers a result; ev is the event up to (excluding) "h"/"d"
  H* put(const std::string& ev, H h, int hold = 0, long tol = TOL) {
    h.x = denseOf(h);
    h.id = next++;
    h.hold = hold;
    if (!inRange(h.x, h.mat, h.n)) { while (h.hold > 0) { --h.hold; dec(h); } return nullptr; }
    t.raw(ev + ",\"h\":" + std::to_string(h.id) + ",\"tol\":" + std::to_string(tol) + ",\"d\":" + jvec(h.x) + "}");
    if (mode == "alg") t.flag(readout(h), "element-wise and sparse read-outs agree with the dense one");
    if (h.hold == 0 && (mode == "gc" ? r.coin(65) : r.coin(30))) { inc(h); h.hold = 1; }
    if (mode == "canon") same(h);
    hs.push_back(h);
    return &hs.back();
  }
  void inc(const H& h) { if (h.mat) p->incRef(h.m); else p->incRef(h.v); }
  void dec(const H& h) { if (h.mat) p->decRef(h.m); else p->decRef(h.v); }
  void same(const H& h) {
    std::string eq = "[", ne = "[";
    for (const auto& o : hs) {
      if (o.mat != h.mat || o.n != h.n) continue;
      const bool e = h.mat ? h.m == o.m : h.v == o.v;
      auto& s = e ? eq : ne;
      if (s.size() > 1) s += ',';
      s += std::to_string(o.id);
    }
    if (eq.size() + ne.size() > 2)
      t.raw("{\"e\":\"same\",\"h\":" + std::to_string(h.id) + ",\"eq\":" + eq + "],\"ne\":" + ne + "]}");
  }
  H V(dd::vEdge e, int n) { H h{}; h.mat = false; h.n = n; h.v = e; return h; }
  H M(dd::mEdge e, int n) { H h{}; h.mat = true; h.n = n; h.m = e; return h; }
  static std::string ev(const std::string& f, std::initializer_list<int> a, const std::string& extra = "") {
    return "{\"e\":\"dd\",\"f\":\"" + f + "\",\"a\":" + jarr(std::vector<int>(a)) + extra;
  }
  std::vector<int> pickIdx(bool mat, int n) {
    std::vector<int> v;
    for (size_t i = 0; i < hs.size(); ++i) if (hs[i].mat == mat && (n < 0 || hs[i].n == n)) v.push_back(static_cast<int>(i));
    return v;
  }
  void scalar(const std::string& f, std::initializer_list<int> a, C z, const std::string& extra = "", long tol = TOL) {
    if (std::abs(z) > 6) return;
    t.raw("{\"e\":\"sc\",\"f\":\"" + f + "\",\"a\":" + jarr(std::vector<int>(a)) + ",\"re\":" + std::to_string(fix(z.real())) + ",\"im\":" +
          std::to_string(fix(z.imag())) + extra + ",\"tol\":" + std::to_string(tol) + "}");
  }
  double ang() { return r.coin(70) ? r.pick(niceAngles()) : (r.unit() * 2 - 1) * 6.0; }
  SOp gateOp(int n) {
    GenOpts o; o.n = n; o.maxCtrl = 2; o.gphase = false;
    if (plain) { o.names = {"x", "z", "h", "y"}; if (n > 1) o.names.insert(o.names.end(), {"swap", "dcx", "peres"}); }
    SOp s = randomGate(r, o);
    for (auto& x : s.p) x = ang();
    return s;
  }
  static std::string jop(const SOp& o) {
    return "{\"g\":" + jstr(o.g) + ",\"t\":" + jarr(o.t) + ",\"c\":" +
           jarr(o.c, [](const auto& x) { return "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }) + ",\"p\":" + jarr(o.p, jparam) + "}";
  }
  // --------------------------------------------------------------- steps
  bool churning = false, vectorsOnly = false;
  int forced = -1;     // churn: the only kind of step
  bool plain = false;  // ... on operands without any number of their own
  void newVec() {
    const int n = plain ? (forced == 6 ? r.range(1, std::max(1, N - 1)) : N) : r.coin(75) ? N : r.range(1, N);
    const int k = plain ? r.below(4) : r.below(8);
    Vec x(dim(n), 0);
    dd::vEdge e;
    if (k == 0) { x[0] = 1; e = p->makeZeroState(n); }
    else if (k == 1) {
      const size_t b = r.below(1 << n); x[b] = 1;
      std::vector<bool> bits(n); for (int i = 0; i < n; ++i) bits[i] = (b >> i) & 1;
      e = p->makeBasisState(n, bits);
    } else if (k == 2) {
      std::vector<dd::BasisStates> bs;
      x.assign(dim(n), 1);
      for (int q = 0; q < n; ++q) {
        const int s = r.below(6);
        bs.push_back(static_cast<dd::BasisStates>(s));
        const double h = std::sqrt(0.5);
        const C a[6][2] = {{1, 0}, {0, 1}, {h, h}, {h, -h}, {h, C(0, h)}, {h, C(0, -h)}};
        for (size_t i = 0; i < x.size(); ++i) x[i] *= a[s][(i >> q) & 1];
      }
      e = p->makeBasisState(n, bs);
    } else if (k == 3) { x[0] = x[dim(n) - 1] = std::sqrt(0.5); e = p->makeGHZState(n); }
    else if (k == 4) { for (int q = 0; q < n; ++q) x[1U << q] = 1 / std::sqrt(double(n)); e = p->makeWState(n); }
    else {
      double s = 0;
      const int style = r.below(3);
      for (auto& z : x) {
        if (style == 0) z = C(r.range(-1, 1), r.coin(30) ? r.range(-1, 1) : 0);
        else if (style == 1) z = r.coin(40) ? C(0) : std::polar(1., ang());
        else z = C(r.unit() - .5, r.unit() - .5);
        s += std::norm(z);
      }
      if (s == 0) { x[0] = 1; s = 1; }
      for (auto& z : x) z /= std::sqrt(s);
      e = p->makeStateFromVector(x);
    }
    put("{\"e\":\"new\",\"k\":\"v\",\"n\":" + std::to_string(n) + ",\"x\":" + jvec(x), V(e, n), 1);
  }
  void newMat() {
    const int n = plain ? (forced == 6 ? r.range(1, std::max(1, N - 1)) : N) : r.coin(75) ? N : r.range(1, N);
    if (!plain && r.coin(30)) {
      dd::CMat m(dim(n), dd::CVec(dim(n)));
      Vec x(dim(2 * n));
      const int style = r.below(4);
      for (size_t i = 0; i < dim(n); ++i) for (size_t j = 0; j < dim(n); ++j) {
        C z = style == 0 ? C(i == j) : style == 1 ? (r.coin(50) ? C(0) : C(r.range(-1, 1), r.range(-1, 1))) : style == 2 ? C(i == j ? r.range(0, 2) : 0) : C(r.unit() - .5, r.unit() - .5);
        if (style != 0) z *= 0.5;
        m[i][j] = z; x[i + dim(n) * j] = z;
      }
      put("{\"e\":\"new\",\"k\":\"m\",\"n\":" + std::to_string(n) + ",\"x\":" + jvec(x), M(p->makeDDFromMatrix(m), n));
      return;
    }
    if (!plain && r.coin(8)) {
      Vec x(dim(2 * n), 0); for (size_t i = 0; i < dim(n); ++i) x[i + dim(n) * i] = 1;
      put("{\"e\":\"new\",\"k\":\"m\",\"n\":" + std::to_string(n) + ",\"x\":" + jvec(x), M(dd::Package::makeIdent(), n));
      return;
    }
    std::vector<SOp> ops;
    const int k = r.range(1, 3);
    dd::mEdge e = dd::Package::makeIdent();
    for (int i = 0; i < k; ++i) {
      auto o = gateOp(n); ops.push_back(o);
      const auto g = dd::getDD(*makeOp(o), *p);
      e = i == 0 ? g : p->multiply(g, e);
    }
    put("{\"e\":\"gate\",\"n\":" + std::to_string(n) + ",\"ops\":" + jarr(ops, jop), M(e, n));
  }
  std::vector<bool> mask(int n, std::string& j, int pct = 45) {
    std::vector<bool> b(n); std::vector<int> v;
    for (int i = 0; i < n; ++i) { b[i] = r.coin(pct); v.push_back(b[i]); }
    j = ",\"el\":" + jarr(v);
    return b;
  }
  void step() {
    if (forced < 0 && (hs.empty() || (hs.size() < 4 && r.coin(50)))) { r.coin() ? newVec() : newMat(); return; }
    const int k = forced >= 0 ? forced : mode == "ser" ? r.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 16, 16, 16, 16, 17}) : r.below(plain ? 18 : 20);
    const int n = hs[r.below(static_cast<int>(hs.size()))].n;
    const auto vs = pickIdx(false, n), ms = pickIdx(true, n);
    switch (k) {
    case 0: newVec(); return;
    case 1: newMat(); return;
    case 2: { // add
      const bool mat = !vectorsOnly && r.coin();
      const auto& c = mat ? ms : vs;
      if (c.empty()) return;
      const H a = hs[r.pick(c)], b = hs[r.pick(c)];
      if (mat) put(ev("add", {a.id, b.id}), M(p->add(a.m, b.m), n)); else put(ev("add", {a.id, b.id}), V(p->add(a.v, b.v), n));
      return;
    }
    case 3: {
      if (ms.empty() || vs.empty()) return;
      const H a = hs[r.pick(ms)], b = hs[r.pick(vs)];
      if (b.v.isTerminal()) return;
      if (b.hold > 0 && r.coin(30)) { // consumes one reference of b
        H& bb = *std::find_if(hs.begin(), hs.end(), [&](const H& h) { return h.id == b.id; });
        --bb.hold;
        put(ev("mv", {a.id, b.id}), V(p->applyOperation(a.m, b.v), n), 1);
      } else put(ev("mv", {a.id, b.id}), V(p->multiply(a.m, b.v), n));
      return;
    }
    case 4: case 5: {
      if (ms.empty()) return;
      const H a = hs[r.pick(ms)], b = hs[r.pick(ms)];
      if (b.hold > 0 && r.coin(30)) {
        H& bb = *std::find_if(hs.begin(), hs.end(), [&](const H& h) { return h.id == b.id; });
        --bb.hold;
        const bool left = r.coin();
        put(left ? ev("mm", {a.id, b.id}) : ev("mm", {b.id, a.id}), M(p->applyOperation(a.m, b.m, left), n), 1);
      } else put(ev("mm", {a.id, b.id}), M(p->multiply(a.m, b.m), n));
      return;
    }
    case 6: case 7: { // kronecker
      const bool mat = !vectorsOnly && r.coin(60);
      const auto small = [&](int mx) { std::vector<int> v; for (size_t i = 0; i < hs.size(); ++i) if (hs[i].mat == mat && hs[i].n <= mx) v.push_back(static_cast<int>(i)); return v; };
      if (N < 2) return;
      auto c = small(N - 1);
      while (c.size() < 2) { // make some
        const int s = r.range(1, N - 1);
        if (mat) {
          const auto o = gateOp(s);
          if (!put("{\"e\":\"gate\",\"n\":" + std::to_string(s) + ",\"ops\":" + jarr(std::vector<SOp>{o}, jop), M(dd::getDD(*makeOp(o), *p), s))) return;
        } else {
          const size_t b = r.below(1 << s);
          Vec x(dim(s), 0); x[b] = 1;
          std::vector<bool> bits(s); for (int i = 0; i < s; ++i) bits[i] = (b >> i) & 1;
          put("{\"e\":\"new\",\"k\":\"v\",\"n\":" + std::to_string(s) + ",\"x\":" + jvec(x), V(p->makeBasisState(s, bits), s), 1);
        }
        c = small(N - 1);
      }
      const H b = hs[r.pick(c)];
      if (r.coin(25)) { // the first factor already sits above the second one
        const int ny = b.n;
        if (mat) {
          SOp o = gateOp(N - ny);
          for (auto& q : o.t) q += ny;
          for (auto& q : o.c) q.first += ny;
          const H* x = put("{\"e\":\"gate\",\"n\":" + std::to_string(N) + ",\"ops\":" + jarr(std::vector<SOp>{o}, jop), M(dd::getDD(*makeOp(o), *p), N));
          if (x == nullptr) return;
          const H xx = *x;
          const H* l = put(ev("lift", {b.id}, ",\"n\":" + std::to_string(N)), M(b.m, N));
          if (l == nullptr) return;
          put(ev("mm", {xx.id, l->id}), M(p->kronecker(xx.m, b.m, ny, false), N));
        } else if (!b.v.isTerminal()) {
          const auto z = p->makeZeroState(N - ny, ny);
          put(ev("vkronz", {b.id}, ",\"n\":" + std::to_string(N)), V(p->kronecker(z, b.v, ny, false), N));
          p->decRef(z);
        }
        return;
      }
      c = small(N - b.n);
      if (c.empty()) return;
      const H a = hs[r.pick(c)];
      if (mat) put(ev("mkron", {a.id, b.id}), M(p->kronecker(a.m, b.m, b.n), a.n + b.n));
      else put(ev("vkron", {a.id, b.id}), V(p->kronecker(a.v, b.v, b.n), a.n + b.n));
      return;
    }
    case 8: if (vs.empty()) return; else { const H a = hs[r.pick(vs)]; put(ev("conj", {a.id}), V(p->conjugate(a.v), n)); return; }
    case 9: if (ms.empty()) return; else { const H a = hs[r.pick(ms)]; put(ev("adj", {a.id}), M(p->conjugateTranspose(a.m), n)); return; }
    case 10: { // lift: the same edge on more qubits
      if (ms.empty() || n >= N) return;
      const H a = hs[r.pick(ms)];
      put(ev("lift", {a.id}, ",\"n\":" + std::to_string(N)), M(a.m, N));
      return;
    }
    case 11: { // partial trace
      if (ms.empty()) return;
      const H a = hs[r.pick(ms)];
      std::string j; auto el = mask(n, j);
      bool all = true; for (bool b : el) all = all && b;
      if (all) return;
      int kept = 0; for (bool b : el) kept += !b;
      put(ev("ptrace", {a.id}, j), M(p->partialTrace(a.m, el), kept));
      return;
    }
    case 12: { // ancillae
      if (ms.empty()) return;
      const H a = hs[r.pick(ms)];
      std::string j; auto el = mask(n, j);
      const bool reg = r.coin();
      p->incRef(a.m); // the reduction takes over a reference
      put(ev("anc", {a.id}, j + ",\"reg\":" + (reg ? "true" : "false")), M(p->reduceAncillae(a.m, el, reg), n), 1);
      return;
    }
    case 13: { // garbage
      const bool mat = r.coin();
      const auto& c = mat ? ms : vs;
      if (c.empty()) return;
      const H a = hs[r.pick(c)];
      std::string j; auto el = mask(n, j);
      const bool reg = r.coin(), mag = r.coin(25);
      j += std::string(",\"reg\":") + (reg ? "true" : "false") + ",\"mag\":" + (mag ? "true" : "false");
      if (mat) { p->incRef(a.m); put(ev("mgarb", {a.id}, j), M(p->reduceGarbage(a.m, el, reg, mag), n), 1, 3000); }
      else { p->incRef(a.v); auto e = a.v; put(ev("vgarb", {a.id}, j), V(p->reduceGarbage(e, el, mag), n), 1, 3000); }
      return;
    }
    case 14: case 15: { // scalars
      const int s = r.below(6);
      if (s == 0 && !vs.empty()) { const H a = hs[r.pick(vs)], b = hs[r.pick(vs)]; const auto z = p->innerProduct(a.v, b.v); scalar("inner", {a.id, b.id}, C(z.r, z.i)); }
      if (s == 1 && !vs.empty()) { const H a = hs[r.pick(vs)], b = hs[r.pick(vs)]; scalar("fid", {a.id, b.id}, p->fidelity(a.v, b.v), "", 4 * TOL); }
      if (s == 2 && !ms.empty()) { const H a = hs[r.pick(ms)]; const auto z = p->trace(a.m, n); scalar("trace", {a.id}, C(z.r, z.i)); }
      if (s == 3 && !ms.empty() && !vs.empty()) {
        const H a = hs[r.pick(ms)], b = hs[r.pick(vs)];
        bool herm = true;
        for (size_t i = 0; i < dim(n); ++i) for (size_t l = 0; l < dim(n); ++l) herm = herm && std::abs(a.x[i + dim(n) * l] - std::conj(a.x[l + dim(n) * i])) < 1e-10;
        if (herm && !a.m.isZeroTerminal() && !b.v.isTerminal()) scalar("exp", {a.id, b.id}, p->expectationValue(a.m, b.v), "", 4 * TOL);
      }
      if (s == 4 && !vs.empty()) {
        const H a = hs[r.pick(vs)];
        if (a.v.isTerminal()) return;
        dd::SparsePVec pr; Vec root(dim(n), 0); double tot = 0;
        std::vector<double> w(dim(n));
        for (auto& x : w) { x = r.coin(40) ? 0 : r.unit(); tot += x; }
        if (tot == 0) { w[0] = tot = 1; }
        std::vector<long> sq(dim(n)), mg(dim(n));
        const bool perm = r.coin(40);
        const auto f = perm ? r.perm(n) : std::vector<int>();
        qc::Permutation pm;
        for (size_t i = 0; i < f.size(); ++i) pm[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(f[i]);
        for (size_t i = 0; i < dim(n); ++i) {
          // index i of the state corresponds to outcome o
          size_t o = i;
          if (perm) { o = 0; for (int q = 0; q < n; ++q) o |= ((i >> q) & 1) << f[q]; }
          if (w[o] > 0) pr[o] = w[o] / tot;
          sq[i] = fix(std::sqrt(w[o] / tot)); mg[i] = fix(std::abs(a.x[i]));
        }
        scalar("fmo", {a.id}, p->fidelityOfMeasurementOutcomes(a.v, pr, pm), ",\"sq\":" + jarr(sq) + ",\"mg\":" + jarr(mg), 4 * TOL);
      }
      if (s == 5 && !vs.empty()) {
        const H a = hs[r.pick(vs)];
        if (a.v.isTerminal()) return;
        const int q = r.below(n), b = r.below(2);
        put(ev("del", {a.id}, ",\"q\":" + std::to_string(q) + ",\"b\":" + std::to_string(b)), V(p->deleteEdge(a.v, static_cast<dd::Qubit>(q), b), n));
      }
      return;
    }
    case 16: { // serialisation and transfer
      const H a = hs[r.below(static_cast<int>(hs.size()))];
      const bool bin = r.coin();
      if (mode != "ser" && r.coin(70)) return;
      std::stringstream ss;
      if (a.mat) dd::serialize(a.m, ss, bin); else dd::serialize(a.v, ss, bin);
      if (r.coin(50)) {
        if (a.mat) {
          const auto e = p->deserialize<dd::mNode>(ss, bin);
          t.flag(e == a.m, std::string(bin ? "binary" : "text") + " deserialisation into the same package gives the identical matrix edge");
          put(ev("same", {a.id}), M(e, a.n));
        } else {
          const auto e = p->deserialize<dd::vNode>(ss, bin);
          t.flag(e == a.v, std::string(bin ? "binary" : "text") + " deserialisation into the same package gives the identical vector edge");
          put(ev("same", {a.id}), V(e, a.n));
        }
      } else {
        if (!p2 || r.coin(20)) p2 = std::make_unique<dd::Package>(N, cfg);
        const bool tr = r.coin(35);
        H o = a;
        if (tr) { if (a.mat) o.m = p2->transfer(o.m); else o.v = p2->transfer(o.v); }
        else if (a.mat) o.m = p2->deserialize<dd::mNode>(ss, bin);
        else o.v = p2->deserialize<dd::vNode>(ss, bin);
        // observed once; the handle belongs to another package and is dropped at once
        const auto x = denseOf(o);
        if (!inRange(x, o.mat, o.n)) { t.flag(false, "the copy in another package represents a different function"); return; }
        t.raw(ev("same", {a.id}) + ",\"h\":" + std::to_string(next) + ",\"tol\":800,\"d\":" + jvec(x) + "}");
        t.raw("{\"e\":\"drop\",\"h\":" + std::to_string(next++) + "}");
        if (r.coin(30)) { // and back
          std::stringstream s2;
          const bool b2 = r.coin();
          if (a.mat) { dd::serialize(o.m, s2, b2); const auto e = p->deserialize<dd::mNode>(s2, b2); t.flag(e == a.m, "there and back: identical edge"); }
          else { dd::serialize(o.v, s2, b2); const auto e = p->deserialize<dd::vNode>(s2, b2); t.flag(e == a.v, "there and back: identical edge"); }
        }
      }
      return;
    }
    case 18: case 19: { // measurements that collapse the state consume the reference to it
      if (vs.empty()) return;
      H& h = hs[r.pick(vs)];
      if (h.v.isTerminal()) return;
      double nrm = 0;
      for (const auto& z : h.x) nrm += std::norm(z);
      if (std::abs(nrm - 1) > 1e-9) return;
      const bool all = r.coin(30), keep = all && r.coin(40);
      const int id = h.id, q = r.below(n);
      dd::vEdge e = h.v;
      std::mt19937_64 rng(static_cast<unsigned>(r.below(1 << 30)));
      if (keep) {
        const auto res = p->measureAll(e, false, rng);
        size_t i = 0;
        for (int b = 0; b < n; ++b) if (res.at(static_cast<size_t>(n - 1 - b)) == '1') i |= dim(b);
        t.flag(e == h.v && static_cast<int>(res.size()) == n && std::norm(h.x[i]) > 1e-12, "a measurement of all qubits leaves the state alone");
        return;
      }
      if (h.hold == 0) inc(h); else --h.hold;
      if (all) {
        const auto res = p->measureAll(e, true, rng);
        size_t i = 0;
        for (int b = 0; b < n; ++b) if (res.at(static_cast<size_t>(n - 1 - b)) == '1') i |= dim(b);
        t.flag(static_cast<int>(res.size()) == n && std::norm(h.x[i]) > 1e-12, "outcomes have a non-zero probability");
        Vec x(dim(n), 0);
        x[i] = 1;
        put("{\"e\":\"new\",\"k\":\"v\",\"n\":" + std::to_string(n) + ",\"x\":" + jvec(x), V(e, n), 1);
      } else {
        const char b = p->measureOneCollapsing(e, static_cast<dd::Qubit>(q), rng);
        put(ev("proj", {id}) + ",\"q\":" + std::to_string(q) + ",\"b\":" + (b == '1' ? "1" : "0"), V(e, n), 1);
      }
      return;
    }
    case 17: if (mode == "gc" || r.coin(mode == "alg" ? 25 : 40)) gc(); return;
    }
  }
  void refStep() { // reference games
    if (hs.empty()) return;
    auto& h = hs[r.below(static_cast<int>(hs.size()))];
    if (r.coin()) { inc(h); ++h.hold; }
    else if (h.hold > 0) { dec(h); --h.hold; }
  }
  void gc() {
    // handles without a reference of their own survive only if they are still reachable from a referenced one
    if (r.coin(50)) graph(false);
    p->garbageCollect(true);
    std::vector<H> keep;
    for (auto& h : hs) if (h.hold > 0) keep.push_back(h);
    hs = keep;
    std::string o;
    for (auto& h : hs) { h.x = denseOf(h); if (!o.empty()) o += ','; o += "[" + std::to_string(h.id) + "," + jvec(h.x) + "]"; }
    t.raw("{\"e\":\"gc\",\"obs\":[" + o + "]}");
    graph(true);
  }
  // the package forgets everything and starts afresh
  void reset() {
    const int k = r.below(3);
    if (k == 0) { p->clearUniqueTables(); p->resetMemoryManagers(true); p->clearComputeTables(); }
    else p->reset();
    hs.clear();
    if (r.coin(50)) p->resize(N + r.range(0, 2));
    // as in a new package, one half is held: a table with a single number is not worth collecting
    auto* h = p->cUniqueTable.lookup(0.5);
    p->cUniqueTable.incRef(h);
    base = 1; half = h; half0 = h->ref;
    t.raw("{\"e\":\"reset\"}");
    if (mode == "canon" || mode == "gc") graph(mode == "gc");
  }
  template <class E> void walk(const E& e, const char* kind, std::map<const void*, int>& ids, std::string& nodes, std::map<const dd::RealNumber*, int>& nums, std::set<const void*>& seen) {
    num(e.w, nums);
    if (e.isTerminal() || !seen.insert(e.p).second) return;
    std::string c, s;
    std::vector<std::string> cs, sg;
    for (const auto& x : e.p->e) {
      walk(x, kind, ids, nodes, nums, seen);
      const int ch = x.isTerminal() ? 0 : ids.at(x.p);
      const auto nr = num(x.w, nums);
      const auto z = static_cast<std::complex<double>>(x.w);
      cs.push_back("[" + std::to_string(ch) + "," + std::to_string(fix(z.real())) + "," + std::to_string(fix(z.imag())) + "," + std::to_string(nr.first) + "," + std::to_string(nr.second) + "]");
      sg.push_back("[" + std::to_string(ch) + "," + std::to_string(sid(x.w.r)) + "," + std::to_string(sid(x.w.i)) + "]");
    }
    const int id = static_cast<int>(ids.size()) + 1;
    ids[e.p] = id;
    if (!nodes.empty()) nodes += ',';
    const auto join = [](const std::vector<std::string>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += v[i]; } return r + "]"; };
    nodes += "{\"id\":" + std::to_string(id) + ",\"k\":\"" + kind + "\",\"v\":" + std::to_string(e.p->v) + ",\"ref\":" + std::to_string(e.p->ref) + ",\"c\":" + join(cs) + ",\"s\":" + join(sg) + "}";
  }
  std::map<const dd::RealNumber*, int> sids; // signed pointer -> id
  int sid(const dd::RealNumber* x) { return sids.emplace(x, static_cast<int>(sids.size()) + 1).first->second; }
  static bool counted(const dd::RealNumber* x) {
    const auto* a = dd::RealNumber::getAlignedPointer(x);
    return a != nullptr && a != &dd::constants::zero && a != &dd::constants::one && a != &dd::constants::sqrt2over2 && a->ref != std::numeric_limits<dd::RefCount>::max();
  }
  static std::pair<int, int> num(const dd::Complex& w, std::map<const dd::RealNumber*, int>& nums) {
    const auto f = [&](const dd::RealNumber* x) { return counted(x) ? nums.emplace(dd::RealNumber::getAlignedPointer(x), static_cast<int>(nums.size()) + 1).first->second : 0; };
    const int a = f(w.r), b = f(w.i);
    return {a, b};
  }
  void graph(bool swept) {
    std::map<const void*, int> ids; std::string nodes, roots, ns;
    std::map<const dd::RealNumber*, int> nums;
    std::set<const void*> seen;
    sids.clear();
    for (const auto& h : hs) {
      if (h.mat) walk(h.m, "m", ids, nodes, nums, seen); else walk(h.v, "v", ids, nodes, nums, seen);
      const auto w = h.mat ? num(h.m.w, nums) : num(h.v.w, nums);
      const bool term = h.mat ? h.m.isTerminal() : h.v.isTerminal();
      const int id = term ? 0 : ids.at(h.mat ? static_cast<const void*>(h.m.p) : h.v.p);
      const auto sz = h.mat ? h.m.size() : h.v.size();
      if (!roots.empty()) roots += ',';
      roots += "{\"id\":" + std::to_string(id) + ",\"w\":[" + std::to_string(w.first) + "," + std::to_string(w.second) + "],\"hold\":" + std::to_string(h.hold) + ",\"sz\":" + std::to_string(sz) + "}";
    }
    for (const auto& [x, id] : nums) { if (!ns.empty()) ns += ','; ns += "[" + std::to_string(id) + "," + std::to_string(x->ref - (x == half ? half0 : 0)) + "]"; }
    size_t nent = p->cUniqueTable.getStats().numEntries;
    t.raw("{\"e\":\"graph\"" + std::string(mode == "canon" ? ",\"canon\":1" : ",\"refs\":1") + ",\"swept\":" + (swept ? "true" : "false") + ",\"nodes\":[" + nodes + "],\"roots\":[" + roots + "],\"nums\":[" + ns +
          "],\"vact\":" + std::to_string(p->vUniqueTable.getNumActiveEntries()) + ",\"mact\":" + std::to_string(p->mUniqueTable.getNumActiveEntries()) +
          ",\"vent\":" + std::to_string(p->vUniqueTable.getNumEntries()) + ",\"ment\":" + std::to_string(p->mUniqueTable.getNumEntries()) + ",\"nent\":" + std::to_string(nent) + ",\"base\":" + std::to_string(base) + "}");
  }
  // the same kind of operation over and over, on operands that come and go
  void churn() {
    plain = true;
    if (N == 1 && r.coin(70)) forced = r.pick(std::vector<int>{2, 3, 4, 8, 9, 14});
    else if (vectorsOnly) forced = r.pick(std::vector<int>{2, 6, 6, 8, 14});
    else forced = r.pick(std::vector<int>{2, 3, 4, 6, 6, 8, 9, 11, 12, 13, 14});
    const int rounds = vectorsOnly ? r.range(6, 16) : r.range(5, 9);
    for (int i = 0; i < rounds; ++i) {
      for (int j = r.range(1, 2); j > 0; --j) { newVec(); if (!vectorsOnly) newMat(); else newVec(); }
      if (!hs.empty()) for (int j = r.range(1, 3); j > 0; --j) step();
      for (auto& h : hs) if (r.coin(85)) while (h.hold > 0) { dec(h); --h.hold; }
      gc();
      if (r.coin(8)) reset();
    }
    forced = -1;
    plain = false;
  }
  void run() {
    t.raw("{\"e\":\"pkg\",\"n\":" + std::to_string(N) + ",\"desc\":\"package of " + std::to_string(N) + " qubits, mode " + mode + "\"}");
    if (churning) churn();
    const int len = churning ? 0 : r.range(8, mode == "gc" ? 26 : 18);
    for (int i = 0; i < len; ++i) {
      if (mode == "gc" && r.coin(25)) refStep();
      if (mode != "ser" && r.coin(3)) reset();
      step();
      while (hs.size() > 14) { // forget an old one
        auto& h = hs[r.below(5)];
        while (h.hold > 0) { dec(h); --h.hold; }
        t.raw("{\"e\":\"drop\",\"h\":" + std::to_string(h.id) + "}");
        hs.erase(hs.begin() + (&h - hs.data()));
      }
    }
    if (mode == "canon") graph(false);
    if (mode == "gc") {
      gc();
      for (auto& h : hs) while (h.hold > 0) { dec(h); --h.hold; }
      p->garbageCollect(true);
      hs.clear();
      t.raw("{\"e\":\"gc\",\"obs\":[]}");
      graph(true);
    }
  }
};

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  return runCases(a, [&](int i, Rng& r, Trace& t) { World w(r, t, a.mode); w.run(); });
}
