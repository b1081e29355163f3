// Programs of the mqtopt dialect before and after its passes (C28).
// modes: cancel, sink, mix (random pipelines), rt (round trip), fmt (printing and parsing)
#include "common.hpp"

#include <csignal>
#include <fcntl.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <mlir/Dialect/Arith/IR/Arith.h>
#include <mlir/Dialect/ControlFlow/IR/ControlFlow.h>
#include <mlir/Dialect/ControlFlow/IR/ControlFlowOps.h>
#include <mlir/Dialect/Func/IR/FuncOps.h>
#include <mlir/IR/BuiltinOps.h>
#include <mlir/IR/MLIRContext.h>
#include <mlir/IR/Verifier.h>
#include <mlir/Parser/Parser.h>
#include <mlir/Pass/PassManager.h>
#include <mlir/Pass/PassRegistry.h>
#include <mlir/Transforms/Passes.h>
#include <poll.h>
#include <sys/wait.h>

#include "ir/QuantumComputation.hpp"
#include "mlir/Dialect/MQTOpt/IR/MQTOptDialect.h"
#include "mlir/Dialect/MQTOpt/Transforms/Passes.h"

using namespace vf;
namespace {
constexpr long TOL = 20000;
const std::string QT = "!mqtopt.Qubit";
const std::string RT = "!mqtopt.QubitRegister";

// ------------------------------------------------------------- generation
// the program as text and, independently of any parser, as the specification sees it
struct Gen {
  Rng& r;
  int n;
  int ids = 0, params = 0, nb = 0, budget, measures;
  std::vector<int> cur;                // the current value of each wire
  std::vector<int> wires;              // the wires that may be used
  std::vector<int> bits;               // classical values visible here
  std::string head, body;              // text: constants of the entry block, the rest
  std::vector<std::string> jb;         // JSON of the finished blocks
  std::vector<int> args;               // the block being written
  std::string ops, headOps;
  int lastGate = 0;
  bool chatty = false;
  std::vector<std::string> names;

  Gen(Rng& rr, int nq, int len, int meas) : r(rr), n(nq), budget(len), measures(meas) {}
  int fresh() { return ids++; }
  static std::string v(int id) { return "%v" + std::to_string(id); }
  static std::string vs(const std::vector<int>& x) {
    std::string s;
    for (size_t i = 0; i < x.size(); ++i) s += (i ? ", " : "") + v(x[i]);
    return s;
  }
  void line(const std::string& s) { body += "    " + s + "\n"; }
  void op(const std::string& j) { ops += (ops.empty() ? "" : ",") + j; }
  std::string param(double a) { // a constant in the entry block
    const std::string p = "%p" + std::to_string(params++);
    char b[64];
    std::snprintf(b, sizeof b, "%.17e", a);
    head += "    " + p + " = arith.constant " + b + " : f64\n";
    return p;
  }
  static std::string num(double a) {
    char b[64];
    std::snprintf(b, sizeof b, "%.17e", a);
    return b;
  }
  static std::string mlirName(const std::string& g) { return g == "gphase" ? "GPhase" : g == "i" ? "I" : g == "h" ? "H" : g; }

  void gate(const std::string& g, const std::vector<int>& t, const std::vector<std::pair<int, int>>& c, const std::vector<double>& p) {
    std::vector<int> in, pos, neg, all, out;
    for (const int w : t) in.push_back(w);
    for (const auto& x : c) (x.second ? pos : neg).push_back(x.first);
    all = in;
    all.insert(all.end(), pos.begin(), pos.end());
    all.insert(all.end(), neg.begin(), neg.end());
    const auto val = [&](const std::vector<int>& ws) { std::vector<int> o; for (const int w : ws) o.push_back(cur[w]); return o; };
    // parameters: static ones, dynamic ones, or a mixture told apart by a mask
    std::string ps;
    if (!p.empty()) {
      std::string dyn, sta, mask;
      const int how = p.size() == 1 ? r.below(2) : r.below(3);
      for (size_t i = 0; i < p.size(); ++i) {
        const bool st = how == 0 || (how == 2 && (i == 0 ? true : i == 1 ? false : r.below(2) == 0));
        if (st) sta += (sta.empty() ? "" : ", ") + num(p[i]);
        else dyn += (dyn.empty() ? "" : ", ") + param(p[i]);
        mask += std::string(mask.empty() ? "" : ", ") + (st ? "true" : "false");
      }
      ps = dyn;
      if (!sta.empty()) ps += (ps.empty() ? "" : " ") + ("static [" + sta + "]");
      if (how == 2) ps += " mask [" + mask + "]";
    }
    for (size_t i = 0; i < all.size(); ++i) out.push_back(fresh());
    std::string j = "{\"g\":" + jstr(g) + ",\"i\":" + jarr(val(in)) + ",\"c\":[";
    bool first = true;
    for (const int w : pos) { j += std::string(first ? "" : ",") + "[" + std::to_string(cur[w]) + ",1]"; first = false; }
    for (const int w : neg) { j += std::string(first ? "" : ",") + "[" + std::to_string(cur[w]) + ",0]"; first = false; }
    j += "],\"p\":" + jarr(p, jparam) + ",\"r\":" + jarr(out) + "}";
    op(j);
    std::string s = out.empty() ? "" : vs(out) + " = ";
    s += "mqtopt." + mlirName(g) + "(" + ps + ")" + (in.empty() ? "" : " " + vs(val(in))) + (pos.empty() ? "" : " ctrl " + vs(val(pos))) + (neg.empty() ? "" : " nctrl " + vs(val(neg)));
    s += " : ";
    for (size_t i = 0; i < all.size(); ++i) s += (i ? ", " : "") + QT;
    line(s);
    for (size_t i = 0; i < all.size(); ++i) cur[all[i]] = out[i];
  }
  static std::string inverse(const std::string& g) {
    static const std::vector<std::pair<std::string, std::string>> P = {{"s", "sdg"}, {"t", "tdg"}, {"sx", "sxdg"}, {"v", "vdg"}, {"iswap", "iswapdg"}, {"peres", "peresdg"}};
    for (const auto& x : P) { if (x.first == g) return x.second; if (x.second == g) return x.first; }
    return g;
  }
  void someGate() {
    static const std::vector<std::string> PAIRS = {"x", "y", "z", "h", "i", "s", "sdg", "t", "tdg", "sx", "sxdg", "v", "vdg", "swap", "iswap", "iswapdg", "peres", "peresdg", "ecr", "dcx"};
    std::string g;
    for (;;) {
      g = !names.empty() ? r.pick(names) : r.below(3) ? r.pick(PAIRS) : gates()[r.below(static_cast<int>(gates().size()))].name;
      if (g == "xx_minus_yy" || g == "xx_plus_yy") continue;
      if (vf::gate(g).targets <= static_cast<int>(wires.size())) break;
    }
    const auto& gi = vf::gate(g);
    std::vector<int> qs = wires;
    const int n = static_cast<int>(wires.size());
    r.shuffle(qs);
    std::vector<int> t(qs.begin(), qs.begin() + gi.targets);
    std::vector<std::pair<int, int>> c;
    int k = n - gi.targets;
    if (k > 0 && r.below(100) < (n > 1 && r.below(2) ? 60 : 25)) {
      k = 1 + r.below(k);
      for (int i = 0; i < k; ++i) c.emplace_back(qs[gi.targets + i], r.below(3) != 0);
    }
    if (g == "gphase" && c.empty() && n > 0 && r.below(2)) c.emplace_back(qs[0], 1);
    std::vector<double> p;
    for (int i = 0; i < gi.params; ++i) p.push_back(angle(r));
    if (r.below(20) == 0) { // a barrier
      std::vector<int> b(qs.begin(), qs.begin() + 1 + r.below(n));
      gate("barrier", b, {}, {});
      return;
    }
    gate(g, t, c, p);
    // often followed by something that looks like its inverse
    if (r.below(100) < 45) {
      if (r.below(5) == 0) r.shuffle(t);
      if (r.below(5) == 0) r.shuffle(c);
      if (r.below(6) == 0 && !c.empty()) c[0].second ^= 1;
      if (r.below(6) == 0 && !c.empty() && !t.empty()) std::swap(t[0], c[0].first);
      if (r.below(8) == 0 && !c.empty()) c.pop_back();
      if (gi.targets == 0 && c.empty()) c.clear();
      const std::string h = r.below(6) == 0 ? g : inverse(g);
      gate(h, t, c, p);
      if (r.below(4) == 0) gate(g, t, c, p);
    }
  }
  void measure(const std::vector<int>& ws) {
    std::vector<int> in, out, bs;
    for (const int w : ws) in.push_back(cur[w]);
    for (size_t i = 0; i < ws.size(); ++i) out.push_back(fresh());
    for (size_t i = 0; i < ws.size(); ++i) bs.push_back(fresh());
    auto all = out;
    all.insert(all.end(), bs.begin(), bs.end());
    op("{\"g\":\"measure\",\"i\":" + jarr(in) + ",\"r\":" + jarr(all) + "}");
    std::string ti, to;
    for (size_t i = 0; i < ws.size(); ++i) { ti += (i ? ", " : "") + QT; to += (i ? ", " : "") + QT; }
    for (size_t i = 0; i < ws.size(); ++i) to += ", i1";
    line(vs(all) + " = \"mqtopt.measure\"(" + vs(in) + ") : (" + ti + ") -> (" + to + ")");
    for (size_t i = 0; i < ws.size(); ++i) { cur[ws[i]] = out[i]; bits.push_back(bs[i]); }
    measures -= static_cast<int>(ws.size());
  }
  void endBlock(const std::string& term) {
    jb.push_back("{\"args\":" + jarr(args) + ",\"ops\":[" + ops + "],\"t\":" + term + "}");
    args.clear();
    ops.clear();
  }
  // an edge: wires passed as arguments and classical values passed along
  struct Edge { std::vector<int> ws, bs; };
  static std::string types(const Edge& e) {
    std::string s;
    for (size_t i = 0; i < e.ws.size(); ++i) s += (s.empty() ? "" : ", ") + QT;
    for (size_t i = 0; i < e.bs.size(); ++i) s += (s.empty() ? "" : ", ") + std::string("i1");
    return s;
  }
  std::vector<int> values(const Edge& e) {
    std::vector<int> a;
    for (const int w : e.ws) a.push_back(cur[w]);
    a.insert(a.end(), e.bs.begin(), e.bs.end());
    return a;
  }
  std::string target(int b, const Edge& e, const std::vector<int>& a) {
    return "^b" + std::to_string(b) + (a.empty() ? "" : "(" + vs(a) + " : " + types(e) + ")");
  }
  // begins a block whose arguments are the wires and bits of the edge
  std::vector<int> open(int b, const Edge& e) {
    std::string s;
    std::vector<int> got;
    for (size_t i = 0; i < e.ws.size() + e.bs.size(); ++i) {
      const int id = fresh();
      args.push_back(id);
      const bool q = i < e.ws.size();
      s += (s.empty() ? "" : ", ") + v(id) + " : " + (q ? QT : "i1");
      if (q) cur[e.ws[i]] = id; else { bits.push_back(id); got.push_back(id); }
    }
    body += "  ^b" + std::to_string(b) + (s.empty() ? "" : "(" + s + ")") + ":\n";
    return got;
  }
  Edge edge(const std::set<int>& must, bool allowBits = true) {
    Edge e;
    for (int w = 0; w < n; ++w)
      if (must.count(w) || (std::find(wires.begin(), wires.end(), w) != wires.end() && r.below(2))) e.ws.push_back(w);
    r.shuffle(e.ws);
    if (allowBits && !bits.empty() && r.below(4) == 0) e.bs.push_back(r.pick(bits));
    return e;
  }
  // the blocks are numbered as they are opened; JSON wants them by number
  std::map<int, std::string> done;
  int blockNo = 1;
  void close(int b, const std::string& term) {
    endBlock(term);
    done[b] = jb.back();
  }
  int newBlock() { return ++nb; }

  void statements(int depth, int len) {
    for (int i = 0; i < len && budget > 0; ++i) {
      const int m = r.below(100);
      if (m < 12 && measures > 0) {
        std::vector<int> ws = {r.pick(wires)};
        if (wires.size() > 1 && measures > 1 && r.below(4) == 0) { ws = {wires[0], wires[1]}; r.shuffle(ws); }
        measure(ws);
        --budget;
      } else if (m < 35 && depth < 2 && nb < 9) {
        branch(depth);
      } else if (m < 40 && depth < 1 && nb < 9 && measures > 0) {
        loop(depth);
      } else if (m < 45 && nb < 10) { // an unconditional branch
        const Edge e = edge({});
        const int b = newBlock();
        const auto a = values(e);
        line("cf.br " + target(b, e, a));
        close(blockNo, "{\"k\":\"br\",\"d\":" + std::to_string(b) + ",\"a\":" + jarr(a) + "}");
        blockNo = b;
        open(b, e);
      } else {
        someGate();
        --budget;
      }
    }
  }
  int condition() {
    if (!bits.empty() && r.below(6)) return r.pick(bits);
    if (measures > 0) { measure({r.pick(wires)}); return bits.back(); }
    if (!bits.empty()) return r.pick(bits);
    const int id = fresh(); // a constant
    const bool val = r.below(2);
    op("{\"g\":\"const\",\"r\":[" + std::to_string(id) + "],\"v\":" + (val ? "1" : "0") + "}");
    line(v(id) + " = arith.constant " + (val ? "true" : "false"));
    return id;
  }
  void branch(int depth) {
    const int c = condition();
    if (r.below(3) == 0) someGate();
    const bool hasElse = r.below(3) != 0;
    const Edge et = edge({}), ee = edge({});
    const int bt = newBlock(), be = hasElse ? newBlock() : 0, bc = newBlock();
    const auto at = values(et), ae = values(ee);
    const auto outer = cur;
    const auto outerBits = bits;
    // both branches are generated before the arguments of their join are known
    const std::string before = body;
    body.clear();
    const auto savedArgs = args;
    const auto savedOps = ops;
    const int here = blockNo;
    args.clear(); ops.clear();
    // then
    blockNo = bt;
    open(bt, et);
    statements(depth + 1, r.below(4));
    const auto curT = cur;
    const std::string bodyT = body;
    const auto argsT = args; const auto opsT = ops; const int endT = blockNo;
    body.clear(); args.clear(); ops.clear();
    cur = outer; bits = outerBits;
    std::vector<int> curE = outer;
    std::string bodyE; std::vector<int> argsE; std::string opsE; int endE = 0;
    if (hasElse) {
      blockNo = be;
      open(be, ee);
      statements(depth + 1, r.below(4));
      curE = cur;
      bodyE = body; argsE = args; opsE = ops; endE = blockNo;
      body.clear(); args.clear(); ops.clear();
      cur = outer; bits = outerBits;
    }
    std::set<int> must;
    for (int w = 0; w < n; ++w) if (curT[w] != outer[w] || curE[w] != outer[w]) must.insert(w);
    Edge ec = edge(must, false);
    if (!outerBits.empty() && r.below(4) == 0) ec.bs.push_back(r.pick(outerBits));
    body = before;
    // the branch itself
    args = savedArgs; ops = savedOps;
    std::vector<int> ac;
    cur = outer;
    if (!hasElse) ac = values(ec);
    const std::string tt = target(bt, et, at), te = hasElse ? target(be, ee, ae) : target(bc, ec, ac);
    const bool flip = r.below(2); // which successor is the block
    line("cf.cond_br " + v(c) + ", " + (flip ? te : tt) + ", " + (flip ? tt : te));
    const std::string d1 = std::to_string(bt), d2 = std::to_string(hasElse ? be : bc);
    const std::string a1 = jarr(at), a2 = jarr(hasElse ? ae : ac);
    close(here, "{\"k\":\"cond\",\"c\":" + std::to_string(c) + ",\"d\":" + (flip ? d2 : d1) + ",\"a\":" + (flip ? a2 : a1) + ",\"d2\":" + (flip ? d1 : d2) + ",\"a2\":" + (flip ? a1 : a2) + "}");
    const auto finish = [&](const std::vector<int>& cu, const std::string& bo, const std::vector<int>& ar, const std::string& oo, int no) {
      cur = cu; args = ar; ops = oo;
      const auto a = values(ec);
      body += bo;
      line("cf.br " + target(bc, ec, a));
      close(no, "{\"k\":\"br\",\"d\":" + std::to_string(bc) + ",\"a\":" + jarr(a) + "}");
    };
    finish(curT, bodyT, argsT, opsT, endT);
    if (hasElse) finish(curE, bodyE, argsE, opsE, endE);
    cur = outer; bits = outerBits;
    blockNo = bc;
    open(bc, ec);
  }
  void loop(int depth) { // repeat until a measurement says so
    // the body leaves the wires alone that are not passed
    Edge e;
    std::vector<int> all(n);
    for (int w = 0; w < n; ++w) all[w] = w;
    r.shuffle(all);
    const int k0 = r.below(2) ? n : 1 + r.below(n);
    e.ws.assign(all.begin(), all.begin() + k0);
    const auto outerWires = wires;
    {
      std::vector<int> keep;
      for (const int w : wires) if (std::find(e.ws.begin(), e.ws.end(), w) != e.ws.end()) keep.push_back(w);
      if (keep.empty()) { keep = wires; e.ws = all; }
      wires = keep;
    }
    const int bh = newBlock();
    const auto a = values(e);
    line("cf.br " + target(bh, e, a));
    close(blockNo, "{\"k\":\"br\",\"d\":" + std::to_string(bh) + ",\"a\":" + jarr(a) + "}");
    blockNo = bh;
    const auto outerBits = bits;
    open(bh, e);
    statements(depth + 1, 1 + r.below(3));
    std::vector<int> ws = {r.pick(wires)};
    measure(ws);
    const int c = bits.back();
    for (int k = r.below(3); k > 0; --k) someGate();
    wires = outerWires;
    const Edge ex = edge({});
    const auto back = values(e), out = values(ex);
    const int bx = newBlock();
    const bool flip = r.below(2);
    const std::string th = target(bh, e, back), tx = target(bx, ex, out);
    line("cf.cond_br " + v(c) + ", " + (flip ? th : tx) + ", " + (flip ? tx : th));
    const std::string dh = std::to_string(bh), dx = std::to_string(bx);
    close(blockNo, "{\"k\":\"cond\",\"c\":" + std::to_string(c) + ",\"d\":" + (flip ? dh : dx) + ",\"a\":" + jarr(flip ? back : out) + ",\"d2\":" + (flip ? dx : dh) + ",\"a2\":" + jarr(flip ? out : back) + "}");
    blockNo = bx;
    open(bx, ex);
  }

  std::string text, json;
  void allocate(int& reg) {
    reg = fresh();
    op("{\"g\":\"alloc\",\"size\":" + std::to_string(n) + ",\"r\":[" + std::to_string(reg) + "]}");
    line(v(reg) + " = \"mqtopt.allocQubitRegister\"() <{size_attr = " + std::to_string(n) + " : i64}> : () -> " + RT);
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) order[i] = i;
    if (r.below(3) == 0) r.shuffle(order);
    cur.assign(n, -1);
    wires.resize(n);
    for (int i = 0; i < n; ++i) wires[i] = i;
    for (const int w : order) {
      const int r2 = fresh(), q = fresh();
      op("{\"g\":\"extract\",\"i\":[" + std::to_string(reg) + "],\"x\":" + std::to_string(w) + ",\"r\":[" + std::to_string(r2) + "," + std::to_string(q) + "]}");
      line(v(r2) + ", " + v(q) + " = \"mqtopt.extractQubit\"(" + v(reg) + ") <{index_attr = " + std::to_string(w) + " : i64}> : (" + RT + ") -> (" + RT + ", " + QT + ")");
      reg = r2;
      cur[w] = q;
    }
  }
  std::string ret, rets;
  void finish(int blk, const std::vector<int>& vals, const std::string& ty) {
    line("return" + (vals.empty() ? "" : " " + vs(vals) + " : " + ty));
    close(blk, "{\"k\":\"ret\",\"a\":" + jarr(vals) + "}");
    text = "module {\n  func.func @main()" + (vals.empty() ? "" : " -> (" + ty + ")") + " {\n" + head + body + "  }\n}\n";
  }
  void program() {
    nb = 1;
    blockNo = 1;
    int reg = 0;
    allocate(reg);
    statements(0, 3 + r.below(6));
    const int how = r.below(4);
    std::vector<int> vals;
    std::string ty;
    const auto add = [&](int id, const std::string& t) { vals.push_back(id); ty += (ty.empty() ? "" : ", ") + t; };
    if (how < 2) { // give the qubits back
      std::vector<int> order(n);
      for (int i = 0; i < n; ++i) order[i] = i;
      if (r.below(2)) r.shuffle(order);
      for (const int w : order) {
        const int r2 = fresh();
        op("{\"g\":\"insert\",\"i\":[" + std::to_string(reg) + "," + std::to_string(cur[w]) + "],\"x\":" + std::to_string(w) + ",\"r\":[" + std::to_string(r2) + "]}");
        line(v(r2) + " = \"mqtopt.insertQubit\"(" + v(reg) + ", " + v(cur[w]) + ") <{index_attr = " + std::to_string(w) + " : i64}> : (" + RT + ", " + QT + ") -> " + RT);
        reg = r2;
      }
      if (how == 0) {
        op("{\"g\":\"dealloc\",\"i\":[" + std::to_string(reg) + "]}");
        line("\"mqtopt.deallocQubitRegister\"(" + v(reg) + ") : (" + RT + ") -> ()");
      } else add(reg, RT);
    } else if (how == 2) { // return them
      for (int w = 0; w < n; ++w) if (r.below(3)) add(cur[w], QT);
    }
    for (const int b : bits) if (r.below(2)) add(b, "i1");
    finish(blockNo, vals, ty);
  }
  // what the round trip supports: one register, X gates with controls, every qubit measured once, the results returned
  void roundTrip() {
    nb = 1;
    blockNo = 1;
    int reg = 0;
    allocate(reg);
    names = {"x"};
    std::vector<int> left(n), bitOf(n, -1);
    for (int i = 0; i < n; ++i) left[i] = i;
    r.shuffle(left);
    int len = r.below(7);
    while (len > 0 || !left.empty()) {
      if (len > 0 && r.below(3)) {
        std::vector<int> qs(n);
        for (int i = 0; i < n; ++i) qs[i] = i;
        r.shuffle(qs);
        std::vector<std::pair<int, int>> c;
        for (int k = r.below(n), i = 0; i < k; ++i) c.emplace_back(qs[1 + i], r.below(3) != 0);
        gate("x", {qs[0]}, c, {});
        --len;
      } else if (!left.empty() && (r.below(3) == 0 || len == 0)) {
        std::vector<int> ws = {left.back()};
        left.pop_back();
        if (!left.empty() && r.below(4) == 0) { ws.push_back(left.back()); left.pop_back(); }
        measure(ws);
        for (size_t i = 0; i < ws.size(); ++i) bitOf[ws[i]] = bits[bits.size() - ws.size() + i];
      } else if (len > 0) --len;
    }
    std::vector<int> vals = {reg};
    std::string ty = RT;
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) order[i] = i;
    if (r.below(3) == 0) r.shuffle(order);
    for (const int w : order) { vals.push_back(bitOf[w]); ty += ", i1"; }
    finish(blockNo, vals, ty);
  }
  std::string prog(int side, bool id) const {
    std::string s = "{\"e\":\"prog\",\"s\":" + std::to_string(side) + ",\"n\":" + std::to_string(n) + ",\"tol\":" + std::to_string(TOL) + (id ? ",\"init\":\"id\"" : ",\"init\":\"b\",\"b\":0") + ",\"blocks\":[";
    bool first = true;
    for (const auto& [k, j] : done) { s += (first ? "" : ",") + j; first = false; }
    return s + "]}";
  }
};

// ---------------------------------------------------------------- walking
std::string lower(std::string s) {
  for (auto& c : s) c = static_cast<char>(std::tolower(c));
  return s;
}
struct Walk {
  std::map<void*, int> ids;
  int id(mlir::Value v) {
    auto [it, fresh] = ids.emplace(v.getAsOpaquePointer(), static_cast<int>(ids.size()));
    return it->second;
  }
  template <class R> std::vector<int> all(const R& r) {
    std::vector<int> o;
    for (auto v : r) o.push_back(id(v));
    return o;
  }
  static long integer(mlir::Value v) {
    auto c = v.getDefiningOp<mlir::arith::ConstantOp>();
    if (!c) throw std::runtime_error("index is not a constant");
    return mlir::cast<mlir::IntegerAttr>(c.getValue()).getInt();
  }
  std::string op(mlir::Operation& o) {
    using namespace mqt::ir::opt;
    if (auto a = mlir::dyn_cast<AllocOp>(o))
      return "{\"g\":\"alloc\",\"size\":" + std::to_string(a.getSizeAttr() ? *a.getSizeAttr() : integer(a.getSize())) + ",\"r\":" + jarr(all(o.getResults())) + "}";
    if (auto a = mlir::dyn_cast<ExtractOp>(o))
      return "{\"g\":\"extract\",\"i\":[" + std::to_string(id(a.getInQureg())) + "],\"x\":" + std::to_string(a.getIndexAttr() ? *a.getIndexAttr() : integer(a.getIndex())) + ",\"r\":" + jarr(all(o.getResults())) + "}";
    if (auto a = mlir::dyn_cast<InsertOp>(o))
      return "{\"g\":\"insert\",\"i\":[" + std::to_string(id(a.getInQureg())) + "," + std::to_string(id(a.getInQubit())) + "],\"x\":" + std::to_string(a.getIndexAttr() ? *a.getIndexAttr() : integer(a.getIndex())) + ",\"r\":" + jarr(all(o.getResults())) + "}";
    if (mlir::isa<DeallocOp>(o)) return "{\"g\":\"dealloc\",\"i\":" + jarr(all(o.getOperands())) + "}";
    if (mlir::isa<MeasureOp>(o)) return "{\"g\":\"measure\",\"i\":" + jarr(all(o.getOperands())) + ",\"r\":" + jarr(all(o.getResults())) + "}";
    if (auto c = mlir::dyn_cast<mlir::arith::ConstantOp>(o)) {
      if (o.getResult(0).getType().isInteger(1))
        return "{\"g\":\"const\",\"r\":" + jarr(all(o.getResults())) + ",\"v\":" + (mlir::cast<mlir::IntegerAttr>(c.getValue()).getValue().isZero() ? "0" : "1") + "}";
      return "";
    }
    if (auto u = mlir::dyn_cast<UnitaryInterface>(o)) {
      std::string c = "[";
      bool first = true;
      for (auto v : u.getPosCtrlQubits()) { c += std::string(first ? "" : ",") + "[" + std::to_string(id(v)) + ",1]"; first = false; }
      for (auto v : u.getNegCtrlQubits()) { c += std::string(first ? "" : ",") + "[" + std::to_string(id(v)) + ",0]"; first = false; }
      c += "]";
      // parameters in order: the mask says which ones are static
      std::vector<double> sta, dyn, p;
      std::vector<bool> mask;
      if (auto a = o.getAttrOfType<mlir::DenseF64ArrayAttr>("static_params")) for (const double x : a.asArrayRef()) sta.push_back(x);
      if (auto a = o.getAttrOfType<mlir::DenseBoolArrayAttr>("params_mask")) for (const bool x : a.asArrayRef()) mask.push_back(x);
      for (auto v : o.getOperands()) if (v.getType().isF64()) {
        auto k = v.getDefiningOp<mlir::arith::ConstantOp>();
        if (!k) throw std::runtime_error("parameter is not a constant");
        dyn.push_back(mlir::cast<mlir::FloatAttr>(k.getValue()).getValueAsDouble());
      }
      if (mask.empty()) { p = sta; p.insert(p.end(), dyn.begin(), dyn.end()); }
      else {
        size_t i = 0, j = 0;
        for (const bool m : mask) p.push_back(m ? sta.at(i++) : dyn.at(j++));
      }
      return "{\"g\":" + jstr(lower(o.getName().stripDialect().str())) + ",\"i\":" + jarr(all(u.getInQubits())) + ",\"c\":" + c + ",\"p\":" + jarr(p, jparam) + ",\"r\":" + jarr(all(o.getResults())) + "}";
    }
    throw std::runtime_error("unknown operation " + o.getName().getStringRef().str());
  }
  std::string module(mlir::ModuleOp m, int n, bool isId) {
    mlir::func::FuncOp f;
    m.walk([&](mlir::func::FuncOp g) { f = g; });
    std::map<mlir::Block*, int> no;
    for (auto& b : f.getBody()) no.emplace(&b, static_cast<int>(no.size()) + 1);
    std::string s = "{\"e\":\"prog\",\"s\":2,\"n\":" + std::to_string(n) + ",\"tol\":" + std::to_string(TOL) + (isId ? ",\"init\":\"id\"" : ",\"init\":\"b\",\"b\":0") + ",\"blocks\":[";
    bool first = true;
    for (auto& b : f.getBody()) {
      s += std::string(first ? "" : ",") + "{\"args\":" + jarr(all(b.getArguments())) + ",\"ops\":[";
      first = false;
      bool f1 = true;
      for (auto& o : b.without_terminator()) {
        const auto j = op(o);
        if (j.empty()) continue;
        s += (f1 ? "" : ",") + j;
        f1 = false;
      }
      s += "],\"t\":";
      auto* t = b.getTerminator();
      if (auto br = mlir::dyn_cast<mlir::cf::BranchOp>(t)) s += "{\"k\":\"br\",\"d\":" + std::to_string(no[br.getDest()]) + ",\"a\":" + jarr(all(br.getDestOperands())) + "}";
      else if (auto cb = mlir::dyn_cast<mlir::cf::CondBranchOp>(t))
        s += "{\"k\":\"cond\",\"c\":" + std::to_string(id(cb.getCondition())) + ",\"d\":" + std::to_string(no[cb.getTrueDest()]) + ",\"a\":" + jarr(all(cb.getTrueDestOperands())) + ",\"d2\":" + std::to_string(no[cb.getFalseDest()]) + ",\"a2\":" + jarr(all(cb.getFalseDestOperands())) + "}";
      else s += "{\"k\":\"ret\",\"a\":" + jarr(all(t->getOperands())) + "}";
      s += "}";
    }
    return s + "]}";
  }
};

// runs in a process of its own: parse, run the passes, verify, walk
std::string transform(const std::string& text, const std::vector<std::string>& passes, int n, bool isId, bool reprint, bool generic) {
  int fd[2];
  if (pipe(fd) != 0) throw std::runtime_error("pipe");
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    alarm(20);
    const int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    std::string out;
    try {
      mlir::DialectRegistry reg;
      reg.insert<mqt::ir::opt::MQTOptDialect, mlir::func::FuncDialect, mlir::cf::ControlFlowDialect, mlir::arith::ArithDialect>();
      mlir::MLIRContext ctx(reg, mlir::MLIRContext::Threading::DISABLED);
      ctx.loadAllAvailableDialects();
      std::string err;
      mlir::ScopedDiagnosticHandler h(&ctx, [&](mlir::Diagnostic& d) { err += d.str() + "; "; return mlir::success(); });
      auto mod = mlir::parseSourceString<mlir::ModuleOp>(text, &ctx);
      if (!mod) out = "!parse " + err;
      else {
        mlir::PassManager pm(&ctx);
        for (const auto& p : passes) {
          if (p == "canonicalize") pm.addPass(mlir::createCanonicalizerPass());
          else if (p == "cancel") pm.addPass(mqt::ir::opt::createCancelConsecutiveInverses());
          else if (p == "sink") pm.addPass(mqt::ir::opt::createQuantumSinkPass());
          else if (p == "rt") pm.addPass(mqt::ir::opt::createMQTCoreRoundTrip());
        }
        if (mlir::failed(pm.run(*mod))) out = "!pass " + err;
        else if (mlir::failed(mlir::verify(*mod))) out = "!verify " + err;
        else {
          if (reprint) {
            std::string s;
            llvm::raw_string_ostream os(s);
            mlir::OpPrintingFlags fl;
            if (generic) fl.printGenericOpForm();
            mod->print(os, fl);
            mod = mlir::parseSourceString<mlir::ModuleOp>(s, &ctx);
            if (!mod) out = "!reparse " + err;
          }
          if (mod) {
            try { out = Walk().module(*mod, n, isId); } catch (const std::exception& e) { out = std::string("!walk ") + e.what(); }
          }
        }
      }
    } catch (const std::exception& e) {
      out = std::string("!refused ") + e.what();
    }
    size_t k = 0;
    while (k < out.size()) {
      const auto w = write(fd[1], out.data() + k, out.size() - k);
      if (w <= 0) break;
      k += static_cast<size_t>(w);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string got;
  char buf[65536];
  for (;;) {
    const auto k = read(fd[0], buf, sizeof buf);
    if (k <= 0) break;
    got.append(buf, static_cast<size_t>(k));
  }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return std::string("!crash: signal ") + std::to_string(WTERMSIG(st)) + (WTERMSIG(st) == SIGALRM ? " (no end)" : "");
  if (got.empty()) return "!crash: no answer";
  return got;
}

// a gate with arbitrary numbers of targets, controls, parameters and outputs: the verifier says whether it is one
void verdict(Rng& r, Trace& t) {
  static const std::vector<std::string> ALL = {"gphase", "i", "h", "x", "y", "z", "s", "sdg", "t", "tdg", "v", "vdg", "u", "u2", "p", "sx", "sxdg", "rx", "ry", "rz", "swap", "iswap", "iswapdg", "peres", "peresdg", "dcx", "ecr", "rxx", "ryy", "rzz", "rzx", "barrier"};
  const std::string g = r.pick(ALL);
  const auto* gi = g == "barrier" ? nullptr : &vf::gate(g);
  const auto near = [&](int k) { return r.below(4) == 0 ? std::max(0, k + r.below(3) - 1) : k; };
  const int tg = gi ? near(gi->targets) : r.below(3), np = gi ? near(gi->params) : near(0);
  const int pc = r.below(3) ? 0 : r.below(3), nc = r.below(3) ? 0 : r.below(3);
  const int outs = near(tg + pc + nc);
  int sta = 0;
  for (int i = 0; i < np; ++i) sta += r.below(2);
  const bool hasSta = sta > 0;
  const bool hasMask = (sta > 0 && sta < np) ? r.below(4) != 0 : r.below(5) == 0;
  std::vector<int> mask;
  if (hasMask) {
    for (int i = 0; i < np; ++i) mask.push_back(i < sta);
    r.shuffle(mask);
    if (r.below(6) == 0) mask.push_back(r.below(2));
    if (!mask.empty() && r.below(6) == 0) mask[0] ^= 1;
  }
  const int nq = std::max({1, tg + pc + nc});
  std::string x = "module {\n  func.func @main() {\n    %r0 = \"mqtopt.allocQubitRegister\"() <{size_attr = " + std::to_string(nq) + " : i64}> : () -> " + RT + "\n    %c = arith.constant 1.0 : f64\n";
  for (int i = 0; i < nq; ++i) x += "    %r" + std::to_string(i + 1) + ", %q" + std::to_string(i) + " = \"mqtopt.extractQubit\"(%r" + std::to_string(i) + ") <{index_attr = " + std::to_string(i) + " : i64}> : (" + RT + ") -> (" + RT + ", " + QT + ")\n";
  std::string os, ty, ot, pr, sp, mp;
  const auto add = [](std::string& s, const std::string& y) { s += (s.empty() ? "" : ", ") + y; };
  for (int i = 0; i < np - sta; ++i) { add(os, "%c"); add(ty, "f64"); }
  for (int i = 0; i < tg + pc + nc; ++i) { add(os, "%q" + std::to_string(i)); add(ty, QT); }
  for (int i = 0; i < outs; ++i) add(ot, QT);
  pr = "operandSegmentSizes = array<i32: " + std::to_string(np - sta) + ", " + std::to_string(tg) + ", " + std::to_string(pc) + ", " + std::to_string(nc) + ">";
  for (int i = 0; i < sta; ++i) add(sp, "1.0");
  for (const int m : mask) add(mp, m ? "true" : "false");
  if (hasSta) pr += ", static_params = array<f64" + (sp.empty() ? "" : ": " + sp) + ">";
  if (hasMask) pr += ", params_mask = array<i1" + (mp.empty() ? "" : ": " + mp) + ">";
  x += "    " + (outs ? "%o:" + std::to_string(outs) + " = " : std::string()) + "\"mqtopt." + Gen::mlirName(g) + "\"(" + os + ") <{" + pr + "}> : (" + ty + ") -> (" + ot + ")\n    return\n  }\n}\n";
  t.begin(x);
  const auto out = transform(x, {}, nq, false, false, false);
  const bool crashed = out.rfind("!crash", 0) == 0;
  if (crashed) { t.flag(false, out); return; }
  const bool ok = out.empty() || out[0] != '!' || out.rfind("!walk", 0) == 0;
  t.raw("{\"e\":\"verdict\",\"g\":" + jstr(g) + ",\"t\":" + std::to_string(tg) + ",\"c\":" + std::to_string(pc + nc) + ",\"np\":" + std::to_string(np) + ",\"sta\":" + std::to_string(sta) + ",\"has\":" + (hasMask ? "true" : "false") + ",\"mask\":" + jarr(mask) + ",\"outs\":" + std::to_string(outs) + ",\"ok\":" + (ok ? "true" : "false") + "}");
}

void caseOf(const Args& a, Rng& r, Trace& t) {
  if (a.mode == "verdict") { verdict(r, t); return; }
  const bool rt = a.mode == "rt";
  const int n = rt && r.below(4) ? 1 + r.below(2) : 1 + r.below(3);
  Gen g(r, n, 9, r.below(n == 3 ? 3 : 4));
  const bool isId = r.below(4) != 0;
  if (rt) g.roundTrip(); else g.program();
  std::vector<std::string> passes;
  if (a.mode == "cancel") passes = {"cancel"};
  else if (a.mode == "sink") passes = {"sink"};
  else if (rt) passes = {"rt"};
  else if (a.mode == "mix") {
    static const std::vector<std::string> P = {"cancel", "sink", "canonicalize"};
    for (int k = 1 + r.below(3); k >= 0; --k) passes.push_back(r.pick(P));
  }
  std::string desc;
  for (const auto& p : passes) desc += p + " ";
  t.begin(desc + "\n" + g.text);
  t.raw(g.prog(1, isId));
  const auto out = transform(g.text, passes, n, isId, a.mode == "fmt", r.below(2));
  if (out.empty() || out[0] == '!') t.flag(false, out);
  else t.raw(out);
}
} // namespace

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  return runCases(a, [&](int, Rng& r, Trace& t) { caseOf(a, r, t); });
}
