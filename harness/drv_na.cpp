// neutral-atom computations (C25)
#include "common.hpp"
#include "na/NAComputation.hpp"
#include "na/operations/GlobalCZOp.hpp"
#include "na/operations/GlobalRYOp.hpp"
#include "na/operations/LoadOp.hpp"
#include "na/operations/LocalRZOp.hpp"
#include "na/operations/LocalUOp.hpp"
#include "na/operations/MoveOp.hpp"
#include "na/operations/StoreOp.hpp"
#include <map>
#include <set>
#include <sstream>
using namespace vf;
using na::Location;
static std::string I(long x) { return std::to_string(x); }
static std::string B(bool b) { return b ? "true" : "false"; }
using P = std::pair<int, int>;
static std::string jp(const P& p) { return "[" + I(p.first) + "," + I(p.second) + "]"; }
static std::string jps(const std::vector<P>& v) { return jarr(v, jp); }

static void naCase(int, Rng& r, Trace& t) {
  t.begin("na");
  na::NAComputation c;
  const int n = r.range(1, 5);
  const int W = r.range(1, 4);
  std::vector<P> cur;
  std::set<P> usedLoc;
  std::vector<const na::Atom*> atoms;
  std::vector<const na::Zone*> zones;
  std::vector<std::string> names, znames;
  for (int i = 0; i < n; ++i) {
    P p;
    do p = {r.range(-1, W), r.range(-1, W)}; while (!usedLoc.insert(p).second);
    cur.push_back(p);
    names.push_back("atom" + I(i));
    atoms.push_back(&c.emplaceBackAtom(names.back()));
  }
  std::vector<int> order = r.perm(n);
  for (const int i : order) { if (r.coin()) c.emplaceInitialLocation(*atoms[i], cur[i].first, cur[i].second); else { const Location at{static_cast<double>(cur[i].first), static_cast<double>(cur[i].second)}; c.emplaceInitialLocation(*atoms[i], at); } }
  const int nz = r.range(1, 3);
  for (int i = 0; i < nz; ++i) { znames.push_back("zone_" + I(i)); zones.push_back(&c.emplaceBackZone(znames.back())); }
  t.raw("{\"e\":\"atoms\",\"loc\":" + jps(cur) + "}");
  std::set<int> held;
  const int len = r.range(1, 12);
  const bool wild = r.coin(25);
  for (int k = 0; k < len; ++k) {
    std::string op;
    const int z = r.below(10);
    if (z >= 8) {
      std::vector<int> a;
      const bool local = r.coin();
      for (int i = 0; i < (local ? n : nz); ++i) if (r.coin()) a.push_back(i);
      if (a.empty()) a.push_back(0);
      r.shuffle(a);
      if (local && r.coin(8)) a.push_back(a[0]);
      std::vector<int> one;
      for (const int i : a) one.push_back(i + 1);
      if (local) {
        std::vector<const na::Atom*> as;
        for (const int i : a) as.push_back(atoms[i]);
        if (r.coin()) {
          const int p = r.range(-3, 9);
          if (as.size() == 1 && r.coin()) c.emplaceBack<na::LocalRZOp>(*as[0], p); else c.emplaceBack<na::LocalRZOp>(as, p);
          op = "{\"k\":\"local\",\"g\":\"rz\",\"a\":" + jarr(one) + ",\"p\":[" + I(p) + "]}";
        } else {
          const int p = r.range(-3, 9), q = r.range(-3, 9), s = r.range(-3, 9);
          if (as.size() == 1 && r.coin()) c.emplaceBack<na::LocalUOp>(*as[0], p, q, s); else c.emplaceBack<na::LocalUOp>(as, p, q, s);
          op = "{\"k\":\"local\",\"g\":\"u\",\"a\":" + jarr(one) + ",\"p\":[" + I(p) + "," + I(q) + "," + I(s) + "]}";
        }
      } else {
        std::vector<const na::Zone*> zs;
        for (const int i : a) zs.push_back(zones[i]);
        if (r.coin()) {
          if (zs.size() == 1 && r.coin()) c.emplaceBack<na::GlobalCZOp>(*zs[0]); else c.emplaceBack<na::GlobalCZOp>(zs);
          op = "{\"k\":\"global\",\"g\":\"cz\",\"a\":" + jarr(one) + ",\"p\":[]}";
        } else {
          const int p = r.range(-3, 9);
          if (zs.size() == 1 && r.coin()) c.emplaceBack<na::GlobalRYOp>(*zs[0], p); else c.emplaceBack<na::GlobalRYOp>(zs, p);
          op = "{\"k\":\"global\",\"g\":\"ry\",\"a\":" + jarr(one) + ",\"p\":[" + I(p) + "]}";
        }
      }
    } else {
      std::string kind = z < 3 ? "load" : z < 6 ? "move" : "store";
      if (!wild && held.empty()) kind = "load";
      if (!wild && static_cast<int>(held.size()) == n && kind == "load") kind = "move";
      std::vector<int> a;
      for (int i = 0; i < n; ++i) if ((wild && r.coin(15)) || ((kind == "load") != (held.count(i) > 0) && r.coin(65))) a.push_back(i);
      if (a.empty()) for (int i = 0; i < n && a.empty(); ++i) if ((kind == "load") != (held.count(i) > 0)) a.push_back(i);
      if (a.empty()) a.push_back(0);
      r.shuffle(a);
      if (r.coin(3)) a.push_back(a[r.below(static_cast<int>(a.size()))]);
      std::vector<P> tgt;
      if (kind == "move" || r.coin()) {
        // columns and rows are moved as a whole most of the time
        std::map<int, int> fx, fy;
        int x = r.range(-2, 1), y = r.range(-2, 1);
        std::set<int> xs, ys;
        for (const int i : a) { xs.insert(cur[i].first); ys.insert(cur[i].second); }
        for (const int v : xs) { fx[v] = x; x += r.range(r.coin(4) ? 0 : 1, 3); }
        for (const int v : ys) { fy[v] = y; y += r.range(r.coin(4) ? 0 : 1, 3); }
        for (const int i : a) tgt.emplace_back(fx[cur[i].first], fy[cur[i].second]);
        if (r.coin(12)) { auto& p = tgt[r.below(static_cast<int>(tgt.size()))]; (r.coin() ? p.first : p.second) += r.range(-2, 2); }
        if (r.coin(6)) r.shuffle(tgt);
      }
      std::vector<const na::Atom*> as;
      std::vector<Location> ts;
      for (const int i : a) as.push_back(atoms[i]);
      for (const auto& p : tgt) ts.push_back({static_cast<double>(p.first), static_cast<double>(p.second)});
      const bool single = as.size() == 1 && r.coin();
      if (kind == "load") {
        if (single) { if (ts.empty()) c.emplaceBack<na::LoadOp>(*as[0]); else c.emplaceBack<na::LoadOp>(*as[0], ts[0]); }
        else if (ts.empty()) c.emplaceBack<na::LoadOp>(as); else c.emplaceBack(na::LoadOp(as, ts));
      } else if (kind == "move") { if (single) c.emplaceBack<na::MoveOp>(*as[0], ts[0]); else c.emplaceBack<na::MoveOp>(as, ts); }
      else if (single) { if (ts.empty()) c.emplaceBack<na::StoreOp>(*as[0]); else c.emplaceBack<na::StoreOp>(*as[0], ts[0]); }
      else if (ts.empty()) c.emplaceBack<na::StoreOp>(as); else c.emplaceBack(na::StoreOp(as, ts));
      std::vector<int> one;
      for (const int i : a) one.push_back(i + 1);
      op = "{\"k\":\"" + kind + "\",\"a\":" + jarr(one) + ",\"t\":" + jps(tgt) + "}";
      if (!tgt.empty()) for (size_t i = 0; i < a.size(); ++i) cur[a[i]] = tgt[i];
      for (const int i : a) { if (kind == "load") held.insert(i); if (kind == "store") held.erase(i); }
      // wrong numbers of target locations are rejected on construction
      if (r.coin(10)) {
        bool threw = false;
        auto bad = ts;
        bad.resize(as.size() + 1, Location{0, 0});
        try { if (kind == "load") na::LoadOp x(as, bad); else if (kind == "move") na::MoveOp x(as, bad); else na::StoreOp x(as, bad); } catch (const std::invalid_argument&) { threw = true; }
        t.flag(threw, "number of target locations");
      }
    }
    const auto v = c.validate();
    int at = 0;
    if (!v.first) std::sscanf(v.second.c_str(), "Error in op number %d", &at);
    t.raw("{\"e\":\"na\",\"op\":" + op + ",\"valid\":" + B(v.first) + ",\"at\":" + I(at) + "}");
    if (!v.first && r.coin(70)) break;
    if (v.first && r.coin(40)) {
      const int i = r.below(static_cast<int>(c.size())), a = r.below(n);
      const auto L = c.getLocationOfAtomAfterOperation(*atoms[a], c[i]);
      t.raw("{\"e\":\"at\",\"i\":" + I(i + 1) + ",\"a\":" + I(a + 1) + ",\"r\":" + jp({static_cast<int>(std::lround(L.x)), static_cast<int>(std::lround(L.y))}) + "}");
    }
  }
  if (r.coin()) t.raw("{\"e\":\"text\",\"names\":" + jarr(names, jstr) + ",\"znames\":" + jarr(znames, jstr) + ",\"s\":" + jstr(c.toString()) + "}");
  t.flag(c.getAtomsSize() == static_cast<size_t>(n) && c.getAtoms().size() == static_cast<size_t>(n) && c.getZones().size() == static_cast<size_t>(nz) && c.getInitialLocations().size() == static_cast<size_t>(n), "sizes");
  for (int k = 0; k < 3; ++k) {
    const P p{r.range(-3, 3), r.range(-3, 3)}, q = r.coin(25) ? p : P{r.coin(30) ? p.first : r.range(-3, 3), r.range(-3, 3)};
    const Location a{static_cast<double>(p.first), static_cast<double>(p.second)}, b{static_cast<double>(q.first), static_cast<double>(q.second)};
    const auto sq = [](double x) { return I(std::lround(x * x)); };
    const auto L = [](const Location& x) { return jp({static_cast<int>(std::lround(x.x)), static_cast<int>(std::lround(x.y))}); };
    t.raw("{\"e\":\"loc\",\"p\":" + jp(p) + ",\"q\":" + jp(q) + ",\"cmp\":" + jarr(std::vector<int>{a < b, a > b, a <= b, a >= b, a == b, a != b}) +
          ",\"add\":" + L(a + b) + ",\"sub\":" + L(a - b) + ",\"d2\":" + sq(Location::distance(a, b)) + ",\"e2\":" + sq(a.getEuclideanDistance(b)) + ",\"len2\":" + sq(a.length()) +
          ",\"mx\":" + I(std::lround(a.getManhattanDistanceX(b))) + ",\"my\":" + I(std::lround(a.getManhattanDistanceY(b))) + ",\"str\":" + jstr(a.toString()) +
          ",\"hash\":" + B(std::hash<Location>{}(a) == std::hash<Location>{}(b)) + "}");
    const bool ext = r.coin(80);
    const int x1 = r.range(-3, 2), y1 = r.range(-3, 2), x2 = x1 + r.range(0, 3), y2 = y1 + r.range(0, 3);
    const na::Zone z = ext ? na::Zone("z", {static_cast<double>(x1), static_cast<double>(y1), static_cast<double>(x2), static_cast<double>(y2)}) : na::Zone("z");
    int res = -1;
    try { res = z.contains(a) ? 1 : 0; } catch (const std::runtime_error&) {}
    t.raw("{\"e\":\"zone\",\"x\":" + (ext ? jarr(std::vector<int>{x1, y1, x2, y2}) : std::string("[]")) + ",\"p\":" + jp(p) + ",\"r\":" + I(res) + "}");
  }
}
int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  if (a.mode == "prog") return runCases(a, naCase);
  return 3;
}
