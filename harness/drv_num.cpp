// C06: histories of the table of real numbers, around the borders of its
// buckets, around the constants and inside buckets.
// A number is <<base, u>>: base point plus u units, 15 units = 2 tolerances.
#include "common.hpp"
#include "dd/Package.hpp"
#include <cmath>
#include <map>
using namespace vf;
using dd::RealNumber;

struct NumWorld {
  Rng& r; Trace& t;
  std::unique_ptr<dd::Package> p;
  const double unit = RealNumber::eps * 2 / 15;
  std::vector<double> bases;
  std::map<const RealNumber*, int> ids; std::map<int, const RealNumber*> ptr; std::map<int, int> refs;
  std::vector<std::pair<int, long>> seen;
  int next = 4;
  NumWorld(Rng& rr, Trace& tt) : r(rr), t(tt), p(std::make_unique<dd::Package>(1)) {
    bases = {0., 1., dd::SQRT2_2, 0.5};
    const int nb = r.range(1, 3);
    for (int i = 0; i < nb; ++i) {
      const int k = r.range(3, 65000);
      bases.push_back(r.coin(75) ? (k + 0.5) / 65536. : r.coin(70) ? k / 65536. : 1.25 + k % 3); // a border, a centre, beyond the last bucket
      if (r.coin(30) && bases.back() < 1) bases.push_back(bases.back() + 0.25 / 65536.); // another point of the upper bucket
      if (r.coin(20) && bases.back() < 1) bases.push_back(bases.back() + 0.25 / 65536.);
    }
    for (size_t i = 0; i < bases.size(); ++i) for (size_t j = 0; j < i; ++j) if (std::abs(bases[i] - bases[j]) < 1e-7) bases[i] = bases[i] + 1e-7; // far apart
    fresh();
  }
  void fresh() {
    ids.clear(); ptr.clear(); refs.clear();
    know(&dd::constants::zero, 0); know(&dd::constants::one, 1); know(&dd::constants::sqrt2over2, 2);
  }
  void know(const RealNumber* q, int i) { ids[q] = i; ptr[i] = q; refs[i] = 0; }
  std::string val(const RealNumber* q) {
    const double v = q->value;
    size_t b = 0;
    for (size_t i = 0; i < bases.size(); ++i) if (std::abs(v - bases[i]) < std::abs(v - bases[b])) b = i;
    return "[" + std::to_string(b) + "," + std::to_string(std::lround((v - bases[b]) / unit)) + "]";
  }
  void look() {
    size_t b = r.coin(75) && bases.size() > 4 ? 4 + r.below(bases.size() - 4) : r.below(bases.size());
    long u = r.coin(70) ? r.range(-20, 20) : r.range(-60, 60);
    if (!seen.empty() && r.coin(30)) { const auto& s = seen[r.below(seen.size())]; b = s.first; u = s.second + r.range(-9, 9); }
    if (b == 0 && u < 0) u = -u;
    const bool sign = r.coin(30);
    seen.emplace_back(b, u);
    const double v = bases[b] + u * unit;
    auto* q = p->cUniqueTable.lookup(sign ? -v : v);
    auto* a = RealNumber::getAlignedPointer(q);
    if (ids.find(a) == ids.end()) know(a, next++);
    t.raw("{\"e\":\"look\",\"v\":[" + std::to_string(b) + "," + std::to_string(u) + "],\"sign\":" + (sign ? "true" : "false") + ",\"i\":" + std::to_string(ids[a]) +
          ",\"w\":" + val(a) + ",\"neg\":" + (RealNumber::isNegativePointer(q) ? "true" : "false") + "}");
  }
  void inc() {
    auto it = ids.begin(); std::advance(it, r.below(ids.size()));
    auto* q = const_cast<RealNumber*>(it->first);
    if (r.coin(30)) q = RealNumber::getNegativePointer(q);
    p->cUniqueTable.incRef(q); ++refs[it->second];
    t.raw("{\"e\":\"inc\",\"i\":" + std::to_string(it->second) + ",\"ref\":" + std::to_string(it->first->ref) + "}");
  }
  void dec() {
    std::vector<int> h;
    for (auto& [i, n] : refs) if (n > 0) h.push_back(i);
    if (h.empty()) return;
    const int i = r.pick(h);
    auto* q = const_cast<RealNumber*>(ptr[i]);
    if (r.coin(30)) q = RealNumber::getNegativePointer(q);
    p->cUniqueTable.decRef(q); --refs[i];
    t.raw("{\"e\":\"dec\",\"i\":" + std::to_string(i) + ",\"ref\":" + std::to_string(ptr[i]->ref) + "}");
  }
  void gc() {
    const auto n = p->cUniqueTable.garbageCollect(true);
    std::map<const RealNumber*, int> keep;
    for (const auto* q : stored()) if (ids.count(q)) keep[q] = ids[q];
    for (int c = 0; c < 3; ++c) keep[ptr[c]] = c;
    for (auto& [q, i] : ids) if (!keep.count(q)) { ptr.erase(i); refs.erase(i); }
    ids = keep;
    t.raw("{\"e\":\"gc\",\"removed\":" + std::to_string(n) + "}");
  }
  std::vector<const RealNumber*> stored() {
    std::vector<const RealNumber*> x;
    for (auto* q : p->cUniqueTable.getTable()) for (; q != nullptr; q = q->next()) x.push_back(q);
    return x;
  }
  size_t count() { return stored().size(); }
  void cnt() {
    t.raw("{\"e\":\"count\",\"stat\":" + std::to_string(p->cUniqueTable.getStats().numEntries) + ",\"r\":" + std::to_string(count()) + "}");
  }
  void clear() {
    if (r.coin(50)) p->reset(); else p->cUniqueTable.clear();
    fresh();
    t.raw("{\"e\":\"clear\"}");
  }
  void run() {
    for (const auto* q : stored()) know(q, 3);
    t.raw("{\"e\":\"new\"}");
    const int len = r.range(15, 60);
    for (int i = 0; i < len; ++i) {
      const int k = r.below(100);
      if (k < 62) look();
      else if (k < 76) inc();
      else if (k < 86) dec();
      else if (k < 93) gc();
      else if (k < 98) cnt();
      else if (r.coin(30)) clear();
    }
    cnt(); gc(); cnt();
  }
};

int main(int argc, char** argv) {
  const auto a = parseArgs(argc, argv);
  return runCases(a, [&](int, Rng& r, Trace& t) { NumWorld w(r, t); w.run(); });
}
