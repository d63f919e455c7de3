// P30: intersection sizes of sorted duplicate-free ranges. Oracle: std::set of the keys.
#include <nwv/edges.hpp>
#include <nwgraph/util/intersection_size.hpp>
#include <nwgraph/adaptors/splittable_range_adaptor.hpp>
using namespace nwv;
using Keys = std::vector<uint32_t>;
static Keys subset(Ctx& c, size_t universe, double p) { Keys v; for (size_t i = 0; i < universe; ++i) if (c.rng.coin(p)) v.push_back((uint32_t)i); return v; }
static std::pair<Keys, Keys> pair_of(Ctx& c) {
  size_t u = c.rng.of({(size_t)c.rng.below(10), (size_t)c.rng.below(100), (size_t)c.rng.below(3000), (size_t)(c.thorough && c.rng.coin(0.1) ? 60000 : 500)}); Keys a, b;
  switch (c.rng.below(7)) {
    case 0: a = subset(c, u, 0.5); b = subset(c, u, 0.5); break;
    case 1: a = subset(c, u, c.rng.unit()); b = subset(c, u, c.rng.unit()); break;
    case 2: a = subset(c, u, 0.02); b = subset(c, u, 0.95); break;
    case 3: a = subset(c, u, 0.5); b = a; break;
    case 4: a = subset(c, u, 0.5); b = subset(c, u, 0.5); for (auto& x : b) x += u; break;                                // disjoint, one after the other
    case 5: a = subset(c, u, 0.5); b = subset(c, u, 0.5); for (auto& x : b) x += u / 2; break;                             // overlapping windows
    default: a = subset(c, u, 0.5); for (auto& x : a) x = 2 * x; b = subset(c, u, 0.5); for (auto& x : b) x = 2 * x + 1;    // interleaved, disjoint
      if (c.rng.coin() && !a.empty() && !b.empty()) b.back() = a.back() > b.back() ? a.back() : b.back();
  }
  if (c.rng.coin(0.2)) for (auto* v : {&a, &b}) for (auto& x : *v) x += 0xfffffff0u - 200000;    // keys beyond int
  else if (c.rng.coin(0.3)) { uint32_t top = 1; for (auto* v : {&a, &b}) for (auto x : *v) top = std::max(top, x); for (auto* v : {&a, &b}) for (auto& x : *v) x *= 0xffffffffu / top; }    // keys all over the type
  if (c.rng.coin()) std::swap(a, b);
  uint64_t h = 0; for (auto x : a) h = mix(h ^ x); h = mix(h + 77); for (auto x : b) h = mix(h ^ x); c.input(h); c.interesting(!a.empty() && !b.empty());
  std::string s = fmt("|A|=%zu |B|=%zu", a.size(), b.size()); if (a.size() + b.size() < 60) { s += " A={"; for (auto x : a) s += fmt("%u ", x); s += "} B={"; for (auto x : b) s += fmt("%u ", x); s += "}"; } c.describe(s);
  return {a, b};
}
template <class A, class B> static void all_forms(Ctx& c, const std::string& nm, A& a, B& b, size_t want) {
  auto is = [&](const char* form, size_t got) { if (got != want) c.die(nm, fmt("%s gives %zu, but %zu keys are common", form, got, want)); c.count("intersection sizes compared"); };
  is("(range, range)", nwg::intersection_size(a, b));
  is("(range, range, seq)", nwg::intersection_size(a, b, std::execution::seq));
  is("(range, range, par)", nwg::intersection_size(a, b, std::execution::par));
  is("(range, range, par_unseq)", nwg::intersection_size(a, b, std::execution::par_unseq));
  is("(first, last, range)", nwg::intersection_size(a.begin(), a.end(), b));
  is("(first, last, range, seq)", nwg::intersection_size(a.begin(), a.end(), b, std::execution::seq));
  is("(first, last, range, par)", nwg::intersection_size(a.begin(), a.end(), b, std::execution::par));
  is("(first, last, first, last)", nwg::intersection_size(a.begin(), a.end(), b.begin(), b.end()));
  is("(first, last, first, last, seq)", nwg::intersection_size(a.begin(), a.end(), b.begin(), b.end(), std::execution::seq));
  is("(first, last, first, last, par)", nwg::intersection_size(a.begin(), a.end(), b.begin(), b.end(), std::execution::par));
  is("swapped", nwg::intersection_size(b, a)); is("swapped par", nwg::intersection_size(b, a, std::execution::par));
  auto i = a.begin(), ie = a.end(); auto j = b.begin(), je = b.end(); is("lvalue iterators", nwg::intersection_size(i, ie, j, je)); if (i != a.begin() || j != b.begin()) c.die(nm, "the caller's iterators moved");
}
static size_t common(const Keys& a, const Keys& b) { std::set<uint32_t> s(a.begin(), a.end()); size_t n = 0; for (auto x : b) n += s.count(x); return n; }
NWV_FAMILY(tuples, 600, 20000) {
  auto [a, b] = pair_of(c); size_t want = common(a, b); Threads t(c.rng);
  std::vector<std::tuple<uint32_t>> A, B; for (auto x : a) A.push_back({x}); for (auto x : b) B.push_back({x}); all_forms(c, "tuples", A, B, want);
  // attributes take no part: they differ between the two ranges and are not sorted
  std::vector<std::tuple<uint32_t, double, char>> C; std::vector<std::tuple<uint32_t, std::string>> D; for (auto x : a) C.push_back({x, c.rng.unit(), 'x'}); for (auto x : b) D.push_back({x, fmt("%d", (int)c.rng.below(9))});
  all_forms(c, "tuples with attributes", C, D, want); all_forms(c, "mixed tuples", A, D, want);
  const auto& CA = A; const auto& CB = B; all_forms(c, "const tuples", CA, CB, want);
}
// rows of compressed graphs and of vectors of vectors
NWV_FAMILY(scale, 3, 60) {    // more common keys than 16 bits can count
  size_t u = 70000 + c.rng.below(20000); Keys a = subset(c, u, 0.99), b = subset(c, u, 0.99); c.input(a.size() * 100003 + b.size()); c.interesting(); c.describe(fmt("%zu and %zu keys", a.size(), b.size())); size_t want = common(a, b); Threads t(c.rng);
  std::vector<std::tuple<uint32_t>> A, B; for (auto x : a) A.push_back({x}); for (auto x : b) B.push_back({x}); all_forms(c, "many tuples", A, B, want);
}
NWV_FAMILY(rows, 250, 8000) {
  auto [a, b] = pair_of(c); if (!a.empty() && a.back() > 100000 || !b.empty() && b.back() > 100000) { a.clear(); b.clear(); for (size_t i = 0; i < 20; ++i) { if (c.rng.coin()) a.push_back(i); if (c.rng.coin()) b.push_back(i); } }
  size_t want = common(a, b); Threads t(c.rng); G g; g.n = std::max<size_t>({a.empty() ? 0 : (size_t)a.back() + 1, b.empty() ? 0 : (size_t)b.back() + 1, 4}); V u = c.rng.below(g.n), v = c.rng.below(g.n); if (u == v) v = (v + 1) % g.n;
  for (auto x : a) g.e.push_back({u, x}); for (auto x : b) g.e.push_back({v, x}); c.rng.shuffle(g.e);
  auto m = make_csr<0>(g, true); auto ru = m[u], rv = m[v]; all_forms(c, "adjacency rows", ru, rv, want);
  const auto& cm = m; auto cu = cm[u]; auto cv = cm[v]; all_forms(c, "const adjacency rows", cu, cv, want);
  std::vector<double> w(g.e.size()); for (auto& x : w) x = c.rng.unit(); auto mw = make_csr_w<0, double>(g, w, true); auto wu = mw[u], wv = mw[v]; all_forms(c, "weighted adjacency rows", wu, wv, want); all_forms(c, "weighted and unweighted rows", ru, wv, want);
  std::vector<std::tuple<uint32_t>> A; for (auto x : a) A.push_back({x}); all_forms(c, "row and vector", A, rv, want);
}
NWV_MAIN
