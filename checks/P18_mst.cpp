// P18: minimum spanning forests are spanning and of minimum weight.   P32 shares the union-find harness (P32_uf.cpp).
#include <nwv/edges.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/algorithms/kruskal.hpp>
#include <nwgraph/algorithms/prim.hpp>
#include <nwgraph/vovos.hpp>
using namespace nwv;
using nwg::directedness;

template <class W> struct Case { G g; std::vector<W> w; std::vector<V> comp; size_t ncomp = 0; };
template <class W> static Case<W> gen(Ctx& c, int big) {
  Case<W> k; GenOpt o; o.max_n = c.rng.of({3, 8, 25, 80, 200}); o.density = c.rng.of({1, 3, 6});
  if (big == 2) k.g = scale_graph(c.rng); else if (big) { size_t n = c.rng.logsize(300, 8000); k.g = big_graph(c.rng, n, (size_t)(n * (0.5 + 6 * c.rng.unit()))); } else k.g = random_graph(c.rng, o);
  int kind = (int)c.rng.below(4);
  for (auto& e : k.g.e) { (void)e; W x; switch (kind) { case 0: x = (W)c.rng.below(3); break; case 1: x = (W)c.rng.below(100000); break; case 2: x = std::is_signed_v<W> ? (W)((int64_t)c.rng.below(200) - 100) : (W)c.rng.below(200); break; default: x = std::is_floating_point_v<W> ? (W)((double)c.rng.below(1 << 16) / 256.0) : (W)(c.rng.below(8) * 1000); } k.w.push_back(x); c.input((uint64_t)(int64_t)(x * 256)); }
  k.comp = components(k.g); for (size_t i = 0; i < k.g.n; ++i) k.ncomp += k.comp[i] == i;
  c.input(k.g.digest()); c.describe(k.g.str() + fmt(" components=%zu weights=%d", k.ncomp, kind)); c.interesting(k.g.n - k.ncomp > 1 && k.g.e.size() > k.g.n - k.ncomp);
  return k;
}
// reference: Boruvka-free greedy over a bucket of (weight, index), own union-find
template <class W> static long double mst(const Case<W>& k, bool maximum, V only = ~0u) {
  std::vector<size_t> id(k.g.e.size()); std::iota(id.begin(), id.end(), 0);
  std::sort(id.begin(), id.end(), [&](size_t a, size_t b) { return maximum ? k.w[a] > k.w[b] : k.w[a] < k.w[b]; });
  std::vector<V> p(k.g.n); std::iota(p.begin(), p.end(), 0); auto find = [&](V x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
  long double t = 0;
  for (size_t i : id) { auto [u, v] = k.g.e[i]; if (only != ~0u && k.comp[u] != only) continue; V a = find(u), b = find(v); if (a != b) { p[a] = b; t += k.w[i]; } }
  return t;
}
template <class T, class W> static void forest(Ctx& c, const std::string& A, const Case<W>& k, const std::vector<T>& all, const std::vector<T>& got, size_t wpos_sum_is, long double total, bool maximum, size_t nv) {
  if (nv != k.g.n) c.fail(A + ":vertices", fmt("result has %zu vertices instead of %zu", nv, k.g.n));
  if (got.size() != k.g.n - k.ncomp) { c.fail(A + ":edges", fmt("%zu edges instead of %zu", got.size(), k.g.n - k.ncomp)); return; }
  auto s = sorted(all), t = sorted(got);
  if (!std::includes(s.begin(), s.end(), t.begin(), t.end())) { c.fail(A + ":subset", "the result contains an edge that is not an edge of the input"); return; }
  std::vector<V> p(k.g.n); std::iota(p.begin(), p.end(), 0); auto find = [&](V x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
  for (auto& e : got) { V a = find(std::get<0>(e)), b = find(std::get<1>(e)); if (a == b) { c.fail(A + ":cycle", fmt("edge %u-%u closes a cycle", std::get<0>(e), std::get<1>(e))); return; } p[a] = b; }
  long double want = mst(k, maximum);
  if (total != want) c.fail(A + ":weight", fmt("total weight %.3Lf instead of %.3Lf", total, want));
  c.count(A + " runs"); c.count("forest edges checked", got.size());
}
template <directedness D, class W> static void krus(Ctx& c, int big) {
  auto k = gen<W>(c, big); using EL = nwg::edge_list<D, W>;
  std::vector<Tup<W>> all; for (size_t i = 0; i < k.w.size(); ++i) all.push_back({k.g.e[i].first, k.g.e[i].second, k.w[i]});
  auto sum = [](auto& v) { long double s = 0; for (auto& e : v) s += std::get<2>(e); return s; };
  { EL el(k.g.n); push_all(el, all); auto t = nwg::kruskal(el); auto got = content(t); forest(c, "kruskal", k, all, got, 0, sum(got), false, nwg::num_vertices(t));
    if (differ(content(el), all) != "") c.fail("kruskal:input", "the input list no longer holds the same edges"); }
  { EL el(k.g.n); push_all(el, all); auto t = nwg::kruskal(el, [](auto a, auto b) { return std::get<2>(a) > std::get<2>(b); }); auto got = content(t); forest(c, "kruskal-max", k, all, got, 0, sum(got), true, nwg::num_vertices(t)); }
}
template <class W> static void krus2(Ctx& c) {    // the weight is the second of three attributes
  auto k = gen<W>(c, false); using EL = nwg::edge_list<directedness::undirected, uint64_t, W, std::string>;
  std::vector<Tup<uint64_t, W, std::string>> all; for (size_t i = 0; i < k.w.size(); ++i) all.push_back({k.g.e[i].first, k.g.e[i].second, i, k.w[i], attr_of<std::string>(i)});
  EL el(k.g.n); push_all(el, all); auto t = nwg::kruskal(el, [](auto&& a, auto&& b) { return std::get<3>(a) < std::get<3>(b); }); auto got = content(t);
  long double s = 0; for (auto& e : got) s += std::get<3>(e);
  forest(c, "kruskal-attrs", k, all, got, 0, s, false, nwg::num_vertices(t));
}
template <class Graph, class W> static void prim_one(Ctx& c, const std::string& A, const Case<W>& k, const Graph& a, V src) {
  auto p = nwg::prim<Graph, W>(a, src, [](auto&& e) { return std::get<1>(e); });
  if (p.size() != k.g.n) { c.fail(A + ":size", fmt("%zu predecessors", p.size())); return; }
  std::map<E, W> best; for (size_t i = 0; i < k.w.size(); ++i) { auto [u, v] = k.g.e[i]; E e{std::min(u, v), std::max(u, v)}; auto [it, f] = best.try_emplace(e, k.w[i]); if (!f) it->second = std::min(it->second, k.w[i]); }
  const V none = std::numeric_limits<V>::max(); long double tot = 0; size_t n = 0;
  for (V v = 0; v < k.g.n; ++v) {
    bool in = k.comp[v] == k.comp[src] && v != src;
    if (in != (p[v] != none)) { c.fail(A + ":reach", fmt("vertex %u has predecessor %u, source %u", v, p[v], src)); return; }
    if (!in) continue;
    auto it = best.find({std::min(v, p[v]), std::max(v, p[v])});
    if (it == best.end()) { c.fail(A + ":edge", fmt("no edge %u-%u", v, p[v])); return; }
    tot += it->second; ++n;
    size_t steps = 0; for (V x = v; x != src; x = p[x]) if (++steps > k.g.n || x == none) { c.fail(A + ":cycle", fmt("predecessors of %u do not lead to the source", v)); return; }
    if (steps > 3000) break;
  }
  long double want = mst(k, false, k.comp[src]);
  if (tot != want) c.fail(A + ":weight", fmt("total weight %.3Lf instead of %.3Lf", tot, want));
  c.count(A + " runs"); c.count("tree edges checked", n);
}
template <class W> static void prims(Ctx& c, bool big) {
  auto k = gen<W>(c, big); if (k.g.n == 0) return;
  std::vector<std::tuple<W>> at; for (auto w : k.w) at.push_back({w});
  auto el = make_el<directedness::undirected, W>(k.g, at);
  nwg::adjacency<0, W> a(el, c.rng.coin());
  for (int i = 0; i < 2; ++i) prim_one(c, "prim", k, a, (V)(k.g.e.empty() || c.rng.coin(0.4) ? c.rng.below(k.g.n) : c.rng.pick(k.g.e).first));
}
NWV_FAMILY(kruskal_big, 60, 1500) { krus<directedness::undirected, int>(c, true); }
NWV_FAMILY(kruskal_scale, 4, 80) { krus<directedness::undirected, int>(c, 2); }
NWV_FAMILY(kruskal_small, 2500, 60000) {
  switch (c.rng.below(4)) { case 0: return krus<directedness::undirected, int>(c, false); case 1: return krus<directedness::directed, int>(c, false); case 2: return krus<directedness::undirected, double>(c, false); default: return krus<directedness::undirected, float>(c, false); }
}
NWV_FAMILY(kruskal_attributes, 600, 10000) { krus2<int>(c); }
NWV_FAMILY(prim_big, 40, 800) { prims<int>(c, true); }
NWV_FAMILY(prim_small, 2500, 60000) { switch (c.rng.below(3)) { case 0: return prims<int>(c, false); case 1: return prims<double>(c, false); default: return prims<uint32_t>(c, false); } }
NWV_MAIN
