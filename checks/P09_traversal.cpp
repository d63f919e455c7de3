// P09: traversal views visit exactly the reachable part, in search order. Oracle: reference search over the generated rows.
#include <nwv/nw.hpp>
#include <nwgraph/vovos.hpp>
#if PART == 0
#include <nwgraph/adaptors/bfs_range.hpp>
#include <nwgraph/adaptors/bfs_edge_range.hpp>
#include <nwgraph/adaptors/dag_range.hpp>
#include <nwgraph/adaptors/filtered_bfs_range.hpp>
#else
#include <nwgraph/adaptors/new_dfs_range.hpp>
#endif
using namespace nwv;
static G pick(Ctx& c, [[maybe_unused]] bool undirected = false) {
  GenOpt o; o.max_n = c.thorough ? 150 : 60; o.loops = !undirected && c.rng.coin(); o.dups = c.rng.coin(); G g = random_graph(c.rng, o);
  if (!g.n) g.n = 1;
  if (undirected) { std::erase_if(g.e, [](auto& p) { return p.first == p.second; }); g = symmetric(g); if (o.dups && c.rng.coin()) { size_t m = g.e.size(); for (size_t i = 0; i < m; ++i) if (c.rng.coin(0.1)) { auto e = g.e[i]; g.e.push_back(e); g.e.push_back({e.second, e.first}); } } c.rng.shuffle(g.e); }
  return g;
}
static V seed_of(Ctx& c, const G& g) { V s = c.rng.below(g.n); if (c.rng.coin(0.8) && g.e.size()) s = g.e[c.rng.below(g.e.size())].first; return s; }
static void note(Ctx& c, const G& g, V s, size_t reach) { c.input(mix(g.digest()) ^ s); c.interesting(reach > 1); c.describe(g.str() + fmt(" seed %u", (unsigned)s)); c.count("vertices reachable from seeds", reach); }
using Pairs = std::vector<std::pair<V, V>>;
[[maybe_unused]] static bool has(const std::vector<V>& row, V v) { return std::find(row.begin(), row.end(), v) != row.end(); }
#if PART == 0
// vertices in breadth-first order
static void vertices(Ctx& c, const std::string& k, const std::vector<V>& got, const std::vector<uint64_t>& lev, V s, size_t reach) {
  std::vector<bool> seen(lev.size()); uint64_t last = 0; if (got.empty() || got[0] != s) c.die(k, "does not start at the seed");
  for (auto v : got) { if (v >= lev.size() || lev[v] == INF) c.die(k, fmt("yields %u, which cannot be reached", v)); if (seen[v]) c.die(k, fmt("yields %u twice", v)); seen[v] = true; if (lev[v] < last) c.die(k, fmt("yields %u at distance %llu after distance %llu", v, (unsigned long long)lev[v], (unsigned long long)last)); last = lev[v]; }
  if (got.size() != reach) c.die(k, fmt("yields %zu of %zu reachable vertices", got.size(), reach)); c.count("vertices observed", got.size());
}
// edges of a breadth-first tree, parents in order of distance
static void tree(Ctx& c, const std::string& k, const Pairs& got, const Adj& rows, const std::vector<uint64_t>& lev, V s, size_t reach) {
  std::vector<bool> seen(rows.size()); seen[s] = true; uint64_t last = 0;
  for (auto [u, v] : got) { if (u >= rows.size() || v >= rows.size() || !has(rows[u], v)) c.die(k, fmt("yields %u-%u, which is no edge", u, v)); if (!seen[u]) c.die(k, fmt("%u-%u leaves a vertex not yet discovered", u, v)); if (seen[v]) c.die(k, fmt("%u-%u enters a vertex already discovered", u, v)); seen[v] = true; if (lev[u] == INF || lev[v] != lev[u] + 1) c.die(k, fmt("%u-%u is not on a shortest path", u, v)); if (lev[v] < last) c.die(k, "distances decrease"); last = lev[v]; }
  if (got.size() + 1 != reach) c.die(k, fmt("yields %zu tree edges for %zu reachable vertices", got.size(), reach)); c.count("tree edges observed", got.size());
}
template <class Graph> static void bfs_views(Ctx& c, const std::string& nm, Graph& x, const Adj& rows, const std::vector<uint64_t>& lev, V s, size_t reach, size_t m) {
  { std::vector<V> got; nwg::topdown_bfs_range r(x, s); for (auto i = r.begin(); i != r.end(); ++i) { got.push_back(*i); if (got.size() > rows.size()) break; } vertices(c, nm + ":bfs_range", got, lev, s, reach); }
  if constexpr (requires { typename Graph::inner_iterator; }) { Pairs got; nwg::bfs_edge_range r(x, s); for (auto&& t : r) { got.push_back({(V)std::get<0>(t), (V)std::get<1>(t)}); if (got.size() > m) break; } tree(c, nm + ":bfs_edge_range", got, rows, lev, s, reach); if (!r.empty()) c.die(nm + ":bfs_edge_range", "not empty() after the last edge"); }
  if constexpr (requires { typename Graph::vertex_id_type; }) {
    Pairs got; nwg::bfs_edge_range3 r(x, s); for (auto&& [u, v] : r) { got.push_back({(V)u, (V)v}); if (got.size() > m + 1) break; }
    if (reach == 1) { if (got != Pairs{{s, s}}) c.die(nm + ":bfs_edge_range3", "a seed that reaches nothing is yielded once, as a pair with itself"); } else tree(c, nm + ":bfs_edge_range3", got, rows, lev, s, reach);
    c.count("two-queue traversals");
  }
}
NWV_FAMILY(bfs, 500, 12000) {
  G g = pick(c); V s = seed_of(c, g); auto rows = out_adj(g); auto lev = bfs_levels(rows, s); size_t reach = std::count_if(lev.begin(), lev.end(), [](auto x) { return x != INF; }); note(c, g, s, reach);
  auto a = make_csr<0>(g); bfs_views(c, "adjacency", a, rows, lev, s, reach, g.e.size());
  auto el = make_el<nwg::directedness::directed>(g); nwg::vov<0> w(el); bfs_views(c, "vov", w, rows, lev, s, reach, g.e.size());
  std::vector<double> wt(g.e.size(), 1.5); auto aw = make_csr_w<0, double>(g, wt); { Pairs got; nwg::bfs_edge_range r(aw, s); for (auto&& t : r) { if (std::get<2>(t) != 1.5) c.die("weighted:bfs_edge_range", "another attribute"); got.push_back({(V)std::get<0>(t), (V)std::get<1>(t)}); if (got.size() > g.e.size()) break; } tree(c, "weighted:bfs_edge_range", got, rows, lev, s, reach); }
}
NWV_FAMILY(scale, 6, 60) {
  G g = scale_graph(c.rng, false, true); V s = seed_of(c, g); auto rows = out_adj(g); auto lev = bfs_levels(rows, s); size_t reach = std::count_if(lev.begin(), lev.end(), [](auto x) { return x != INF; }); note(c, g, s, reach);
  auto a = make_csr<0>(g); bfs_views(c, "adjacency", a, rows, lev, s, reach, g.e.size());
}
// edges the filter rejects are not there; the view ends with the edge that reaches the target
NWV_FAMILY(filtered, 500, 12000) {
  G g = pick(c); V s = seed_of(c, g), t = c.rng.below(g.n); if (g.n > 1) while (t == s) t = c.rng.below(g.n); else return; auto a = make_csr<0>(g);
  uint64_t salt = c.rng(); uint64_t rate = c.rng.of({0ul, 0ul, 20ul, 50ul, 90ul}); auto rejected = [=](V u, V v) { return mix(mix(u) ^ v ^ salt) % 100 < rate; };
  G h = g; std::erase_if(h.e, [&](auto& p) { return rejected(p.first, p.second); }); auto rows = out_adj(h); auto lev = bfs_levels(rows, s); size_t reach = std::count_if(lev.begin(), lev.end(), [](auto x) { return x != INF; }); note(c, g, s, reach); c.describe(fmt("target %u, %d%% of edges filtered", (unsigned)t, (int)rate));
  using A = decltype(a); auto flt = [&](V v, typename A::inner_iterator i) { return rejected(v, std::get<0>(*i)); };
  nwg::filtered_bfs::filtered_bfs_edge_range<A, std::queue<nwg::vertex_id_t<A>>, decltype(flt)> r(a, s, t, flt);
  Pairs got; auto i = r.begin(); for (; i != r.end(); ++i) { got.push_back({(V)i.get_index(), (V)std::get<0>(*i)}); if (got.size() > g.e.size()) break; }
  bool reachable = lev[t] != INF; if (r.found() != reachable) c.die("found", fmt("says %d, reference %d", (int)r.found(), (int)reachable));
  if (!reachable) { tree(c, "filtered", got, rows, lev, s, reach); return; }
  if (got.empty() || got.back().second != t) c.die("filtered", "does not end at the target"); std::vector<bool> seen(g.n); seen[s] = true; size_t closer = 0; for (auto l : lev) closer += l < lev[t];
  for (auto [u, v] : got) { if (!has(rows[u], v)) c.die("filtered", fmt("%u-%u is no admissible edge", u, v)); if (!seen[u] || seen[v]) c.die("filtered", fmt("%u-%u is not a tree edge", u, v)); if (lev[v] != lev[u] + 1) c.die("filtered", fmt("%u-%u is not on a shortest path", u, v)); seen[v] = true; }
  for (V v = 0; v < g.n; ++v) if (lev[v] < lev[t] && !seen[v]) c.die("filtered", fmt("%u is closer than the target but was not reached first", v)); (void)closer; c.count("targets found"); c.count("tree edges observed", got.size());
}
// every edge of a DAG once, and none before all edges into its source
static void dag_case(Ctx& c, G g) {
  if (!g.n) g.n = 1;
  std::vector<V> topo(g.n); std::iota(topo.begin(), topo.end(), 0); if (c.rng.coin()) c.rng.shuffle(topo);
  std::erase_if(g.e, [](auto& p) { return p.first == p.second; }); for (auto& [u, v] : g.e) if (topo[u] > topo[v]) std::swap(u, v);
  std::vector<std::vector<size_t>> pred(g.n), succ(g.n); std::map<std::pair<V, V>, int> left; for (auto& [u, v] : g.e) { succ[u].push_back(v); pred[v].push_back(u); ++left[{u, v}]; }
  size_t fan = 0; for (auto& p : pred) fan = std::max(fan, p.size());
  c.input(g.digest()); c.interesting(g.e.size() > 1); c.describe(g.str()); auto a = make_csr<0>(g); nwg::dag_range r(a, pred, succ); std::vector<size_t> in(g.n); size_t n = 0;
  for (auto&& [u, v, ready] : r) { if (u >= g.n || v >= g.n || left[{(V)u, (V)v}]-- <= 0) c.die("dag", fmt("%u-%u is no edge, or comes too often", (unsigned)u, (unsigned)v)); if (in[u] != pred[u].size()) c.die("dag", fmt("%u-%u comes after %zu of %zu edges into %u", (unsigned)u, (unsigned)v, in[u], pred[u].size(), (unsigned)u)); ++in[v]; if ((ready == nwg::yes) != (in[v] == pred[v].size())) c.die("dag", fmt("%u is said to be %sready", (unsigned)v, ready == nwg::yes ? "" : "not ")); if (++n > g.e.size()) break; }
  if (n != g.e.size()) c.die("dag", fmt("%zu of %zu edges", n, g.e.size())); c.count("dependency edges observed", n); c.count(fan > 255 ? "vertices with more than 255 dependencies" : "small dependency graphs");
}
NWV_FAMILY(dag, 400, 10000) { GenOpt o; o.max_n = 60; o.dups = c.rng.coin(); dag_case(c, random_graph(c.rng, o)); }
NWV_FAMILY(dag_scale, 6, 60) { dag_case(c, scale_graph(c.rng, true, true)); }
#else
// vertices in the order in which a depth-first search of the whole graph, from the seed first, finishes them
template <class Graph> static void dfs_vertices(Ctx& c, const std::string& k, Graph& x, const Adj& rows, V s) {
  size_t n = rows.size(); std::vector<V> got; nwg::dfs_range r(x, s); for (auto v : r) { got.push_back(v); if (got.size() > n) break; }
  std::vector<size_t> pos(n, n); for (size_t i = 0; i < got.size(); ++i) { if (got[i] >= n) c.die(k, "yields no vertex"); if (pos[got[i]] != n) c.die(k, fmt("yields %u twice", got[i])); pos[got[i]] = i; }
  if (got.size() != n) c.die(k, fmt("yields %zu of %zu vertices", got.size(), n));
  // roots: the seed, then each time the first vertex no earlier root reaches
  std::vector<bool> old(n); size_t at = 0; auto grow = [&](V root) { std::vector<V> st{root}; old[root] = true; size_t k2 = 1; while (!st.empty()) { V u = st.back(); st.pop_back(); for (auto v : rows[u]) if (!old[v]) { old[v] = true; ++k2; st.push_back(v); } } at += k2; if (at > n || got[at - 1] != root) c.die(k, fmt("the tree of root %u does not end with it", root)); for (size_t i = at - k2; i < at; ++i) if (!old[got[i]]) c.die(k, fmt("%u is yielded before the tree of root %u is finished", got[i], root)); };
  grow(s); for (V u = 0; u < n; ++u) if (!old[u]) grow(u);
  // an edge to a vertex that finishes later must close a cycle
  for (V u = 0; u < n; ++u) for (auto v : rows[u]) if (pos[v] > pos[u] && v != u) { auto l = bfs_levels(rows, v); if (l[u] == INF) c.die(k, fmt("%u finishes before %u, its neighbour, which does not reach it", u, v)); }
  c.count("vertices observed", n);
}
template <class Graph> static void dfs_edges(Ctx& c, const std::string& k, Graph& x, const Adj& rows, V s, size_t reach, size_t m) {
  std::vector<bool> seen(rows.size()); seen[s] = true; std::vector<V> stack{s}; size_t found = 1, n = 0; nwg::dfs_edge_range r(x, s); std::vector<uint32_t> used(rows.size());
  for (auto&& t : r) {
    bool is_tree = std::get<0>(t); V v = std::get<1>(t), u = std::get<2>(t); if (++n > (m + 2) * (rows.size() + 2)) c.die(k, "does not end"); // rows are rescanned after every child
    if (v >= rows.size() || u >= rows.size() || !has(rows[v], u)) c.die(k, fmt("yields %u-%u, which is no edge", v, u)); if (!seen[v]) c.die(k, fmt("%u-%u leaves a vertex not yet discovered", v, u));
    if (!seen[u]) {
      if (!is_tree) c.die(k, fmt("%u-%u discovers %u but is not marked as a tree edge", v, u, u));
      while (!stack.empty() && stack.back() != v) { for (auto w : rows[stack.back()]) if (!seen[w]) c.die(k, fmt("leaves %u although %u is still undiscovered", stack.back(), w)); stack.pop_back(); }
      if (stack.empty()) c.die(k, fmt("continues from %u, which is not on the current path", v)); seen[u] = true; ++found; stack.push_back(u);
    }
  }
  if (found != reach) c.die(k, fmt("discovers %zu of %zu reachable vertices", found, reach)); c.count("traversed edges observed", n); c.count("tree edges observed", found - 1);
}
NWV_FAMILY(dfs, 500, 12000) {
  G g = pick(c); V s = seed_of(c, g); auto rows = out_adj(g); auto lev = bfs_levels(rows, s); size_t reach = std::count_if(lev.begin(), lev.end(), [](auto x) { return x != INF; }); note(c, g, s, reach);
  auto a = make_csr<0>(g); dfs_vertices(c, "adjacency:dfs_range", a, rows, s); auto el = make_el<nwg::directedness::directed>(g); nwg::vov<0> w(el); dfs_vertices(c, "vov:dfs_range", w, rows, s);
}
NWV_FAMILY(dfs_scale, 2, 20) {    // long paths: a search as deep as the graph
  G g; g.n = 66000 + c.rng.below(9000); bool back = c.rng.coin(); for (V i = 0; i + 1 < g.n; ++i) if (back) g.e.push_back({i + 1, i}); else g.e.push_back({i, i + 1}); g.kind = "path"; V s = c.rng.below(g.n); note(c, g, s, back ? s + 1 : g.n - s);
  auto a = make_csr<0>(g); auto rows = out_adj(g); dfs_vertices(c, "adjacency:dfs_range", a, rows, s);
  G h = symmetric(g); auto b = make_csr<0>(h); auto hr = out_adj(h); dfs_edges(c, "adjacency:dfs_edge_range", b, hr, s, h.n, h.e.size());
}
NWV_FAMILY(dfs_edge, 500, 12000) {
  G g = pick(c, true); V s = seed_of(c, g); auto rows = out_adj(g); auto lev = bfs_levels(rows, s); size_t reach = std::count_if(lev.begin(), lev.end(), [](auto x) { return x != INF; }); note(c, g, s, reach);
  auto a = make_csr<0>(g); dfs_edges(c, "adjacency:dfs_edge_range", a, rows, s, reach, g.e.size());
}
#endif
NWV_MAIN
