// P05, a user's own graph type: edges are plain structs (the neighbour is not the first member, there is no tuple interface), the
// class says what the library needs through the customisation points only. Oracle: the generated edges and reference algorithms.
#include <nwv/edges.hpp>
#include <list>
#include <deque>
#include <nwgraph/graph_concepts.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/algorithms/bfs.hpp>
#include <nwgraph/algorithms/dijkstra.hpp>
#include <nwgraph/algorithms/delta_stepping.hpp>
#include <nwgraph/algorithms/prim.hpp>
#include <nwgraph/algorithms/maximal_independent_set.hpp>
#include <nwgraph/algorithms/jones_plassmann_coloring.hpp>
#include <nwgraph/algorithms/betweenness_centrality.hpp>
namespace mine {
struct Arc { double len; uint64_t unused; uint32_t to; };
template <class Id, class Row> class Roads {    // vertex v's arcs are kept in slot n-1-v, so that reading the storage directly gives wrong answers
  std::vector<Row> rows;
public:
  using vertex_id_type = Id; using iterator = typename std::vector<Row>::reverse_iterator; using const_iterator = typename std::vector<Row>::const_reverse_iterator;
  using value_type = Row; using reference = Row&; using const_reference = const Row&; using difference_type = std::ptrdiff_t; using size_type = size_t;
  Roads() = default; explicit Roads(size_t n) : rows(n) {}
  auto begin() { return rows.rbegin(); } auto end() { return rows.rend(); } auto begin() const { return rows.rbegin(); } auto end() const { return rows.rend(); }
  size_t size() const { return rows.size(); }
  Row& operator[](size_t i) { return rows[rows.size() - 1 - i]; } const Row& operator[](size_t i) const { return rows[rows.size() - 1 - i]; }
};
template <class Id, class Row> Id tag_invoke(const nw::graph::target_tag, const Roads<Id, Row>&, const Arc& a) { return (Id)(a.to - 7); }    // stored with an offset
template <class Id, class Row> size_t tag_invoke(const nw::graph::num_vertices_tag, const Roads<Id, Row>& r) { return r.size(); }
inline size_t tag_invoke(const nw::graph::degree_tag, const std::vector<Arc>& r) { return r.size(); }
inline size_t tag_invoke(const nw::graph::degree_tag, const std::deque<Arc>& r) { return r.size(); }
inline size_t tag_invoke(const nw::graph::degree_tag, const std::list<Arc>& r) { return r.size(); }
template <class Id, class Row> size_t tag_invoke(const nw::graph::degree_tag, const Roads<Id, Row>& r, size_t v) { return r[v].size(); }
}
using namespace nwv;
template <class F> static void shapes(Ctx& c, const G& g, const std::vector<double>& w, bool und, F&& f) {
  auto make = [&](auto& r) { for (size_t i = 0; i < g.e.size(); ++i) { auto [a, b] = g.e[i]; r[a].push_back({w[i], ~0ull, b + 7}); if (und) r[b].push_back({w[i], ~0ull, a + 7}); } };
  auto one = [&](const char* nm, auto r) { make(r); static_assert(nwg::adjacency_list_graph<decltype(r)>); c.count(std::string("user graph type ") + nm); f(std::string(nm), r); };
  switch (c.rng.below(4)) { case 0: one("vector rows", mine::Roads<uint32_t, std::vector<mine::Arc>>(g.n)); break; case 1: one("list rows", mine::Roads<uint32_t, std::list<mine::Arc>>(g.n)); break;
    case 2: one("deque rows", mine::Roads<uint64_t, std::deque<mine::Arc>>(g.n)); break; default: if (g.n < 60000) one("16-bit ids", mine::Roads<uint16_t, std::vector<mine::Arc>>(g.n)); else one("signed ids", mine::Roads<int, std::vector<mine::Arc>>(g.n)); }
}
static G pick(Ctx& c, bool simple = false) {
  GenOpt o; o.simple_undirected = simple; o.max_n = c.thorough ? 300 : 90; G g = random_graph(c.rng, o); c.input(g.digest()); c.interesting(g.e.size() >= 2); c.describe(g.str()); return g;
}
static std::vector<double> lengths(Ctx& c, const G& g) { std::vector<double> w(g.e.size()); for (auto& x : w) x = (double)c.rng.below(40); return w; }
NWV_FAMILY(user_views, 150, 3000) {
  G g = pick(c); bool und = c.rng.coin(); Adj ref = und ? und_adj(g) : out_adj(g); for (auto& r : ref) std::sort(r.begin(), r.end());
  shapes(c, g, lengths(c, g), und, [&](const std::string& nm, auto& r) {
    if ((size_t)nwg::num_vertices(r) != g.n) c.die(nm + ":num_vertices", "wrong"); size_t u = 0;
    for (auto&& [i] : nwg::plain_range(r)) { if ((size_t)i != u) c.die(nm + ":plain_range", fmt("vertex %zu out of order", u)); ++u; } if (u != g.n) c.die(nm + ":plain_range", fmt("%zu of %zu vertices", u, g.n)); u = 0;
    for (auto&& [i, row] : nwg::make_neighbor_range(r)) {
      if ((size_t)i != u) c.die(nm + ":neighbor_range", fmt("row %zu out of order", u)); std::vector<V> a; for (auto&& e : row) a.push_back((V)nwg::target(r, e)); std::sort(a.begin(), a.end());
      if (u >= g.n || a != ref[u]) c.die(nm + ":neighbor_range", fmt("row %zu is not the vertex's", u)); if ((size_t)nwg::degree(row) != a.size()) c.die(nm + ":degree", "wrong"); ++u; c.count("arcs compared", a.size());
    }
    if (u != g.n) c.die(nm + ":neighbor_range", fmt("%zu of %zu rows", u, g.n));
  });
}
NWV_FAMILY(user_searches, 150, 3000) {
  G g = pick(c); if (!g.n) return; bool und = c.rng.coin(); Adj ref = und ? und_adj(g) : out_adj(g); V root = c.rng.below(g.n); auto lv = bfs_levels(ref, root);
  G rev = g; for (auto& [a, b] : rev.e) std::swap(a, b); auto w = lengths(c, g);
  shapes(c, g, w, und, [&](const std::string& nm, auto& r) {
    using Graph = std::decay_t<decltype(r)>; using id = nwg::vertex_id_t<Graph>; auto p = nwg::bfs(r, (id)root); if (p.size() != g.n) c.die(nm + ":bfs", "wrong length");
    for (size_t v = 0; v < g.n; ++v) {
      bool reached = p[v] != std::numeric_limits<id>::max(); if (reached != (lv[v] != INF)) c.die(nm + ":bfs", fmt("vertex %zu: reached %d", v, (int)reached));
      if (reached && v != root && (lv[p[v]] + 1 != lv[v] || std::find(ref[p[v]].begin(), ref[p[v]].end(), (V)v) == ref[p[v]].end())) c.die(nm + ":bfs", fmt("vertex %zu: parent %zu is not one hop nearer", v, (size_t)p[v]));
    }
    c.count("bfs trees"); Graph t(g.n); for (size_t i = 0; i < rev.e.size(); ++i) { auto [a, b] = rev.e[i]; t[a].push_back({w[i], 0, b + 7}); if (und) t[b].push_back({w[i], 0, a + 7}); }
    if (!nwg::BFSVerifier(r, t, (id)root, p)) c.die(nm + ":BFSVerifier", "rejects a right tree"); auto q = p; bool broke = false;
    for (size_t v = 0; v < g.n && !broke; ++v) if (v != root && p[v] != std::numeric_limits<id>::max()) for (size_t x = 0; x < g.n; ++x) if (lv[x] != INF && lv[x] + 1 != lv[v]) { q[v] = (id)x; broke = true; break; }
    if (broke && nwg::BFSVerifier(r, t, (id)root, q)) c.die(nm + ":BFSVerifier", "accepts a parent that is not one hop nearer"); c.count("verdicts compared", 1 + broke);
  });
}
NWV_FAMILY(user_distances, 150, 3000) {
  G g = pick(c); if (!g.n) return; bool und = c.rng.coin(); V root = c.rng.below(g.n); auto w = lengths(c, g); std::vector<std::tuple<V, V, double>> es; const double inf = std::numeric_limits<double>::max();
  for (size_t i = 0; i < g.e.size(); ++i) { auto [a, b] = g.e[i]; es.push_back({a, b, w[i]}); if (und) es.push_back({b, a, w[i]}); } auto want = sssp<double>(g.n, es, root, inf); double delta = c.rng.of({1., 7., 100.}); 
  shapes(c, g, w, und, [&](const std::string& nm, auto& r) {
    using id = nwg::vertex_id_t<std::decay_t<decltype(r)>>; auto len = [](const auto& e) -> double { return e.len; };
    auto same = [&](const char* what, const auto& d) { if (d.size() != g.n) c.die(nm + what, "wrong length"); for (size_t v = 0; v < g.n; ++v) if ((double)d[v] != want[v]) c.die(nm + what, fmt("vertex %zu: %g instead of %g", v, (double)d[v], want[v])); c.count("distances compared", g.n); };
    same(":dijkstra", nwg::dijkstra<double>(r, (id)root, len)); Threads th(c.rng); same(":delta_stepping", nwg::delta_stepping<double>(r, (id)root, delta, len));
  });
}
NWV_FAMILY(user_trees_sets_colours, 150, 3000) {
  G g = pick(c, true); if (!g.n) return; Adj ref = und_adj(g); V root = c.rng.below(g.n); auto lv = bfs_levels(ref, root); auto w = lengths(c, g);
  shapes(c, g, w, true, [&](const std::string& nm, auto& r) {
    using Graph = std::decay_t<decltype(r)>; using id = nwg::vertex_id_t<Graph>; std::vector<size_t> m; nwg::maximal_independent_set(r, m); std::vector<char> in(g.n);
    for (auto v : m) { if (v >= g.n || in[v]) c.die(nm + ":mis", "not a vertex or listed twice"); in[v] = 1; } for (size_t v = 0; v < g.n; ++v) { size_t k = 0; for (auto x : ref[v]) k += in[x]; if (in[v] ? k > 0 : k == 0) c.die(nm + ":mis", fmt("vertex %zu: in the set %d, neighbours in the set %zu", v, (int)in[v], k)); }
    std::vector<size_t> col(g.n); nwg::jones_plassmann_coloring(r, col); for (size_t v = 0; v < g.n; ++v) for (auto x : ref[v]) if (col[v] == col[x]) c.die(nm + ":colouring", fmt("vertices %zu and %u share colour %zu", v, x, col[v]));
    auto p = nwg::prim<Graph, double>(r, (id)root, [](const auto& e) -> double { return e.len; }); double got = 0, best = 0; size_t reach = 0;
    std::map<std::pair<V, V>, double> wt; for (size_t i = 0; i < g.e.size(); ++i) { auto [a, b] = g.e[i]; wt[{std::min(a, b), std::max(a, b)}] = w[i]; }
    for (size_t v = 0; v < g.n; ++v) { bool has = p[v] != std::numeric_limits<id>::max(); if (v == root) continue; if (has != (lv[v] != INF)) c.die(nm + ":prim", fmt("vertex %zu: in the tree %d", v, (int)has)); if (has) { auto it = wt.find({(V)std::min<size_t>(v, p[v]), (V)std::max<size_t>(v, p[v])}); if (it == wt.end()) c.die(nm + ":prim", "not an edge"); got += it->second; ++reach; } }
    std::vector<std::tuple<double, V, V>> s; for (auto& [k, x] : wt) if (lv[k.first] != INF) s.push_back({x, k.first, k.second}); std::sort(s.begin(), s.end()); std::vector<V> uf(g.n); std::iota(uf.begin(), uf.end(), 0); auto find = [&](V x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
    for (auto& [x, a, b] : s) { V i = find(a), j = find(b); if (i != j) { uf[i] = j; best += x; } } if (got != best) c.die(nm + ":prim", fmt("weight %g, the minimum is %g", got, best)); c.count("answers checked", 3);
  });
}
NWV_FAMILY(user_scores, 120, 2000) {
  G g = pick(c); if (!g.n) return; bool und = c.rng.coin(); Adj ref = und ? und_adj(g) : out_adj(g); size_t n = g.n;
  std::vector<double> want(n, 0);    // path counting by definition
  for (V s = 0; s < n; ++s) { auto lv = bfs_levels(ref, s); std::vector<V> ord; for (V v = 0; v < n; ++v) if (lv[v] != INF) ord.push_back(v); std::stable_sort(ord.begin(), ord.end(), [&](V a, V b) { return lv[a] < lv[b]; }); std::vector<double> sg(n, 0), dp(n, 0); sg[s] = 1;
    for (auto v : ord) for (auto x : ref[v]) if (lv[x] == lv[v] + 1) sg[x] += sg[v]; for (size_t i = ord.size(); i--;) { V v = ord[i]; for (auto x : ref[v]) if (lv[x] == lv[v] + 1) dp[v] += sg[v] / sg[x] * (1 + dp[x]); if (v != s) want[v] += dp[v]; } }
  shapes(c, g, lengths(c, g), und, [&](const std::string& nm, auto& r) {
    using Graph = std::decay_t<decltype(r)>; auto b = nwg::brandes_bc<Graph, double, double>(r, false); if (b.size() != n) c.die(nm + ":brandes_bc", "wrong length");
    for (size_t v = 0; v < n; ++v) if (std::abs(b[v] - want[v]) > 1e-7 * (1 + std::abs(want[v]))) c.die(nm + ":brandes_bc", fmt("vertex %zu: %g instead of %g", v, (double)b[v], want[v])); c.count("scores compared", n);
  });
}
NWV_MAIN
