// P07: the views of a graph enumerate what they document, each exactly once, in row order.
// Oracle: the rows of the generated edge list.
#include <nwv/edges.hpp>
#include <nwgraph/vovos.hpp>
#include <nwgraph/adaptors/back_edge_range.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/adaptors/vertex_range.hpp>
#include <nwgraph/adaptors/cyclic_range_adaptor.hpp>
#include <nwgraph/adaptors/cyclic_neighbor_range.hpp>
#include <nwgraph/adaptors/random_range.hpp>
#include <nwgraph/adaptors/reverse.hpp>
#include <nwgraph/adaptors/worklist.hpp>
using namespace nwv;
using Row = std::tuple<uint32_t, double, std::string>;
using Full = std::tuple<V, V, double, std::string>;

static G pick(Ctx& c) {
  GenOpt o; o.max_n = c.thorough ? 200 : 60; o.loops = c.rng.coin(); o.dups = c.rng.coin();
  G g = random_graph(c.rng, o);
  // empty rows in every position matter to these views
  if (c.rng.coin(3)) { size_t lead = c.rng.below(40), trail = c.rng.below(40); for (auto& [a, b] : g.e) { a += lead; b += lead; } g.n += lead + trail; g.kind += "+pad"; }
  c.input(g.digest()); c.interesting(g.e.size() >= 2); c.describe(g.str());
  return g;
}
// (row, entry) pairs in the order of the container's rows
template <class Graph> static std::vector<Full> truth(Graph& g) { std::vector<Full> v; V u = 0; for (auto&& row : g) { for (auto&& e : row) v.push_back(Full{u, (V)std::get<0>(e), std::get<1>(e), std::string(std::get<2>(e))}); ++u; } return v; }

template <class Graph> static void edge_views(Ctx& c, const std::string& nm, Graph& g, const std::vector<Full>& want, const std::vector<size_t>& rowsize) {
  std::string op = nm + ":edge_range";
  { size_t i = 0; auto r = nwg::make_edge_range<0, 1>(g);
    for (auto&& [u, v, w, s] : r) { if (i >= want.size()) c.die(op, "more edges than the graph has"); if (!(Full{(V)u, (V)v, w, s} == want[i])) c.die(op, fmt("edge %zu: %s instead of %s", i, show(Full{(V)u, (V)v, w, s}).c_str(), show(want[i]).c_str())); ++i; }
    if (i != want.size()) c.die(op, fmt("%zu of %zu edges", i, want.size()));
    if (r.empty() != want.empty()) c.die(op, "empty() is wrong");
    if (r.size() != rowsize.size()) c.die(op, "size() is not the number of rows");
    c.count("edges enumerated", i); }
  { size_t i = 0; for (auto&& [u, v] : nwg::make_edge_range(g)) { if (i >= want.size() || (V)u != std::get<0>(want[i]) || (V)v != std::get<1>(want[i])) c.die(op + "<>", fmt("edge %zu", i)); ++i; } if (i != want.size()) c.die(op + "<>", fmt("%zu of %zu edges", i, want.size())); }
  { size_t i = 0; for (auto&& [u, v, s] : nwg::make_edge_range<1>(g)) { if (i >= want.size() || s != std::get<3>(want[i])) c.die(op + "<1>", fmt("edge %zu has another attribute", i)); ++i; } if (i != want.size()) c.die(op + "<1>", fmt("%zu of %zu edges", i, want.size())); }
  { const auto r = nwg::make_edge_range<1, 0>(g); size_t i = 0;
    for (auto it = r.begin(); it != r.end(); ++it) { auto [u, v, s, w] = *it; if (i >= want.size() || s != std::get<3>(want[i]) || w != std::get<2>(want[i])) c.die(op + "<1,0> const", fmt("edge %zu", i)); ++i; }
    if (i != want.size()) c.die(op + " const", fmt("%zu of %zu edges", i, want.size())); }
  { // iterator identities: copies, post-increment, equality only at the same edge
    auto r = nwg::make_edge_range<0, 1>(g); auto a = r.begin(), e = r.end(); size_t i = 0;
    while (a != e) { auto b = a; if (!(b == a)) c.die(op + ":copy", "a copy compares unequal"); auto old = a++; if (old != b) c.die(op + ":post-increment", "returned iterator moved"); if (a == b) c.die(op + ":equality", fmt("iterators at edges %zu and %zu compare equal", i, i + 1)); ++i; if (i > want.size()) c.die(op, "does not end"); }
    if (i != want.size()) c.die(op + ":post-increment", fmt("%zu of %zu edges", i, want.size())); }
  { size_t off = c.rng.below(rowsize.size() + 1), skip = 0; for (size_t k = 0; k < off; ++k) skip += rowsize[k];
    size_t i = skip; for (auto&& [u, v] : nwg::make_edge_range(g, off)) { if (i >= want.size() || (V)u != std::get<0>(want[i]) || (V)v != std::get<1>(want[i])) c.die(op + ":offset", fmt("edge %zu from row %zu on", i, off)); ++i; } if (i != want.size()) c.die(op + ":offset", fmt("%zu of %zu edges from row %zu on", i - skip, want.size() - skip, off));
    const auto r = nwg::make_edge_range<0>(g, off); i = skip; for (auto&& [u, v, w] : r) { if (i >= want.size() || (V)u != std::get<0>(want[i]) || (V)v != std::get<1>(want[i]) || w != std::get<2>(want[i])) c.die(op + ":const offset", fmt("edge %zu from row %zu on", i, off)); ++i; } if (i != want.size()) c.die(op + ":const offset", fmt("%zu of %zu edges from row %zu on", i - skip, want.size() - skip, off));
    if ((size_t)r.size() != rowsize.size() - off || r.empty() != (skip == want.size())) c.die(op + ":offset", "size() or empty()");
    c.count("ranges from an offset"); }
  { // the attributes are references into the graph
    auto r = nwg::make_edge_range<0>(g); for (auto&& [u, v, w] : r) w += 1; size_t i = 0; for (auto&& [u, v, w] : nwg::make_edge_range<0>(g)) { if (w != std::get<2>(want[i]) + 1) c.die(op + ":write", fmt("writing through edge %zu did not reach exactly that edge", i)); ++i; }
    for (auto&& [u, v, w] : r) w -= 1; }
}
template <class Graph> static void row_views(Ctx& c, const std::string& nm, Graph& g, const std::vector<Full>& want, const std::vector<size_t>& rowsize) {
  size_t n = rowsize.size();
  std::vector<std::vector<Full>> rows(n); for (auto& t : want) rows[std::get<0>(t)].push_back(t);
  size_t off = c.rng.below(n + 1);
  for (size_t o : {size_t(0), off}) {
    std::string at = o ? fmt(" from %zu", o) : "";
    size_t u = o; auto pr = nwg::make_plain_range(g, o);
    for (auto&& [i] : pr) { if ((size_t)i != u) c.die(nm + ":plain_range", fmt("%zu instead of %zu", (size_t)i, u) + at); ++u; } if (u != n) c.die(nm + ":plain_range", fmt("stops at %zu of %zu", u, n) + at);
    if (pr.size() != n - o || pr.empty() != (n == o)) c.die(nm + ":plain_range", "size() or empty()");
    u = o; auto nr = nwg::make_neighbor_range(g, o);
    for (auto&& [i, row] : nr) { if ((size_t)i != u) c.die(nm + ":neighbor_range", fmt("%zu instead of %zu", (size_t)i, u) + at); size_t k = 0; for (auto&& e : row) { if (k >= rows[u].size() || (V)std::get<0>(e) != std::get<1>(rows[u][k]) || std::get<2>(e) != std::get<3>(rows[u][k])) c.die(nm + ":neighbor_range", fmt("entry %zu of row %zu", k, u) + at); ++k; } if (k != rows[u].size()) c.die(nm + ":neighbor_range", fmt("%zu of %zu entries of row %zu", k, rows[u].size(), u)); ++u; }
    if (u != n) c.die(nm + ":neighbor_range", fmt("stops at %zu of %zu", u, n) + at);
    if (nr.size() != n - o || nr.empty() != (n == o)) c.die(nm + ":neighbor_range", "size() or empty()");
    const auto cpr = pr; u = o; for (auto it = cpr.begin(); it != cpr.end(); ++it) { auto [i] = *it; if ((size_t)i != u) c.die(nm + ":plain_range const", "order"); ++u; } if (u != n) c.die(nm + ":plain_range const", "count");
    c.count("rows enumerated", n - o);
  }
  if constexpr (requires { (*g.begin()).size(); }) {
    size_t u = 0; nwg::plain_degree_range dr(g);
    for (auto&& [i, d] : dr) { if ((size_t)i != u || (size_t)d != rowsize[u]) c.die(nm + ":plain_degree_range", fmt("vertex %zu, degree %zu; expected %zu, %zu", (size_t)i, (size_t)d, u, rowsize[u])); ++u; }
    if (u != n || dr.size() != n) c.die(nm + ":plain_degree_range", fmt("stops at %zu of %zu", u, n));
    c.count("degrees enumerated", n);
  }
  { size_t u = 0; for (auto&& i : nwg::vertex_range<Graph>(n)) { if ((size_t)i != u) c.die(nm + ":vertex_range", fmt("%zu instead of %zu", (size_t)i, u)); ++u; } if (u != n) c.die(nm + ":vertex_range", fmt("stops at %zu of %zu", u, n)); nwg::vertex_range<Graph> vr(n); if ((size_t)vr.size() != n || vr.empty() != (n == 0)) c.die(nm + ":vertex_range", "size() or empty()"); }
  { size_t cut = c.rng.range(1, 20), u = 0; auto cy = nwg::cyclic(g, cut);
    for (auto&& row : cy) { size_t k = 0; for (auto&& e : row) { if (k >= rows[u].size() || (V)std::get<0>(e) != std::get<1>(rows[u][k])) c.die(nm + ":cyclic", fmt("row %zu", u)); ++k; } if (k != rows[u].size()) c.die(nm + ":cyclic", fmt("row %zu", u)); ++u; }
    if (u != n || (size_t)cy.size() != n || cy.empty() != (n == 0)) c.die(nm + ":cyclic", fmt("stops at %zu of %zu", u, n));
    nwg::cyclic_neighbor_range<decltype(g.begin())> cn(g, cut); u = 0;
    for (auto&& [i, row] : cn) { if ((size_t)i != u) c.die(nm + ":cyclic_neighbor_range", fmt("%zu instead of %zu", (size_t)i, u)); size_t k = 0; for (auto&& e : row) { if (k >= rows[u].size() || (V)std::get<0>(e) != std::get<1>(rows[u][k])) c.die(nm + ":cyclic_neighbor_range", fmt("row %zu", u)); ++k; } if (k != rows[u].size()) c.die(nm + ":cyclic_neighbor_range", fmt("row %zu", u)); ++u; }
    if (u != n || (size_t)cn.size() != n || cn.empty() != (n == 0)) c.die(nm + ":cyclic_neighbor_range", fmt("stops at %zu of %zu", u, n));
  }
}
template <class Graph> static void views(Ctx& c, const std::string& nm, Graph& g, size_t n) {
  auto want = truth(g); std::vector<size_t> rs(n); for (auto& t : want) ++rs[std::get<0>(t)];
  edge_views(c, nm, g, want, rs); row_views(c, nm, g, want, rs); c.count("graphs viewed");
}
#if PART == 0
NWV_FAMILY(compressed, 400, 6000) {
  G g = pick(c); auto es = with_attrs<double, std::string>(g);
  auto go = [&](auto dir) {
    nwg::edge_list<decltype(dir)::value, double, std::string> el(g.n); push_all(el, es);
    nwg::adjacency<0, double, std::string> a(el, c.rng.coin()); views(c, "adjacency", a, g.n);
    auto want = truth(a); const auto& ca = a; size_t i = 0;
    for (auto&& [u, v] : nwg::make_edge_range(ca)) { if (i >= want.size() || (V)u != std::get<0>(want[i]) || (V)v != std::get<1>(want[i])) c.die("const adjacency:edge_range", fmt("edge %zu", i)); ++i; } if (i != want.size()) c.die("const adjacency:edge_range", fmt("%zu of %zu edges", i, want.size()));
    size_t u = 0; for (auto&& [k] : nwg::make_plain_range(ca)) { if ((size_t)k != u) c.die("const adjacency:plain_range", "order"); ++u; } if (u != g.n) c.die("const adjacency:plain_range", "count");
    u = 0; for (auto&& [k, row] : nwg::make_neighbor_range(ca)) { if ((size_t)k != u) c.die("const adjacency:neighbor_range", "order"); ++u; } if (u != g.n) c.die("const adjacency:neighbor_range", "count");
  };
  if (c.rng.coin()) go(std::integral_constant<nwg::directedness, nwg::directedness::undirected>{}); else go(std::integral_constant<nwg::directedness, nwg::directedness::directed>{});
}
NWV_FAMILY(scale, 3, 40) {
  G g = scale_graph(c.rng); c.input(g.digest()); c.interesting(true); c.describe(g.str()); auto es = with_attrs<double, std::string>(g);
  nwg::edge_list<nwg::directedness::directed, double, std::string> el(g.n); push_all(el, es); nwg::adjacency<0, double, std::string> a(el); views(c, "adjacency", a, g.n);
}
// every edge has a back edge: the first edge the other way if there is one, else an extra edge without properties
NWV_FAMILY(back_edges, 300, 6000) {
  G g = pick(c); auto es = with_attrs<double, int>(g); nwg::edge_list<nwg::directedness::directed, double, int> el(g.n); push_all(el, es); nwg::adjacency<0, double, int> a(el, c.rng.coin());
  using E3 = std::tuple<V, double, int>; std::vector<std::vector<E3>> rows(g.n); std::vector<std::vector<const double*>> at(g.n); { V u = 0; for (auto&& row : a) { for (auto&& e : row) { rows[u].push_back(E3{(V)std::get<0>(e), std::get<1>(e), std::get<2>(e)}); at[u].push_back(&std::get<1>(e)); } ++u; } }
  auto first = [&](V u, V v) { for (size_t k = 0; k < rows[u].size(); ++k) if (std::get<0>(rows[u][k]) == v) return (long)k; return -1L; };
  std::vector<E> ask; std::vector<std::set<V>> extra(g.n); for (V u = 0; u < g.n; ++u) for (auto& t : rows[u]) { V v = std::get<0>(t); ask.push_back({u, v}); if (first(v, u) < 0) extra[v].insert(u); } c.rng.shuffle(ask);
  bool lazy = c.rng.coin(); std::string k = lazy ? "back_edge_range as needed" : "back_edge_range"; nwg::back_edge_range r(a, lazy); c.check((size_t)r.size() == g.n, k.c_str(), "size()");
  auto enumerate = [&](bool extras) { V u = 0; size_t total = 0; for (auto it = r.begin(); it != r.end(); ++it, ++u) { if (u >= g.n) c.die(k, "more rows than vertices"); if ((V)it.get_index() != u) c.die(k, "get_index()"); std::vector<E3> got; auto row = *it; auto e = row.end(); for (auto i = row.begin(); i != e; ++i) { auto x = *i; got.push_back(E3{(V)std::get<0>(x), (double)std::get<1>(x), (int)std::get<2>(x)}); if (got.size() > g.n + rows[u].size() + 2) break; }
    auto want = rows[u]; if (extras) for (V x : extra[u]) want.push_back(E3{x, 0, 0}); if (!std::equal(got.begin(), got.begin() + std::min(got.size(), rows[u].size()), rows[u].begin(), rows[u].begin() + std::min(got.size(), rows[u].size()))) c.die(k, fmt("row %u does not begin with the row of the graph", u)); auto d = differ(got, want); if (!d.empty()) c.die(k, fmt("row %u: ", u) + d); total += got.size(); } if (u != g.n) c.die(k, fmt("%u of %zu rows", u, g.n)); c.count("edges and back edges enumerated", total); };
  if (!lazy || c.rng.coin()) enumerate(!lazy);
  std::map<E, const double*> given;
  for (int round = 0; round < 2; ++round) for (auto [u, v] : ask) {
    auto t = r.get_back_edge(u, v); long f = first(v, u); if ((V)std::get<0>(t) != u) c.die(k + ":get_back_edge", fmt("the back edge of %u-%u leads to %u", u, v, (V)std::get<0>(t)));
    if (f >= 0) { bool mine = false; for (size_t i = 0; i < rows[v].size(); ++i) mine |= std::get<0>(rows[v][i]) == u && &std::get<1>(t) == at[v][i] && E3{u, std::get<1>(t), std::get<2>(t)} == rows[v][i]; if (!mine) c.die(k + ":get_back_edge", fmt("the back edge of %u-%u is not an edge of the graph", u, v)); c.count("real back edges"); }
    else { if (std::get<1>(t) != 0 || std::get<2>(t) != 0) c.die(k + ":get_back_edge", fmt("the added back edge of %u-%u has properties", u, v)); c.count("added back edges"); }
    auto [pos, fresh] = given.insert({{u, v}, &std::get<1>(t)}); if (!fresh && pos->second != &std::get<1>(t)) c.die(k + ":get_back_edge", fmt("the back edge of %u-%u moved", u, v));
  }
  enumerate(true);
  for (V v = 0; v < g.n; ++v) for (V u : extra[v]) { auto t = r.get_back_edge(v, u); long f = first(u, v); if (f < 0 || (V)std::get<0>(t) != v) c.die(k + ":added", fmt("the back edge of the added %u-%u is not %u-%u", v, u, u, v)); bool mine = false; for (size_t i = 0; i < rows[u].size(); ++i) mine |= &std::get<1>(t) == at[u][i]; if (!mine) c.die(k + ":added", "is not an edge of the graph"); }
  { V u = 0; for (auto&& row : a) { size_t i = 0; for (auto&& e : row) { if (!(E3{(V)std::get<0>(e), std::get<1>(e), std::get<2>(e)} == rows[u][i])) c.die(k + ":graph", fmt("edge %zu of row %u was changed by looking for back edges", i, u)); ++i; } ++u; } }
}
// rows filtered away after construction are skipped like any other empty row; a biadjacency has rows of one side only
NWV_FAMILY(bipartite, 200, 3000) {
  G g = pick(c); size_t nl = g.n + c.rng.below(5), nr = g.n + c.rng.below(30);
  nwg::bi_edge_list<nwg::directedness::directed, double, std::string> el(nl, nr); auto es = with_attrs<double, std::string>(g); push_all(el, es);
  nwg::biadjacency<0, double, std::string> a(el); nwg::biadjacency<1, double, std::string> b(el);
  auto one = [&](const std::string& nm, auto& x, size_t n) {
    auto want = truth(x); if (x.size() != n) c.die(nm + ":rows", "wrong number of rows"); size_t i = 0;
    for (auto&& [u, v, w, s] : nwg::make_edge_range<0, 1>(x)) { if (i >= want.size() || !(Full{(V)u, (V)v, w, s} == want[i])) c.die(nm + ":edge_range", fmt("edge %zu", i)); ++i; } if (i != want.size()) c.die(nm + ":edge_range", fmt("%zu of %zu edges", i, want.size()));
    size_t u = 0; for (auto&& [k, row] : nwg::make_neighbor_range(x)) { if ((size_t)k != u) c.die(nm + ":neighbor_range", "order"); ++u; } if (u != n) c.die(nm + ":neighbor_range", "count");
    c.count("edges enumerated", i);
  };
  one("biadjacency<0>", a, nl); one("biadjacency<1>", b, nr);
}
#else
NWV_FAMILY(vectors, 300, 5000) {
  G g = pick(c); auto es = with_attrs<double, std::string>(g);
  nwg::edge_list<nwg::directedness::directed, double, std::string> el(g.n); push_all(el, es);
  nwg::vov<0, double, std::string> a(el); views(c, "vov", a, g.n);
  std::vector<std::vector<Row>> s(g.n); for (auto& [u, v, w, t] : es) s[u].push_back(Row{v, w, t}); views(c, "vector<vector>", s, g.n);
}
// a random walk of the requested length follows edges of the graph, starting where asked, and repeats under the same seed
NWV_FAMILY(random_walks, 300, 5000) {
  G g = pick(c); if (!g.n) return; for (V u = 0; u < g.n; ++u) g.e.push_back({u, (V)c.rng.below(g.n)});
  auto a = make_csr<0>(g); auto rows = out_adj(g); size_t len = c.rng.below(200); V s = c.rng.below(g.n); unsigned seed = c.rng.below(1000);
  std::vector<V> w; for (auto&& v : nwg::random_range(a, len, s, seed)) { w.push_back(v); if (w.size() > len) c.die("random_range", "walk longer than asked"); }
  if (w.size() != len) c.die("random_range", fmt("%zu of %zu steps", w.size(), len));
  if (len && w[0] != s) c.die("random_range", "does not start at the starting vertex");
  for (size_t i = 1; i < len; ++i) if (w[i] >= g.n || std::find(rows[w[i - 1]].begin(), rows[w[i - 1]].end(), w[i]) == rows[w[i - 1]].end()) c.die("random_range", fmt("step %zu is not an edge", i));
  std::vector<V> w2; for (auto&& v : nwg::random_range(a, len, s, seed)) w2.push_back(v);
  if (w2 != w) c.die("random_range", "the same seed gives another walk");
  c.count("walk steps", len);
}
// enough steps from one vertex reach each of its neighbours
NWV_FAMILY(random_cover, 40, 200) {
  size_t k = c.rng.range(1, 12); G g; g.n = k + 1; for (V i = 1; i <= k; ++i) { g.e.push_back({0, i}); g.e.push_back({i, 0}); }
  auto a = make_csr<0>(g); std::set<V> seen; for (auto&& v : nwg::random_range(a, 4000, 0, (unsigned)c.rng.below(100))) seen.insert(v);
  c.input(k); c.interesting(true); if (seen.size() != k + 1) c.die("random_range", fmt("a long walk on a star with %zu leaves saw only %zu vertices", k, seen.size()));
}
struct Pred { uint32_t predecessor; };
NWV_FAMILY(reverse_paths, 200, 3000) {
  size_t n = c.rng.range(1, 50); std::vector<V> perm(n); std::iota(perm.begin(), perm.end(), 0); c.rng.shuffle(perm);
  std::vector<Pred> p(n); for (auto& x : p) x.predecessor = c.rng.below(n);
  size_t len = c.rng.below(n); for (size_t i = 0; i < len; ++i) p[perm[i]].predecessor = perm[i + 1];
  c.input(n * 1000 + len); c.interesting(len >= 1);
  nwg::reverse_path<Pred, uint32_t> rp(p, perm[0], perm[len]);
  for (int pass = 0; pass < 2; ++pass) { size_t i = 0; for (auto&& [v] : rp) { if (i >= len || v != perm[i]) c.die("reverse_path", fmt("position %zu of %zu (pass %d)", i, len, pass)); ++i; } if (i != len) c.die("reverse_path", fmt("%zu of %zu vertices (pass %d)", i, len, pass)); }
  c.count("paths");
}
NWV_FAMILY(worklists, 200, 3000) {
  auto g = make_csr<0>(pick(c)); nwg::worklist_range<decltype(g), std::pair<int, int>> wl(g); std::deque<std::pair<int, int>> model; int id = 0;
  auto push = [&] { std::pair<int, int> x{id++, (int)c.rng.below(100)}; wl.push_back(x); model.push_back(x); };
  size_t pre = c.rng.below(10), limit = 100; for (size_t i = 0; i < pre; ++i) push();
  if (wl.empty() != model.empty()) c.die("worklist_range", "empty()");
  size_t seen = 0; for (auto&& x : wl) { if (model.empty() || model.front() != x) c.die("worklist_range", "not in order of insertion"); ++seen; for (size_t k = c.rng.below(3); k-- && id < (int)limit;) push(); model.pop_front(); }
  if (!model.empty() || seen != (size_t)id) c.die("worklist_range", fmt("%zu of %d items", seen, id));
  c.count("work items", seen);
}
#endif
NWV_MAIN
