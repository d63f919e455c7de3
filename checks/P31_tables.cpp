// P31: data-to-graph builders keep names and relations. Oracle: the tables.
#include <nwv/nw.hpp>
using namespace nwv;
using std::size_t; using std::string; using std::tuple;
template <class K> static std::vector<K> names(Ctx& c, size_t n, const char* prefix) {
  std::set<K> s; while (s.size() < n) { uint64_t x = c.rng.below(4 * n + 10); if constexpr (std::is_same_v<K, string>) s.insert(prefix + std::to_string(x) + (c.rng.coin(0.2) ? " with a longer name, to leave the small buffer" : "")); else if constexpr (std::is_same_v<K, double>) s.insert((double)x / 8 - 3); else if constexpr (std::is_same_v<K, tuple<string, int>>) s.insert(K{"t" + std::to_string(x % 7), (int)x}); else s.insert((K)(x * 7 - 100)); }
  std::vector<K> v(s.begin(), s.end()); c.rng.shuffle(v); return v;
}
using Rows = std::vector<std::vector<size_t>>;
using Rows2 = std::vector<std::vector<tuple<size_t, size_t>>>;
template <class R> static R norm(R r) { for (auto& x : r) std::sort(x.begin(), x.end()); return r; }
template <class R> static string rowdiff(const R& got, const R& want) { if (got.size() != want.size()) return fmt("%zu rows instead of %zu", got.size(), want.size()); for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) return fmt("row %zu: %zu entries, %zu expected, or another content", i, got[i].size(), want[i].size()); return ""; }
struct Table { size_t n; std::vector<std::pair<size_t, size_t>> e; };
static Table table(Ctx& c) { GenOpt o; o.max_n = c.thorough ? 100 : 40; G g = random_graph(c.rng, o); if (c.rng.coin(0.2)) g.n += 1 + c.rng.below(10); Table t{g.n, {}}; for (auto& [a, b] : g.e) t.e.push_back({a, b}); c.input(g.digest()); c.interesting(t.e.size() > 1); c.describe(g.str()); return t; }
template <class K> static void unipartite(Ctx& c, const string& nm) {
  Table t = table(c); auto vs = names<K>(c, t.n, "v"); auto map = nwg::make_index_map(vs);
  if (map.size() != t.n) c.die(nm + ":index_map", "size"); for (size_t i = 0; i < t.n; ++i) if (map.at(vs[i]) != i) c.die(nm + ":index_map", fmt("record %zu has index %zu", i, map.at(vs[i])));
  std::vector<tuple<K, K>> plain; std::vector<tuple<K, K, double, string>> rich; for (size_t i = 0; i < t.e.size(); ++i) { auto [a, b] = t.e[i]; plain.push_back({vs[a], vs[b]}); rich.push_back({vs[a], vs[b], (double)i + 0.5, "label " + std::to_string(i)}); }
  auto p0 = plain; auto r0 = rich; auto v0 = vs;
  { auto e = nwg::make_plain_edges(map, plain); if (e.size() != t.e.size()) c.die(nm + ":plain_edges", "number"); for (size_t i = 0; i < e.size(); ++i) if (std::get<0>(e[i]) != t.e[i].first || std::get<1>(e[i]) != t.e[i].second) c.die(nm + ":plain_edges", fmt("edge %zu", i)); }
  { auto e = nwg::make_index_edges(map, plain); if (e.size() != t.e.size()) c.die(nm + ":index_edges", "number"); for (size_t i = 0; i < e.size(); ++i) if (e[i] != tuple<size_t, size_t, size_t>{t.e[i].first, t.e[i].second, i}) c.die(nm + ":index_edges", fmt("edge %zu", i)); }
  if (t.e.size()) { auto e = nwg::make_property_edges(map, rich); if (e.size() != t.e.size()) c.die(nm + ":property_edges", "number"); for (size_t i = 0; i < e.size(); ++i) if (e[i] != tuple<size_t, size_t, double, string>{t.e[i].first, t.e[i].second, (double)i + 0.5, "label " + std::to_string(i)}) c.die(nm + ":property_edges", fmt("edge %zu", i)); }
  for (bool directed : {true, false}) for (size_t idx : {0, 1}) {
    string k = nm + fmt(":%s:%zu", directed ? "directed" : "undirected", idx); Rows w(t.n); Rows2 wi(t.n); std::vector<std::vector<tuple<size_t, double, string>>> wp(t.n);
    for (size_t i = 0; i < t.e.size(); ++i) { auto [a, b] = t.e[i]; if (idx) std::swap(a, b); for (int back = 0; back < (directed ? 1 : 2); ++back, std::swap(a, b)) { w[a].push_back(b); wi[a].push_back({b, i}); wp[a].push_back({b, (double)i + 0.5, "label " + std::to_string(i)}); } }
    if (auto d = rowdiff(norm(nwg::make_plain_graph(vs, plain, directed, idx)), norm(w)); !d.empty()) c.die(k + ":plain", d);
    if (auto d = rowdiff(norm(nwg::make_index_graph(vs, plain, directed, idx)), norm(wi)); !d.empty()) c.die(k + ":index", d);
    if (auto d = rowdiff(norm(nwg::make_index_graph(vs, rich, directed, idx)), norm(wi)); !d.empty()) c.die(k + ":index of rich edges", d);
    if (auto d = rowdiff(norm(nwg::make_property_graph(vs, rich, directed, idx)), norm(wp)); !d.empty()) c.die(k + ":property", d);
    c.count("graphs compared", 4); c.count("edges compared", 4 * t.e.size() * (directed ? 1 : 2));
  }
  c.check(plain == p0 && rich == r0 && vs == v0, nm.c_str(), "the tables changed");
}
#if PART == 0
NWV_FAMILY(strings, 250, 6000) { unipartite<string>(c, "string"); }
NWV_FAMILY(numbers, 250, 6000) { unipartite<int>(c, "int"); unipartite<double>(c, "double"); }
NWV_FAMILY(tuples, 150, 3000) { unipartite<tuple<string, int>>(c, "tuple"); }
#else
NWV_FAMILY(bipartite, 400, 10000) {
  size_t nl = 1 + c.rng.below(40), nr = 1 + c.rng.below(40); auto left = names<string>(c, nl, "left"), right = names<string>(c, nr, c.rng.coin() ? "right" : "left"); std::vector<std::pair<size_t, size_t>> e; size_t m = c.rng.below(120); bool dups = c.rng.coin(); for (size_t i = 0; i < m; ++i) { e.push_back({c.rng.below(nl), c.rng.below(nr)}); } if (!dups) { std::sort(e.begin(), e.end()); e.erase(std::unique(e.begin(), e.end()), e.end()); c.rng.shuffle(e); }
  string ds = fmt("%zux%zu:", nl, nr); for (auto& [a, b] : e) ds += fmt(" %zu-%zu", a, b); c.describe(ds); c.input(hash_str(ds)); c.interesting(e.size() > 1);
  std::vector<tuple<string, string>> t; Rows l(nl), r(nr); for (auto& [a, b] : e) { t.push_back({left[a], right[b]}); l[a].push_back(b); r[b].push_back(a); } l = norm(l); r = norm(r);
  auto el = nwg::data_to_graph_edge_list(left, right, t); if (el.size() != e.size()) c.die("edge list", "number"); for (size_t i = 0; i < e.size(); ++i) if (el[i] != tuple<size_t, size_t>{e[i].first, e[i].second}) c.die("edge list", fmt("edge %zu", i));
  auto untuple = [](auto g) { Rows v(g.size()); for (size_t i = 0; i < g.size(); ++i) for (auto& x : g[i]) v[i].push_back(std::get<0>(std::tuple_cat(std::tuple(x)))); return norm(v); }; auto first = [](auto g) { Rows v(g.size()); for (size_t i = 0; i < g.size(); ++i) for (auto& x : g[i]) { if constexpr (std::is_integral_v<std::remove_cvref_t<decltype(x)>>) v[i].push_back(x); else v[i].push_back(std::get<0>(x)); } return norm(v); }; (void)untuple;
  auto cmp = [&](const string& k, const Rows& got, const Rows& want) { if (auto d = rowdiff(got, want); !d.empty()) c.die(k, d); c.count("graphs compared"); };
  cmp("plain_bipartite 0", first(nwg::make_plain_bipartite_graph(left, right, t, 0)), l); cmp("plain_bipartite 1", first(nwg::make_plain_bipartite_graph(left, right, t, 1)), r);
  { auto [G_, H_] = nwg::make_plain_bipartite_graphs(left, right, t); cmp("plain_bipartites left", norm(G_), l); cmp("plain_bipartites right", norm(H_), r); }
  cmp("bipartite<0>", norm(nwg::make_bipartite_graph<0>(left, right, t)), l); cmp("bipartite<1>", norm(nwg::make_bipartite_graph<1>(left, right, t)), r);
  auto [G2, H2] = nwg::make_bipartite_graphs(left, right, t); cmp("bipartites left", first(G2), l); cmp("bipartites right", first(H2), r);
  // join: rows of the second relation, one entry for each pair of relations through a middle vertex
  auto [A, B] = nwg::make_plain_bipartite_graphs(left, right, t); Rows2 want(nl), want2(nr); for (size_t i = 0; i < nl; ++i) for (auto k : l[i]) for (auto j : r[k]) if (j != i) want[i].push_back({j, k}); for (size_t i = 0; i < nr; ++i) for (auto k : r[i]) for (auto j : l[k]) if (j != i) want2[i].push_back({j, k});
  size_t pairs = 0; for (auto& x : want) pairs += x.size();
  if (auto d = rowdiff(norm(nwg::join(B, A)), norm(want)); !d.empty()) c.die("join through right", d); if (auto d = rowdiff(norm(nwg::join(A, B)), norm(want2)); !d.empty()) c.die("join through left", d); if (auto d = rowdiff(norm(nwg::join(H2, G2)), norm(want)); !d.empty()) c.die("join of property graphs", d); c.count("joined pairs", pairs);
}
// the same content from the library's own bipartite edge list
NWV_FAMILY(library_lists, 300, 6000) {
  GenOpt o; o.max_n = 50; G g = random_graph(c.rng, o); c.input(g.digest()); c.describe(g.str()); c.interesting(g.e.size() > 1); nwg::edge_list<nwg::directedness::directed, int> el(g.n); el.open_for_push_back(); for (size_t i = 0; i < g.e.size(); ++i) el.push_back(g.e[i].first, g.e[i].second, (int)i); el.close_for_push_back();
  for (bool directed : {true, false}) for (size_t idx : {0, 1}) { std::vector<std::vector<tuple<size_t, int>>> got(g.n), w(g.n); nwg::push_back_fill(el, got, directed, idx); for (size_t i = 0; i < g.e.size(); ++i) { size_t a = g.e[i].first, b = g.e[i].second; if (idx) std::swap(a, b); w[a].push_back({b, (int)i}); if (!directed) w[b].push_back({a, (int)i}); } if (auto d = rowdiff(norm(got), norm(w)); !d.empty()) c.die(fmt("push_back_fill %d %zu", (int)directed, idx), d); c.count("graphs compared"); }
}
#endif
NWV_MAIN
