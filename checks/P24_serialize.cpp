// P24: serialisation round-trips. Oracle: the content before.
#include <nwv/edges.hpp>
#include <nwv/mm.hpp>
using namespace nwv;
using nwg::directedness;

static G pick(Ctx& c) { GenOpt o; o.max_n = c.thorough ? 200 : 70; G g = random_graph(c.rng, o); int r = (int)c.rng.below(20); if (r == 0) { g.e.clear(); } if (r == 1) { g.e.clear(); g.n = 0; } if (r == 2) g.n += c.rng.below(100); if (r == 3 && c.thorough) { GenOpt b; b.max_n = 4000; g = random_graph(c.rng, b); } c.input(g.digest()); c.interesting(g.e.size() > 1); c.describe(g.str()); return g; }
// the reread object may be a fresh one or one that held something else
template <class... A> static void soa(Ctx& c, const std::string& k) {
  size_t n = c.rng.coin(0.1) ? 0 : c.rng.logsize(1, c.thorough ? 5000 : 300); nwg::struct_of_arrays<A...> a, b; std::vector<std::tuple<A...>> v;
  auto one = [&] { uint64_t id = c.rng(); return std::tuple<A...>{attr_of<A>(id % 1000003)...}; };
  for (size_t i = 0; i < n; ++i) { v.push_back(one()); a.push_back(v.back()); } if (c.rng.coin(0.3)) for (size_t i = 0, m = c.rng.below(400); i < m; ++i) b.push_back(one());
  auto p = c.tmpdir + "/s.bin"; if (c.rng.coin()) { a.serialize(p); b.deserialize(p); } else { std::stringstream s; a.serialize(s); if (c.rng.coin()) { auto t = s.str() + "trailing"; s.str(t); } b.deserialize(s); }
  if (b.size() != n) c.die(k, fmt("%zu elements instead of %zu", (size_t)b.size(), n)); size_t i = 0; for (auto&& t : b) { if (std::tuple<A...>(t) != v[i]) c.die(k, fmt("element %zu differs", i)); ++i; } c.check(a == b, k.c_str(), "not equal"); i = 0; for (auto&& t : a) if (std::tuple<A...>(t) != v[i++]) c.die(k, "the original changed");
  b.push_back(one()); c.check(b.size() == n + 1, k.c_str(), "cannot grow after rereading"); c.count("elements reread", n);
}
NWV_FAMILY(struct_of_arrays, 400, 8000) { c.interesting(); c.describe(fmt("case %llx", (unsigned long long)c.rng())); soa<uint32_t>(c, "uint32"); soa<uint32_t, double>(c, "uint32,double"); soa<char, uint64_t, float, short>(c, "char,uint64,float,short"); soa<double, int, uint32_t>(c, "double,int,uint32"); }
template <directedness D, class... A> static void el(Ctx& c, const std::string& k, const G& g) {
  auto v = with_attrs<A...>(g); nwg::edge_list<D, A...> a(g.n), b; push_all(a, v); if (c.rng.coin(0.3)) { push_all(b, with_attrs<A...>(random_graph(c.rng))); }
  auto p = c.tmpdir + "/e.bin"; if (c.rng.coin()) { a.serialize(p); b.deserialize(p); } else { std::stringstream s; a.serialize(s); b.deserialize(s); }
  if (content(b) != v) { auto d = differ(content(b), v); c.die(k, d.empty() ? "another order" : d); } c.check(nwg::num_vertices(b) == nwg::num_vertices(a) && b.num_edges() == v.size(), k.c_str(), "counts"); c.check(a == b, k.c_str(), "not equal");
  nwg::adjacency<0, A...> x(a), y(b); if (auto d = differ(csr_content<Tup<A...>>(y), csr_content<Tup<A...>>(x)); !d.empty() || x.size() != y.size()) c.die(k + ":graph", d); c.count("edges reread", v.size());
  b.open_for_push_back(); if (g.n) b.push_back((V)0, (V)g.n - 1, attr_of<A>(7)...); b.close_for_push_back(); c.check(b.size() == v.size() + (g.n ? 1 : 0), k.c_str(), "cannot grow after rereading");
}
NWV_FAMILY(edge_list, 400, 8000) {
  G g = pick(c); el<directedness::directed>(c, "directed", g); el<directedness::undirected>(c, "undirected", g); el<directedness::directed, double>(c, "directed<double>", g); el<directedness::undirected, int, char, double>(c, "undirected<int,char,double>", g); el<directedness::directed, uint64_t, float>(c, "directed<uint64,float>", g);
  nwg::bi_edge_list<directedness::directed, double> a(g.n + 3, g.n + 9), b; auto v = with_attrs<double>(g); push_all(a, v); auto p = c.tmpdir + "/b.bin"; a.serialize(p); b.deserialize(p); if (content(b) != v) c.die("bipartite", "differs"); c.check(nwg::num_vertices(b, 0) == g.n + 3 && nwg::num_vertices(b, 1) == g.n + 9, "bipartite", "vertex counts"); c.check(a == b, "bipartite", "not equal");
}
template <int idx, class... A> static void adj(Ctx& c, const std::string& k, const G& g) {
  nwg::edge_list<directedness::directed, A...> e(g.n); push_all(e, with_attrs<A...>(g)); nwg::adjacency<idx, A...> a(e, c.rng.coin()), b; if (c.rng.coin(0.3)) { G h = random_graph(c.rng); nwg::edge_list<directedness::directed, A...> f(h.n); push_all(f, with_attrs<A...>(h)); b = nwg::adjacency<idx, A...>(f); }
  auto before = csr_content<Tup<A...>>(a); auto p = c.tmpdir + "/a.bin"; a.serialize(p); b.deserialize(p); if (csr_content<Tup<A...>>(b) != before) { auto d = differ(csr_content<Tup<A...>>(b), before); c.die(k, d.empty() ? "another order" : d); } if (csr_content<Tup<A...>>(a) != before) c.die(k, "the original changed");
  c.check(b.size() == a.size() && b.num_vertices()[0] == a.num_vertices()[0] && b.num_edges() == a.num_edges() && nwg::num_vertices(b) == nwg::num_vertices(a), k.c_str(), "counts: %zu rows, %zu edges instead of %zu, %zu", (size_t)b.size(), (size_t)b.num_edges(), (size_t)a.size(), (size_t)a.num_edges()); c.count("edges reread", before.size());
  for (size_t u = 0; u < a.size(); ++u) { c.check(nwg::degree(b, (V)u) == nwg::degree(a, (V)u) && b[u].size() == a[u].size(), k.c_str(), "degree of %zu", u); }
  if constexpr (sizeof...(A) == 0) { if (a.size()) { auto da = nwg::degrees(a), db = nwg::degrees(b); c.check(std::vector<size_t>(da.begin(), da.end()) == std::vector<size_t>(db.begin(), db.end()), k.c_str(), "degrees"); } }
  { auto bytes = get_file(p); auto q = c.tmpdir + "/a2.bin"; b.serialize(q); c.check(get_file(q) == bytes, k.c_str(), "serialising the reread graph gives another file"); }
}
NWV_FAMILY(adjacency, 400, 8000) { G g = pick(c); adj<0>(c, "<0>", g); adj<1>(c, "<1>", g); adj<0, double>(c, "<0,double>", g); adj<1, int, char, double>(c, "<1,int,char,double>", g); adj<0, uint64_t, float>(c, "<0,uint64,float>", g); }
NWV_FAMILY(biadjacency, 300, 6000) {
  size_t nl = c.rng.below(50), nr = c.rng.below(50); std::vector<Tup<double>> v; if (nl && nr) for (size_t i = 0, m = c.rng.below(150); i < m; ++i) v.push_back({(V)c.rng.below(nl), (V)c.rng.below(nr), (double)i + 0.25}); c.describe(fmt("%zux%zu, %zu edges %llx", nl, nr, v.size(), (unsigned long long)c.rng())); c.interesting(v.size() > 1);
  auto go = [&]<int idx>(std::integral_constant<int, idx>) { std::string k = fmt("<%d>", idx); nwg::bi_edge_list<directedness::directed, double> e(nl, nr); push_all(e, v); nwg::biadjacency<idx, double> a(e), b; auto before = csr_content<Tup<double>>(a); auto p = c.tmpdir + "/b.bin"; a.serialize(p); b.deserialize(p); if (csr_content<Tup<double>>(b) != before) c.die(k, "differs"); c.check(b.size() == a.size() && b.num_vertices() == a.num_vertices() && b.num_edges() == a.num_edges(), k.c_str(), "counts"); c.count("edges reread", v.size()); };
  go(std::integral_constant<int, 0>{}); go(std::integral_constant<int, 1>{});
}
// several objects in one stream
NWV_FAMILY(stream, 300, 6000) {
  GenOpt o; o.max_n = 40; std::stringstream s; std::vector<G> gs; size_t n = 1 + c.rng.below(5); std::vector<std::vector<Tup<double>>> vs; for (size_t i = 0; i < n; ++i) { G g = random_graph(c.rng, o); gs.push_back(g); vs.push_back(with_attrs<double>(g)); nwg::edge_list<directedness::directed, double> e(g.n); push_all(e, vs.back()); e.serialize(s); nwg::indexed_struct_of_arrays<uint32_t, uint32_t, double> cs(g.n); cs.open_for_push_back(); for (auto& [a, b, w] : sorted(vs.back())) cs.push_back(a, b, w); cs.close_for_push_back(); cs.serialize(s); c.input(g.digest()); c.describe(g.str()); } c.interesting();
  for (size_t i = 0; i < n; ++i) { nwg::edge_list<directedness::directed, double> e; e.deserialize(s); if (content(e) != vs[i]) c.die("edge list in a stream", fmt("object %zu differs", i)); nwg::indexed_struct_of_arrays<uint32_t, uint32_t, double> cs(0); cs.deserialize(s); if (auto d = differ(csr_content<Tup<double>>(cs), vs[i]); !d.empty()) c.die("compressed in a stream", d); c.count("streamed objects", 2); }
}
NWV_MAIN
