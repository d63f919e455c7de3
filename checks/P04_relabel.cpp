// P04: relabeling by degree is an isomorphism in the requested degree order.
// Every edge carries a unique id as an attribute, so the monitor can follow each edge through the renaming.
#include <nwv/edges.hpp>
using namespace nwv;
using nwg::directedness;
constexpr auto DIR = directedness::directed, UND = directedness::undirected;
using Deg = std::vector<size_t>;

static G graph(Ctx& c, bool large) {
  G g;
  if (large) g = big_graph(c.rng, c.rng.of<size_t>({50, 700, 3000, 20000}), 1000 + c.rng.below(c.thorough ? 40000 : 8000));
  else g = random_graph(c.rng, {.max_n = (size_t)c.rng.of<int>({5, 12, 60})});
  c.describe(g.str()); c.input(g.digest()); c.interesting(g.e.size() > 1);
  return g;
}
static bool is_perm(const auto& p, size_t n) {
  if (p.size() != n) return false; std::vector<char> s(n);
  for (auto x : p) { if ((size_t)x >= n || s[x]) return false; s[x] = 1; }
  return true;
}
// degrees in the order of the new ids must be monotone
static void monotone(Ctx& c, const char* key, const Deg& by_new, bool asc) {
  for (size_t i = 1; i < by_new.size(); ++i)
    if (asc ? by_new[i - 1] > by_new[i] : by_new[i - 1] < by_new[i]) c.die(key, fmt("new ids %zu and %zu have degrees %zu and %zu, direction %s", i - 1, i, by_new[i - 1], by_new[i], asc ? "ascending" : "descending"));
}
template <class T> static Deg count_deg(const std::vector<T>& e, size_t n, int idx, bool und) {
  Deg d(n); for (auto& t : e) { if (idx == 0 || und) ++d[std::get<0>(t)]; if (idx == 1 || und) ++d[std::get<1>(t)]; } return d;
}
// f: old -> new, checked against a list whose edges keep their positions
template <class T, class P> static void mapped(Ctx& c, const char* key, const std::vector<T>& before, const std::vector<T>& after, const P& f, bool first, bool second) {
  if (before.size() != after.size()) c.die(key, "edge count changed");
  std::vector<T> want; for (auto t : before) { if (first) std::get<0>(t) = f[std::get<0>(t)]; if (second) std::get<1>(t) = f[std::get<1>(t)]; want.push_back(t); }
  auto d = differ(after, want); if (d != "") c.die(key, "the relabeled edges are not the old ones under the returned map: " + d);
  c.count("edges followed", before.size());
}

template <directedness D, int idx, class... A> static void lists(Ctx& c, bool large) {
  using EL = nwg::edge_list<D, A...>; using T = Tup<A...>;
  Threads th(c.rng); auto& r = c.rng; G g = graph(c, large);
  constexpr bool und = D == UND;
  auto m = with_attrs<A...>(g); EL el(g.n); push_all(el, m);
  auto deg = count_deg(m, g.n, idx, und);
  auto d = nwg::degrees<idx>(el);
  if (!std::equal(deg.begin(), deg.end(), d.begin(), d.end())) c.die("degrees", "degrees of the edge list differ from a direct count");
  bool asc = r.coin(); std::string dir = asc ? "ascending" : "descending";
  // ordering by a given key, or by the degree
  std::vector<int> key(g.n); bool own = r.coin(0.4) && g.n;
  for (size_t i = 0; i < g.n; ++i) key[i] = own ? (int)r.below(r.coin() ? 3 : 1000) : (int)deg[i];
  auto ord = [&](auto& perm) { Deg k; for (auto x : perm) k.push_back((size_t)key[x]); return k; };
  auto perm = own ? nwg::perm_by_degree<idx>(el, key, dir) : nwg::perm_by_degree<idx>(el, dir);
  if (!is_perm(perm, g.n)) c.die("perm", "perm_by_degree does not return a permutation of the vertices");
  monotone(c, "perm-order", ord(perm), asc);
  if (content(el) != m) c.die("perm-input", "perm_by_degree changed the edge list");
  // rename by an arbitrary permutation and by the one above
  for (int k = 0; k < 2; ++k) {
    EL e2(el); auto p = perm; if (k) r.shuffle(p);
    auto f = nwg::relabel(e2, p);
    if (!is_perm(f, g.n)) c.die("relabel-map", "relabel does not return a bijection");
    for (size_t i = 0; i < g.n; ++i) if (f[p[i]] != i) c.die("relabel-map", fmt("the returned map sends %zu to %zu, not to its place %zu in the permutation", (size_t)p[i], (size_t)f[p[i]], i));
    mapped(c, "relabel", m, content(e2), f, true, true);
    if ((size_t)nwg::num_vertices(e2) != g.n) c.die("relabel-n", "vertex count changed");
  }
  {
    EL e2(el); auto f = own ? nwg::relabel_by_degree<idx>(e2, dir, key) : nwg::relabel_by_degree<idx>(e2, dir);
    if (!is_perm(f, g.n)) c.die("relabel_by_degree-map", "not a bijection");
    mapped(c, "relabel_by_degree", m, content(e2), f, true, true);
    Deg bn(g.n); for (size_t i = 0; i < g.n; ++i) bn[f[i]] = (size_t)key[i];
    monotone(c, "relabel_by_degree-order", bn, asc);
    auto d2 = nwg::degrees<idx>(e2); for (size_t i = 0; i < g.n; ++i) if (d2[f[i]] != deg[i]) c.die("degree-kept", fmt("vertex %zu changed its degree", i));
  }
  if constexpr (idx == 0) {    // the form that returns nothing: recover the map from the edges
    EL e2(el); if (own) nwg::relabel_by_degree(e2, dir, key); else nwg::relabel_by_degree(e2, dir);
    auto got = content(e2); std::vector<int64_t> f(g.n, -1), inv(g.n, -1);
    auto tie = [&](V o, V n) { if (n >= g.n || (f[o] >= 0 && f[o] != n) || (inv[n] >= 0 && inv[n] != o)) c.die("relabel_by_degree(void)", fmt("no single bijection renames the edges: vertex %u becomes %u", o, n)); f[o] = n; inv[n] = o; };
    std::map<T, size_t> seen; (void)seen;
    if (got.size() != m.size()) c.die("relabel_by_degree(void)", "edge count changed");
    for (size_t i = 0; i < m.size(); ++i) { tie(std::get<0>(m[i]), std::get<0>(got[i])); tie(std::get<1>(m[i]), std::get<1>(got[i])); auto a = m[i], b = got[i]; std::get<0>(a) = std::get<0>(b) = 0; std::get<1>(a) = std::get<1>(b) = 0; if (!(a == b)) c.die("relabel_by_degree(void)", fmt("edge %zu lost its attributes", i)); }
    // place of every named vertex in the sorted key order
    std::vector<int> ks(key); std::sort(ks.begin(), ks.end()); if (!asc) std::reverse(ks.begin(), ks.end());
    for (size_t n = 0; n < g.n; ++n) if (inv[n] >= 0 && key[inv[n]] != ks[n]) c.die("relabel_by_degree(void)-order", fmt("new id %zu has key %d, position requires %d", n, key[inv[n]], ks[n]));
  }
  c.count("lists relabeled", 4);
}
template <class... A> static void bi_lists(Ctx& c, bool large) {
  using EL = nwg::bi_edge_list<DIR, A...>; Threads th(c.rng); auto& r = c.rng; G g = graph(c, large);
  size_t M = std::max<size_t>(1, g.n * 2 / 3), N = g.n; for (auto& e : g.e) e.first %= M;
  auto m = with_attrs<A...>(g); EL el(M, N); push_all(el, m);
  auto side = [&]<int idx>(std::integral_constant<int, idx>) {
    size_t n = idx ? N : M; auto deg = count_deg(m, n, idx, false);
    auto d = nwg::degrees<idx>(el);
    if (!std::equal(deg.begin(), deg.end(), d.begin(), d.end())) c.die("bi-degrees", fmt("degrees of side %d differ from a direct count", idx));
    bool asc = r.coin(); auto perm = nwg::perm_by_degree<idx>(el, std::string(asc ? "ascending" : "descending"));
    if (!is_perm(perm, n)) c.die("bi-perm", "not a permutation"); Deg k; for (auto x : perm) k.push_back(deg[x]); monotone(c, "bi-perm-order", k, asc);
    EL e2(el); auto f = nwg::relabel<idx>(e2, perm);
    for (size_t i = 0; i < n; ++i) if (f[perm[i]] != i) c.die("bi-relabel-map", "the returned map is not the inverse of the permutation");
    mapped(c, "bi-relabel", m, content(e2), f, idx == 0, idx == 1);
    if ((size_t)nwg::num_vertices(e2, 0) != M || (size_t)nwg::num_vertices(e2, 1) != N) c.die("bi-relabel-n", "vertex count changed");
  };
  side(std::integral_constant<int, 0>{}); side(std::integral_constant<int, 1>{});
  c.count("lists relabeled", 2);
}
template <class T, class CSR> static std::vector<std::vector<T>> rows(CSR& a) { std::vector<std::vector<T>> v; for (auto&& t : csr_content<T>(a)) { (void)t; } size_t n = 0; for (auto&& row : a) { v.emplace_back(); for (auto&& x : row) v.back().push_back(std::tuple_cat(std::tuple<V>((V)n), x)); ++n; } return v; }
template <class T> static void no_row(std::vector<T>& v) { for (auto& t : v) std::get<0>(t) = 0; }

template <int idx, class... A> static void compressed(Ctx& c, bool large) {
  using CSR = nwg::adjacency<idx, uint32_t, A...>; using T = Tup<uint32_t, A...>;
  Threads th(c.rng); auto& r = c.rng; G g = graph(c, large);
  std::vector<T> m; { uint64_t id = 0; for (auto& [a, b] : g.e) { m.push_back(T{a, b, (uint32_t)id, attr_of<A>(id)...}); ++id; } }
  nwg::edge_list<DIR, uint32_t, A...> el(g.n); push_all(el, m);
  CSR base(el, r.coin()); size_t n = g.n; bool asc = r.coin(); std::string dir = asc ? "ascending" : "descending";
  auto old = rows<T>(base);
  auto own_deg = [&](auto& o) { Deg d; for (auto& x : o) d.push_back(x.size()); return d; };
  auto deg = own_deg(old);
  auto degs_ok = [&](CSR& a, const char* key) { auto rr = rows<T>(a); auto d1 = ((const CSR&)a).degrees(); auto d2 = a.degrees(std::execution::par_unseq); auto d3 = nwg::degrees(a); for (size_t i = 0; i < n; ++i) if (d1[i] != rr[i].size() || d2[i] != rr[i].size() || d3[i] != rr[i].size()) c.die(key, fmt("degree of row %zu is wrong", i)); };
  {    // permute_by_degree: rows move, targets stay
    CSR a(base); auto f = a.permute_by_degree(dir);
    if (!is_perm(f, n)) c.die("permute-map", "permute_by_degree does not return a bijection of the rows");
    auto now = rows<T>(a); if (now.size() != n) c.die("permute-rows", "row count changed");
    monotone(c, "permute-order", own_deg(now), asc);
    for (size_t u = 0; u < n; ++u) { auto x = old[u], y = now[f[u]]; no_row(x); no_row(y); auto d = differ(y, x); if (d != "") c.die("permute-row", fmt("the neighbourhood of %zu is not at its new row %zu: ", u, (size_t)f[u]) + d); }
    degs_ok(a, "permute-degrees");
    // renaming the targets with the same map gives the isomorphic graph
    std::vector<V> fv(f.begin(), f.end()); auto ff = f; a.relabel_to_be_indexed(ff);
    now = rows<T>(a);
    for (size_t u = 0; u < n; ++u) {
      auto x = old[u], y = now[f[u]]; no_row(x); no_row(y); for (auto& t : x) std::get<1>(t) = fv[std::get<1>(t)];
      for (size_t i = 1; i < y.size(); ++i) if (std::get<1>(y[i - 1]) > std::get<1>(y[i])) c.die("relabel-sorted", fmt("row %zu is not sorted after relabeling its targets", (size_t)f[u]));
      auto d = differ(y, x); if (d != "") c.die("relabel-targets", fmt("row of old vertex %zu: ", u) + d);
    }
  }
  {    // sort_by_degree: follow the edges by id
    CSR a(base); if (!asc && r.coin()) a.sort_by_degree(); else a.sort_by_degree(dir);
    auto now = rows<T>(a); if (now.size() != n) c.die("sort_by_degree-rows", "row count changed");
    monotone(c, "sort_by_degree-order", own_deg(now), asc);
    std::vector<int64_t> f(n, -1), inv(n, -1); std::vector<const T*> by_id(m.size(), nullptr);
    auto tie = [&](V o, V w) { if (w >= n || (f[o] >= 0 && f[o] != w) || (inv[w] >= 0 && inv[w] != o)) c.die("sort_by_degree-iso", fmt("no single bijection renames the graph: vertex %u becomes %u", o, w)); f[o] = w; inv[w] = o; };
    size_t tot = 0;
    for (size_t w = 0; w < n; ++w) for (size_t i = 0; i < now[w].size(); ++i) {
      auto& t = now[w][i]; uint32_t id = std::get<2>(t); ++tot;
      if (id >= m.size() || by_id[id]) c.die("sort_by_degree-edges", fmt("edge id %u is invented or duplicated", id));
      by_id[id] = &t; auto o = idx == 0 ? m[id] : swapped(m[id]);
      tie(std::get<0>(o), (V)w); tie(std::get<1>(o), std::get<1>(t));
      auto b = t; std::get<0>(b) = std::get<0>(o); std::get<1>(b) = std::get<1>(o); if (!(b == o)) c.die("sort_by_degree-attributes", fmt("edge %u lost its attributes", id));
      if (i && std::get<1>(now[w][i - 1]) > std::get<1>(t)) c.die("sort_by_degree-sorted", fmt("row %zu is not sorted", w));
    }
    if (tot != m.size()) c.die("sort_by_degree-edges", "edges lost");
    degs_ok(a, "sort_by_degree-degrees");
  }
  {    // triangularize keeps one side of the diagonal
    CSR a(base); bool pred = r.coin(); if (pred) a.template triangularize<nwg::succession::predecessor>(); else a.template triangularize<nwg::succession::successor>();
    auto now = rows<T>(a); if (now.size() != n) c.die("triangularize-rows", "row count changed");
    for (size_t u = 0; u < n; ++u) { std::vector<T> want; for (auto& t : old[u]) if (pred ? std::get<1>(t) < u : std::get<1>(t) > u) want.push_back(t); auto d = differ(now[u], want); if (d != "") c.die("triangularize", fmt("row %zu: ", u) + d); }
    degs_ok(a, "triangularize-degrees");
    // and it composes with another renaming
    auto f = a.permute_by_degree(dir); auto p = rows<T>(a); if (!is_perm(f, n)) c.die("compose", "not a bijection");
    for (size_t u = 0; u < n; ++u) { auto x = now[u], y = p[f[u]]; no_row(x); no_row(y); if (differ(y, x) != "") c.die("compose", "permuting a triangularized graph loses edges"); }
  }
  c.count("compressed graphs relabeled", 4); c.count("edges followed", 4 * m.size());
}
template <class... A> static void bi_compressed(Ctx& c, bool large) {    // permute one side, rename the targets of the other
  using T = Tup<uint32_t, A...>; Threads th(c.rng); auto& r = c.rng; G g = graph(c, large);
  size_t M = std::max<size_t>(1, g.n * 2 / 3), N = g.n; for (auto& e : g.e) e.first %= M;
  std::vector<T> m; { uint64_t id = 0; for (auto& [a, b] : g.e) { m.push_back(T{a, b, (uint32_t)id, attr_of<A>(id)...}); ++id; } }
  nwg::bi_edge_list<DIR, uint32_t, A...> el(M, N); push_all(el, m);
  nwg::biadjacency<0, uint32_t, A...> a(el); nwg::biadjacency<1, uint32_t, A...> b(el);
  bool asc = r.coin(); auto oa = rows<T>(a), ob = rows<T>(b);
  auto f = a.permute_by_degree(std::string(asc ? "ascending" : "descending"));
  if (!is_perm(f, M)) c.die("bi-permute-map", "not a bijection of the rows");
  b.relabel_to_be_indexed(f);
  auto na = rows<T>(a), nb = rows<T>(b); Deg d; for (auto& x : na) d.push_back(x.size()); monotone(c, "bi-permute-order", d, asc);
  if (na.size() != M || nb.size() != N) c.die("bi-rows", "row count changed");
  for (size_t u = 0; u < M; ++u) { auto x = oa[u], y = na[f[u]]; no_row(x); no_row(y); if (differ(y, x) != "") c.die("bi-permute-row", "a neighbourhood is not at its new row"); }
  for (size_t v = 0; v < N; ++v) { auto x = ob[v], y = nb[v]; for (auto& t : x) std::get<1>(t) = f[std::get<1>(t)]; auto dd = differ(y, x); if (dd != "") c.die("bi-relabel-targets", fmt("row %zu: ", v) + dd); for (size_t i = 1; i < y.size(); ++i) if (std::get<1>(y[i - 1]) > std::get<1>(y[i])) c.die("bi-relabel-sorted", fmt("row %zu", v)); }
  c.count("compressed graphs relabeled", 2); c.count("edges followed", 2 * m.size());
}
#if PART == 0
NWV_FAMILY(directed, 2000, 40000) { lists<DIR, 0, double>(c, false); }
NWV_FAMILY(by_target, 1000, 20000) { lists<DIR, 1>(c, false); }
NWV_FAMILY(large_directed, 50, 1500) { lists<DIR, 0, double>(c, true); }
#elif PART == 1
NWV_FAMILY(undirected, 2000, 40000) { lists<UND, 0, double>(c, false); }
NWV_FAMILY(large_undirected, 50, 1500) { lists<UND, 0, double>(c, true); }
NWV_FAMILY(bipartite, 1500, 30000) { bi_lists<double>(c, false); }
NWV_FAMILY(large_bipartite, 30, 600) { bi_lists<double>(c, true); }
#elif PART == 2
NWV_FAMILY(compressed_rows, 2000, 40000) { compressed<0, double>(c, false); }
NWV_FAMILY(large_compressed, 50, 1500) { compressed<0, double>(c, true); }
NWV_FAMILY(bipartite_compressed, 1500, 30000) { bi_compressed<double>(c, false); }
NWV_FAMILY(large_bipartite_compressed, 30, 600) { bi_compressed<double>(c, true); }
#else
NWV_FAMILY(compressed_columns, 1200, 20000) { compressed<1>(c, false); }
NWV_FAMILY(compressed_labels, 800, 10000) { compressed<0, std::string>(c, false); }
#endif
NWV_MAIN
