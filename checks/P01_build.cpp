// P01: building a compressed graph conserves every edge.
#include <nwv/edges.hpp>
using namespace nwv;
using nwg::directedness;

// expected (row, target, attrs) for side idx
template <int idx, bool undirected, class T> static std::vector<T> expect(const std::vector<T>& e) {
  std::vector<T> v; v.reserve(e.size() * 2);
  for (auto& t : e) { v.push_back(idx == 0 ? t : swapped(t)); if (undirected) v.push_back(idx == 0 ? swapped(t) : t); }
  return v;
}

template <class T, class Graph>
static void verify(Ctx& c, const std::string& route, Graph& g, size_t rows, const std::vector<T>& want, bool sorted_rows) {
  const Graph& cg = g;
  auto bad = [&](const char* k, const std::string& m) { c.fail(route + ":" + k, m); };
  size_t n = 0; for (auto&& r : g) { (void)r; ++n; }
  if (n != rows) return bad("rows", fmt("iteration yields %zu rows instead of %zu", n, rows));
  if (g.size() != rows || nwg::num_vertices(cg) != rows) return bad("num_vertices", fmt("size %zu num_vertices %zu instead of %zu", (size_t)g.size(), (size_t)nwg::num_vertices(cg), rows));
  if ((size_t)(cg.end() - cg.begin()) != rows) return bad("distance", "end() - begin() is not the number of rows");
  auto got = csr_content<T>(g);
  auto d = differ(got, want);
  if (!d.empty()) return bad("edges", d);
  auto cgot = csr_content<T>(cg);
  if (cgot != got) return bad("const", "const iteration differs from non-const iteration");
  if (g.num_edges() != want.size()) return bad("num_edges", fmt("num_edges %zu instead of %zu", (size_t)g.num_edges(), want.size()));
  std::vector<size_t> deg(rows); for (auto& t : want) ++deg[std::get<0>(t)];
  auto d1 = cg.degrees(); auto d2 = cg.degrees(std::execution::par_unseq);
  auto d3 = nwg::degrees(cg);
  if (d1.size() != rows || d2.size() != rows || d3.size() != rows) return bad("degrees", "wrong length");
  size_t pos = 0;
  for (size_t i = 0; i < rows; ++i) {
    auto row = cg[i];
    if (row.size() != deg[i] || d1[i] != deg[i] || d2[i] != deg[i] || d3[i] != deg[i] || nwg::degree(cg, (V)i) != deg[i] || nwg::degree(cg, g[i]) != deg[i])
      return bad("degree", fmt("row %zu: size %zu degrees %zu %zu %zu degree %zu instead of %zu", i, (size_t)row.size(), (size_t)d1[i], (size_t)d2[i], (size_t)d3[i], (size_t)nwg::degree(cg, (V)i), deg[i]));
    if (row.empty() != (deg[i] == 0)) return bad("empty", fmt("row %zu", i));
    V last = 0; bool first = true;
    for (auto&& x : row) {
      V t = std::get<0>(x);
      if (nwg::target(cg, x) != t) return bad("target", fmt("row %zu", i));
      if (sorted_rows && !first && t < last) return bad("sorted", fmt("row %zu is not sorted by target", i));
      last = t; first = false;
      if (rows * want.size() < 4000000 || (mix(pos) & 15) == 0) if (cg.source(pos) != i || g.source(pos) != i) return bad("source", fmt("position %zu has source %zu instead of %zu", pos, (size_t)cg.source(pos), i));
      ++pos;
    }
  }
  if (rows && g.max() != rows - 1) return bad("max", fmt("max() is %zu with %zu rows", (size_t)g.max(), rows));
  c.count("graphs built"); c.count("edges checked", want.size()); c.count("rows checked", rows);
}

template <int idx, directedness D, class... A>
static void unipartite(Ctx& c, const G& g, bool routes) {
  using T = Tup<A...>; using EL = nwg::edge_list<D, A...>; using CSR = nwg::adjacency<idx, A...>;
  constexpr bool und = D == directedness::undirected;
  auto edges = with_attrs<A...>(g);
  EL el(g.n); push_all(el, edges);
  auto want = expect<idx, und>(edges);
  std::string tag = std::string(und ? "undirected" : "directed") + fmt("<%d>", idx);
  bool srt = c.rng.coin();
  {
    int pol = (int)c.rng.below(3);
    auto mk = [&] { return pol == 0 ? CSR(el, srt) : pol == 1 ? CSR(el, srt, std::execution::seq) : CSR(el, srt, std::execution::par); };
    CSR a = mk();
    verify(c, tag + ":ctor", a, g.n, want, srt);
    if (differ(content(el), edges) != "") c.fail(tag + ":input", "building changed the edge list");
    if (!routes) return;
    CSR b(a); verify(c, tag + ":copy", b, g.n, want, srt);
    CSR m(std::move(b)); verify(c, tag + ":move", m, g.n, want, srt);
    CSR as; as = m; verify(c, tag + ":assign", as, g.n, want, srt);
    as = std::move(m); verify(c, tag + ":move-assign", as, g.n, want, srt);
    a.sort_to_be_indexed(); verify(c, tag + ":sort_rows", a, g.n, want, true);
  }
  { size_t extra = c.rng.below(6), less = c.rng.below(3); size_t N = c.rng.coin() ? g.n + extra : g.n - std::min(g.n, less); CSR a(N, el, srt); verify(c, tag + ":ctor(N)", a, std::max(N, g.n), want, srt); }
  { CSR a(g.n); nwg::fill<idx>(el, a, srt); verify(c, tag + ":fill", a, g.n, want, srt); }
  { CSR a(g.n); nwg::fill<idx>(el, a, directedness::directed, srt); verify(c, tag + ":fill(dir)", a, g.n, und ? expect<idx, false>(edges) : want, srt); }
  if constexpr (!und) { CSR a(g.n); nwg::fill<idx>(el, a, directedness::undirected, srt); verify(c, tag + ":fill(undir)", a, g.n, expect<idx, true>(edges), srt); }
  auto rows = want; std::stable_sort(rows.begin(), rows.end(), [](auto& x, auto& y) { return std::get<0>(x) < std::get<0>(y); });
  {    // pushing row by row, with the rows declared or discovered
    size_t last = rows.empty() ? 0 : std::get<0>(rows.back()) + 1, N = c.rng.coin() ? g.n : c.rng.below(g.n + 1);
    CSR a(N); a.open_for_push_back();
    for (auto& t : rows) std::apply([&](auto... x) { a.push_back(x...); }, t);
    a.close_for_push_back();
    verify(c, tag + ":push_back", a, std::max(N, last), rows, false);
    if (csr_content<T>(a) != rows) c.fail(tag + ":push_back:order", "pushed edges are not kept in order");
    EL tmp(g.n); push_all(tmp, rows); CSR f(g.n); nwg::push_back_fill(tmp, f); verify(c, tag + ":push_back_fill", f, g.n, rows, false);
  }
  {    // from raw vectors
    std::vector<V> ind(g.n + 1), tgt; std::tuple<std::vector<V>, std::vector<A>...> cols;
    for (auto& t : rows) ++ind[std::get<0>(t) + 1];
    for (size_t i = 0; i < g.n; ++i) ind[i + 1] += ind[i];
    for (auto& t : rows) [&]<size_t... I>(std::index_sequence<I...>) { (std::get<I>(cols).push_back(std::get<I + 1>(t)), ...); }(std::make_index_sequence<1 + sizeof...(A)>());
    CSR a(ind, cols); verify(c, tag + ":vectors-tuple-copy", a, g.n, rows, false);
    auto unpack = [&](auto&& f) { return std::apply(f, cols); };
    CSR b = unpack([&](auto&... v) { return CSR(ind, v...); }); verify(c, tag + ":vectors-copy", b, g.n, rows, false);
    CSR d(g.n, rows.size()); if (!rows.empty()) { d.copy(ind, cols); verify(c, tag + ":copy()", d, g.n, rows, false); }
    auto i2 = ind; auto c2 = cols; CSR e(std::move(i2), std::move(c2)); verify(c, tag + ":vectors-tuple-move", e, g.n, rows, false);
    auto i3 = ind; auto c3 = cols; CSR h = std::apply([&](auto&... v) { return CSR(std::move(i3), std::move(v)...); }, c3); verify(c, tag + ":vectors-move", h, g.n, rows, false);
    auto i4 = ind; auto c4 = cols; CSR k(g.n); std::apply([&](auto&... v) { k.move(std::move(i4), std::move(v)...); }, c4); verify(c, tag + ":move()", k, g.n, rows, false);
    if (a.get_indices() != ind) c.fail(tag + ":get_indices", "row offsets are not those given");
  }
}
template <int idx, class... A>
static void bipartite(Ctx& c, const G& g, size_t n0, size_t n1, bool routes) {
  using T = Tup<A...>; using EL = nwg::bi_edge_list<directedness::directed, A...>; using CSR = nwg::biadjacency<idx, A...>;
  auto edges = with_attrs<A...>(g);
  EL el(n0, n1); push_all(el, edges);
  auto want = expect<idx, false>(edges);
  std::string tag = fmt("bipartite<%d>", idx);
  bool srt = c.rng.coin();
  size_t own = idx == 0 ? n0 : n1, other = idx == 0 ? n1 : n0;
  CSR a(el, srt); verify(c, tag + ":ctor", a, own, want, srt);
  if (nwg::num_vertices(a, 0) != own || nwg::num_vertices(a, 1) != other) c.fail(tag + ":sides", fmt("num_vertices %zu %zu instead of %zu %zu", (size_t)nwg::num_vertices(a, 0), (size_t)nwg::num_vertices(a, 1), own, other));
  auto deg = nwg::degrees<idx>(el); std::vector<size_t> dw(own); for (auto& t : want) ++dw[std::get<0>(t)];
  c.check(deg.size() == own && std::equal(dw.begin(), dw.end(), deg.begin()), (tag + ":el-degrees").c_str(), "degrees of the edge list's side differ");
  if (!routes) return;
  CSR f(own, other); nwg::fill_biadjacency<idx>(el, f, srt); verify(c, tag + ":fill", f, own, want, srt);
  auto rows = want; std::stable_sort(rows.begin(), rows.end(), [](auto& x, auto& y) { return std::get<0>(x) < std::get<0>(y); });
  std::vector<V> ind(own + 1); std::tuple<std::vector<V>, std::vector<A>...> cols;
  for (auto& t : rows) ++ind[std::get<0>(t) + 1];
  for (size_t i = 0; i < own; ++i) ind[i + 1] += ind[i];
  for (auto& t : rows) [&]<size_t... I>(std::index_sequence<I...>) { (std::get<I>(cols).push_back(std::get<I + 1>(t)), ...); }(std::make_index_sequence<1 + sizeof...(A)>());
  CSR v(other, ind, cols); verify(c, tag + ":vectors", v, own, rows, false);
  if (nwg::num_vertices(v, 1) != other) c.fail(tag + ":vectors:sides", "other side has the wrong size");
  auto i3 = ind; auto c3 = cols; CSR h(other, std::move(i3), std::move(c3)); verify(c, tag + ":vectors-move", h, own, rows, false);
}

static G gen(Ctx& c, bool big) {
  G g;
  if (big) { size_t n = c.rng.logsize(50, 40000); g = big_graph(c.rng, n, c.rng.logsize(3000, 120000)); if (c.rng.coin(0.3)) g.n += c.rng.below(2000); }
  else { GenOpt o; o.max_n = c.rng.of({2, 6, 20, 60, 150}); g = random_graph(c.rng, o); if (c.rng.coin(0.05)) g.e.clear(); if (c.rng.coin(0.02)) { g.e.clear(); g.n = 0; } }
  c.input(g.digest()); c.describe(g.str()); c.interesting(g.e.size() > 1);
  return g;
}
static G gen_scale(Ctx& c) { G g = scale_graph(c.rng); c.input(g.digest()); c.describe(g.str()); c.interesting(g.e.size() > 1); return g; }
static G gen_bi(Ctx& c, size_t& n0, size_t& n1, bool big) {
  n0 = big ? c.rng.logsize(20, 20000) : c.rng.logsize(1, 80); n1 = big ? c.rng.logsize(20, 20000) : c.rng.logsize(1, 80);
  size_t a = c.rng.coin(0.6) ? n0 : std::max<size_t>(1, n0 / 2), b = c.rng.coin(0.6) ? n1 : std::max<size_t>(1, n1 / 2);
  G g; g.kind = "bi"; g.n = n0; size_t m = big ? c.rng.logsize(3000, 80000) : c.rng.below(3 * (n0 + n1));
  for (size_t i = 0; i < m; ++i) g.e.push_back({(V)c.rng.below(a), (V)c.rng.below(b)});
  c.input(g.digest()); c.input(n1); c.describe(g.str() + fmt(" n1=%zu", n1)); c.interesting(m > 1);
  return g;
}
template <class... A> static void pick_uni(Ctx& c, const G& g, bool routes) {
  switch (c.rng.below(4)) {
    case 0: return unipartite<0, directedness::directed, A...>(c, g, routes);
    case 1: return unipartite<1, directedness::directed, A...>(c, g, routes);
    case 2: return unipartite<0, directedness::undirected, A...>(c, g, routes);
    default: return unipartite<1, directedness::undirected, A...>(c, g, routes);
  }
}
#if PART == 0
NWV_FAMILY(big_plain, 80, 1500) { Threads t(c.rng); pick_uni<>(c, gen(c, true), c.rng.coin(0.2)); }
NWV_FAMILY(scale_plain, 8, 200) { Threads t(c.rng); pick_uni<>(c, gen_scale(c), c.rng.coin(0.2)); }
NWV_FAMILY(small_plain, 600, 20000) { Threads t(c.rng); pick_uni<>(c, gen(c, false), true); }
NWV_FAMILY(bi_big, 40, 800) { Threads t(c.rng); size_t n0, n1; G g = gen_bi(c, n0, n1, true); c.rng.coin() ? bipartite<0>(c, g, n0, n1, false) : bipartite<1>(c, g, n0, n1, false); }
NWV_FAMILY(bi_small, 300, 10000) { Threads t(c.rng); size_t n0, n1; G g = gen_bi(c, n0, n1, false); c.rng.coin() ? bipartite<0>(c, g, n0, n1, true) : bipartite<1>(c, g, n0, n1, true); }
NWV_FAMILY(bi_attr, 200, 8000) { Threads t(c.rng); size_t n0, n1; G g = gen_bi(c, n0, n1, c.rng.coin(0.1)); c.rng.coin() ? bipartite<0, double>(c, g, n0, n1, true) : bipartite<1, double>(c, g, n0, n1, true); }
#elif PART == 1
NWV_FAMILY(big_attr2, 50, 900) { Threads t(c.rng); pick_uni<float, uint64_t>(c, gen(c, true), c.rng.coin(0.2)); }
NWV_FAMILY(scale_attr2, 6, 150) { Threads t(c.rng); pick_uni<float, uint64_t>(c, gen_scale(c), c.rng.coin(0.2)); }
NWV_FAMILY(small_attr2, 400, 12000) { Threads t(c.rng); pick_uni<float, uint64_t>(c, gen(c, false), true); }
#else
NWV_FAMILY(big_string, 12, 200) { Threads t(c.rng); G g = gen(c, true); c.rng.coin() ? unipartite<0, directedness::directed, std::string, int>(c, g, false) : unipartite<1, directedness::undirected, std::string, int>(c, g, false); }
NWV_FAMILY(small_string, 200, 6000) { Threads t(c.rng); G g = gen(c, false); c.rng.coin() ? unipartite<0, directedness::directed, std::string, int>(c, g, true) : unipartite<1, directedness::undirected, std::string, int>(c, g, true); }
#endif
NWV_MAIN
