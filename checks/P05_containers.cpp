// P05: every graph container gives the same answers through the generic interface.
// Oracle: the generated edge list itself (rows, counts, attributes) and independent reference algorithms.
#include <nwv/edges.hpp>
#include <forward_list>
#include <list>
#include <set>
#include <deque>
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
#include <nwgraph/vofos.hpp>
#include <nwgraph/graph_concepts.hpp>
#if PART == 0
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#elif PART == 1
#include <nwgraph/algorithms/bfs.hpp>
#include <nwgraph/adaptors/bfs_range.hpp>
#include <nwgraph/algorithms/maximal_independent_set.hpp>
#include <nwgraph/algorithms/triangle_count.hpp>
#elif PART == 2
#include <nwgraph/algorithms/dijkstra.hpp>
#include <nwgraph/algorithms/betweenness_centrality.hpp>
#endif
using namespace nwv;

using Row1 = std::tuple<uint32_t, float>;
using Row2 = std::tuple<uint32_t, double, int>;
template <class T> static constexpr bool is_plain = std::is_integral_v<std::ranges::range_value_t<std::ranges::range_value_t<T>>>;

// the reference: for each row, the (target, attributes...) entries that the edge list calls for
template <class... A> using Ref = std::vector<std::vector<std::tuple<V, A...>>>;
template <class... A> static Ref<A...> ref_rows(const G& g, const std::vector<Tup<A...>>& es, bool und) {
  Ref<A...> r(g.n);
  auto tail = [](const Tup<A...>& t) { return std::apply([](V, V b, auto... a) { return std::tuple<V, A...>(b, a...); }, t); };
  for (auto& t : es) { r[std::get<0>(t)].push_back(tail(t)); if (und) { auto s = swapped(t); r[std::get<0>(s)].push_back(tail(s)); } }
  return r;
}
template <class Graph> constexpr bool has_member_ne = requires(Graph g) { g.num_edges(); };
template <class Graph> constexpr bool has_to_be = requires(Graph g) { g.to_be_indexed_; };

// what one container holds, through the generic interface only
template <class Graph, class... A> static void verify_structure(Ctx& c, const std::string& nm, Graph& g, Ref<A...> want, bool as_set = false, bool order_kept = false, bool order_rev = false) {
  using id = nwg::vertex_id_t<Graph>;
  c.count("containers verified"); c.count("container " + nm);
  size_t n = want.size();
  if ((size_t)nwg::num_vertices(g) != n) c.die(nm + ":num_vertices", fmt("num_vertices is %zu, the graph has %zu", (size_t)nwg::num_vertices(g), n));
  if ((size_t)std::ranges::size(g) != n) c.die(nm + ":size", fmt("size is %zu, the graph has %zu vertices", (size_t)std::ranges::size(g), n));
  size_t rows = 0, total = 0;
  for (auto&& row : g) { (void)row; ++rows; }
  if (rows != n) c.die(nm + ":rows", fmt("iterates %zu rows for %zu vertices", rows, n));
  auto first = std::ranges::begin(g);
  for (size_t u = 0; u < n; ++u) {
    std::vector<std::tuple<V, A...>> got, via_it; size_t len = 0;
    for (auto&& e : g[(id)u]) {
      ++len;
      if constexpr (is_plain<Graph>) got.push_back(std::tuple<V>((V)nwg::target(g, e)));
      else {
        auto t = std::tuple<V, A...>(e); if (std::get<0>(t) != (V)nwg::target(g, e)) c.die(nm + ":target", "target differs from the stored neighbour");
        got.push_back(t);
      }
    }
    for (auto&& e : first[u]) { if constexpr (is_plain<Graph>) via_it.push_back(std::tuple<V>((V)nwg::target(g, e))); else via_it.push_back(std::tuple<V, A...>(e)); }
    if (got != via_it) c.die(nm + ":row-access", fmt("row %zu by index differs from the row by iterator", u));
    total += len;
    if constexpr (requires { nwg::degree(g, (id)u); }) { if ((size_t)nwg::degree(g, (id)u) != len) c.die(nm + ":degree", fmt("degree of %zu is %zu, its row holds %zu", u, (size_t)nwg::degree(g, (id)u), len)); c.count("degrees checked"); }
    if constexpr (requires { nwg::degree(g[(id)u]); }) { if ((size_t)nwg::degree(g[(id)u]) != len) c.die(nm + ":row-degree", fmt("degree of row %zu", u)); }
    auto w = want[u];
    if (as_set) { std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); }
    if (order_rev) std::reverse(w.begin(), w.end());
    if ((order_kept || order_rev) && got != w) c.die(nm + ":order", fmt("row %zu: %s", u, differ(got, w).c_str()));
    auto d = differ(got, w);
    if (!d.empty()) c.die(nm + ":content", fmt("row %zu: ", u) + d);
  }
  if constexpr (has_member_ne<Graph>) { if ((size_t)g.num_edges() != total) c.die(nm + ":num_edges", fmt("num_edges() is %zu, rows hold %zu", (size_t)g.num_edges(), total)); c.count("edge counts checked"); }
  if constexpr (has_to_be<Graph>) {
    if constexpr (requires { g.to_be_indexed_.size(); }) if (g.to_be_indexed_.size() != total) c.die(nm + ":entries", "stored entries differ from the row contents");
  }
  // the compressed containers know the source of a position, too
  if constexpr (requires { g.source((typename Graph::index_t)0); }) {
    const auto& cg = g; size_t pos = 0;
    for (size_t u = 0; u < n; ++u) for (size_t k = 0; k < want[u].size(); ++k, ++pos) if (total < 20000 || mix(pos) % 64 == 0) {
      if ((size_t)cg.source(pos) != u || (size_t)g.source(pos) != u) c.die(nm + ":source", fmt("position %zu lies in row %zu, not %zu", pos, u, (size_t)g.source(pos)));
      c.count("sources looked up");
    }
  }
  c.count("rows compared", n); c.count("entries compared", total);
}

// fills the standard containers row by row
template <class Graph, class... A> static Graph build_std(const Ref<A...>& want) {
  Graph g(want.size());
  for (size_t u = 0; u < want.size(); ++u)
    for (auto& t : want[u]) {
      using Rw = std::ranges::range_value_t<Graph>; using E = std::ranges::range_value_t<Rw>;
      E e; if constexpr (std::is_integral_v<E>) e = (E)std::get<0>(t); else e = E(t);
      if constexpr (requires { g[u].push_back(e); }) g[u].push_back(e); else if constexpr (requires { g[u].insert(e); }) g[u].insert(e); else g[u].push_front(e);
    }
  return g;
}

static G pick(Ctx& c, bool interesting_edges = true) {
  GenOpt o; o.max_n = c.thorough ? 120 : 40; o.loops = c.rng.coin(); o.dups = c.rng.coin();
  G g = random_graph(c.rng, o);
  c.input(g.digest()); c.interesting(g.e.size() >= 2);
  c.describe(g.str());
  return g;
}
// runs fn(name, graph, rows, flags) over every container; rows carry one float attribute, or none for plain ones
struct Flags { bool as_set = false, kept = false, rev = false; };
template <class Fn> static void all_containers(Ctx& c, const G& g0, bool und, Fn&& fn) {
  G g = g0;
  auto es = with_attrs<float>(g); auto want = ref_rows<float>(g, es, und);
  auto plain_es = with_attrs<>(g); auto want0 = ref_rows<>(g, plain_es, und);
  auto nn = [&](auto& gr) { return (size_t)nwg::num_vertices(gr); };
  auto from_lists = [&](auto dir) {
    constexpr auto D = decltype(dir)::value;
    nwg::edge_list<D, float> el(g.n); push_all(el, es);
    nwg::edge_list<D> pl(g.n); push_all(pl, plain_es);
    { nwg::adjacency<0, float> a(el); fn("adjacency", a, want, Flags{}); }
    { nwg::adjacency<0> a(pl, true); fn("sorted adjacency without attributes", a, want0, Flags{}); }
    { nwg::vov<0, float> a(el); fn("vector of vectors", a, want, Flags{}); }
    { nwg::adj_list<0, float> a(el); fn("vector of lists", a, want, Flags{}); }
    { nwg::adj_flist<0, float> a(el); fn("vector of forward lists", a, want, Flags{}); }
    { nwg::vov<0> a(pl); fn("vector of vectors without attributes", a, want0, Flags{}); }
    { nwg::adj_list<0> a(pl); fn("vector of lists without attributes", a, want0, Flags{}); }
  };
  if (und) from_lists(std::integral_constant<nwg::directedness, nwg::directedness::undirected>{});
  else from_lists(std::integral_constant<nwg::directedness, nwg::directedness::directed>{});
  { auto a = build_std<std::vector<std::vector<Row1>>, float>(want); fn("std vector<vector<tuple>>", a, want, Flags{.kept = true}); }
  { auto a = build_std<std::vector<std::list<Row1>>, float>(want); fn("std vector<list<tuple>>", a, want, Flags{.kept = true}); }
  { auto a = build_std<std::vector<std::forward_list<Row1>>, float>(want); fn("std vector<forward_list<tuple>>", a, want, Flags{.rev = true}); }
  { auto a = build_std<std::deque<std::vector<Row1>>, float>(want); fn("std deque<vector<tuple>>", a, want, Flags{.kept = true}); }
  { auto a = build_std<std::vector<std::vector<uint32_t>>>(want0); fn("std vector<vector<id>>", a, want0, Flags{.kept = true}); }
  { auto a = build_std<std::deque<std::set<uint32_t>>>(want0); fn("std deque<set<id>>", a, want0, Flags{.as_set = true}); }
  { auto a = build_std<std::vector<std::vector<int>>>(want0); fn("std vector<vector<int>>", a, want0, Flags{.kept = true}); }
}

#if PART == 0
NWV_FAMILY(structure, 250, 4000) {
  G g = pick(c); bool und = c.rng.coin(); Threads th(c.rng);
  all_containers(c, g, und, [&](const std::string& nm, auto& gr, auto& want, Flags f) {
    verify_structure(c, nm, gr, want, f.as_set, f.kept, f.rev);
    auto cp = gr; verify_structure(c, "copy of " + nm, cp, want, f.as_set, f.kept, f.rev);
  });
}
// many vertices, high degrees, long chains: the sizes at which a narrow counter gives up
NWV_FAMILY(scale, 2, 30) {
  G g = scale_graph(c.rng); c.input(g.digest()); c.interesting(true); c.describe(g.str()); bool und = c.rng.coin(); Threads th(c.rng);
  auto es = with_attrs<float>(g); auto want = ref_rows<float>(g, es, und);
  auto go = [&](auto dir) {
    nwg::edge_list<decltype(dir)::value, float> el(g.n); push_all(el, es);
    { nwg::adjacency<0, float> a(el); verify_structure<decltype(a), float>(c, "adjacency", a, want); }
    { nwg::vov<0, float> a(el); verify_structure<decltype(a), float>(c, "vector of vectors", a, want); }
    { nwg::adj_list<0, float> a(el); verify_structure<decltype(a), float>(c, "vector of lists", a, want); }
    { nwg::adj_flist<0, float> a(el); verify_structure<decltype(a), float>(c, "vector of forward lists", a, want); }
  };
  if (und) go(std::integral_constant<nwg::directedness, nwg::directedness::undirected>{}); else go(std::integral_constant<nwg::directedness, nwg::directedness::directed>{});
}
// graphs constructed with a number of vertices and no edges hold that many empty rows
template <class Graph> static void hollow(Ctx& c, const std::string& nm, Graph&& g, size_t rows) {
  size_t k = 0; for (auto&& row : g) { if (row.begin() != row.end()) c.die(nm + ":rows", fmt("row %zu is not empty", k)); ++k; if (k > rows + 10) break; }
  if (k != rows) c.die(nm + ":rows", fmt("iterates %zu rows of %zu", k, rows));
  if ((size_t)g.size() != rows) c.die(nm + ":size", fmt("size is %zu, there are %zu rows", (size_t)g.size(), rows));
  if constexpr (requires { nwg::degree(g, (uint32_t)0); }) for (size_t i = 0; i < rows; ++i) if ((size_t)nwg::degree(g, (uint32_t)i) != 0) c.die(nm + ":degree", fmt("row %zu has entries", i));
  if constexpr (has_member_ne<std::decay_t<Graph>>) if (g.num_edges() != 0) c.die(nm + ":num_edges", "an empty graph has edges");
  c.count("empty containers verified");
}
NWV_FAMILY(empty_graphs, 60, 1000) {
  size_t n = c.rng.logsize(1, 500), m = c.rng.logsize(1, 500); c.input(n * 1000 + m); c.interesting(n != m); c.describe(fmt("%zu and %zu vertices", n, m));
  std::array<size_t, 2> both{n, m};
  hollow(c, "adjacency(n)", nwg::adjacency<0, float>(n), n); hollow(c, "adjacency<1>(n)", nwg::adjacency<1>(n), n);
  { nwg::adjacency<0> a(n); if ((size_t)nwg::num_vertices(a) != n) c.die("adjacency(n):num_vertices", "differs from what was asked for"); }
  hollow(c, "biadjacency<0>(n0, n1)", nwg::biadjacency<0, float>(n, m), n);
  hollow(c, "biadjacency<0>({n0, n1})", nwg::biadjacency<0, float>(both), n); hollow(c, "biadjacency<1>({n0, n1})", nwg::biadjacency<1>(both), m);
  { nwg::biadjacency<0> a(both); if ((size_t)nwg::num_vertices(a, 0) != n || (size_t)nwg::num_vertices(a, 1) != m) c.die("biadjacency<0>({n0, n1}):num_vertices", "differs from what was asked for"); }
  { nwg::biadjacency<1> a(both); if ((size_t)nwg::num_vertices(a, 0) != m || (size_t)nwg::num_vertices(a, 1) != n) c.die("biadjacency<1>({n0, n1}):num_vertices", "the side it is indexed by does not come first"); }
  hollow(c, "vector of vectors(n)", nwg::vov<0, float>(n), n); hollow(c, "vector of lists(n)", nwg::adj_list<0>(n), n);
}
// two attributes, pushed directly into the containers in any order of rows, growing them
NWV_FAMILY(pushed, 200, 3000) {
  G g = pick(c); auto es = with_attrs<double, int>(g); auto want = ref_rows<double, int>(g, es, false);
  size_t hi = 0; for (auto& t : es) hi = std::max<size_t>(hi, std::get<0>(t) + 1);
  auto wg = want; wg.resize(hi);
  size_t start = c.rng.coin() ? 0 : c.rng.below(hi + 1);
  { nwg::vov<0, double, int> a(start); a.open_for_push_back(); for (auto& [u, v, x, y] : es) a.push_back(u, v, x, y); a.close_for_push_back(); verify_structure<decltype(a), double, int>(c, "pushed vector of vectors", a, wg, false, true); }
  { nwg::adj_list<0, double, int> a(start); a.open_for_push_back(); for (auto& [u, v, x, y] : es) a.push_back(u, v, x, y); a.close_for_push_back(); verify_structure<decltype(a), double, int>(c, "pushed vector of lists", a, wg, false, true); }
  { nwg::adj_flist<0, double, int> a(start); a.open_for_push_back(); for (auto& [u, v, x, y] : es) a.push_back(u, v, x, y); a.close_for_push_back(); verify_structure<decltype(a), double, int>(c, "pushed vector of forward lists", a, wg, false, false, true); }
}
// the edge list's own generic interface
NWV_FAMILY(edge_lists, 200, 3000) {
  G g = pick(c); auto es = with_attrs<double, int>(g);
  nwg::edge_list<nwg::directedness::directed, double, int> el(g.n); push_all(el, es);
  c.check((size_t)nwg::num_edges(el) == es.size(), "edge list:num_edges", "num_edges %zu, pushed %zu", (size_t)nwg::num_edges(el), es.size());
  c.check((size_t)nwg::num_vertices(el) == g.n, "edge list:num_vertices", "num_vertices %zu of %zu", (size_t)nwg::num_vertices(el), g.n);
  size_t i = 0;
  for (auto&& e : el) {
    if ((V)nwg::source(el, e) != std::get<0>(es[i]) || (V)nwg::target(el, e) != std::get<1>(es[i]) || std::get<2>(e) != std::get<2>(es[i]) || std::get<3>(e) != std::get<3>(es[i])) c.die("edge list:end points", fmt("edge %zu: source, target or attributes differ from what was pushed", i));
    ++i;
  }
  c.count("edges compared", i);
}
// the views take any container
NWV_FAMILY(views, 150, 2500) {
  G g = pick(c); bool und = c.rng.coin();
  all_containers(c, g, und, [&](const std::string& nm, auto& gr, auto& want, Flags f) {
    using Graph = std::decay_t<decltype(gr)>;
    if (f.as_set) return;
    std::vector<std::tuple<V, V>> exp, got; for (size_t u = 0; u < want.size(); ++u) for (auto& t : want[u]) exp.push_back({(V)u, std::get<0>(t)});
    if constexpr (!is_plain<Graph>) {
      for (auto&& e : nwg::make_edge_range(gr)) got.push_back({(V)std::get<0>(e), (V)std::get<1>(e)});
      auto d = differ(got, exp); if (!d.empty()) c.die(nm + ":edge_range", d);
      if constexpr (std::tuple_size_v<std::decay_t<decltype(want[0][0])>> == 2) {
        std::vector<std::tuple<V, V, float>> eg, ee; for (size_t u = 0; u < want.size(); ++u) for (auto& t : want[u]) ee.push_back({(V)u, std::get<0>(t), std::get<1>(t)});
        for (auto&& e : nwg::make_edge_range<0>(gr)) eg.push_back({(V)std::get<0>(e), (V)std::get<1>(e), (float)std::get<2>(e)});
        auto d2 = differ(eg, ee); if (!d2.empty()) c.die(nm + ":edge_range<0>", d2);
      }
      c.count("edges enumerated by edge_range", got.size());
    }
    size_t u = 0;
    for (auto&& [i] : nwg::plain_range(gr)) { if ((size_t)i != u) c.die(nm + ":plain_range", fmt("vertex %zu out of order", u)); ++u; }
    if (u != g.n) c.die(nm + ":plain_range", fmt("%zu of %zu vertices", u, g.n));
    u = 0;
    for (auto&& [i, row] : nwg::make_neighbor_range(gr)) {
      if ((size_t)i != u) c.die(nm + ":neighbor_range", fmt("row %zu out of order", u));
      std::vector<std::tuple<V>> a, b; for (auto&& e : row) a.push_back({(V)nwg::target(gr, e)}); for (auto& t : want[u]) b.push_back({std::get<0>(t)});
      auto d = differ(a, b); if (!d.empty()) c.die(nm + ":neighbor_range", d);
      ++u;
    }
    if (u != g.n) c.die(nm + ":neighbor_range", fmt("%zu of %zu rows", u, g.n));
    c.count("views compared");
  });
}
// containers accepted by (or kept out of) the concepts
NWV_FAMILY(concepts, 1, 1) {
  static_assert(nwg::adjacency_list_graph<nwg::adjacency<0, float>> && nwg::adjacency_list_graph<nwg::adjacency<1>> && nwg::adjacency_list_graph<nwg::vov<0, float>> && nwg::adjacency_list_graph<nwg::adj_list<0, float>> && nwg::adjacency_list_graph<nwg::adj_flist<0, float>>);
  static_assert(nwg::adjacency_list_graph<std::vector<std::vector<Row1>>> && nwg::adjacency_list_graph<std::vector<std::list<Row1>>> && nwg::adjacency_list_graph<std::vector<std::forward_list<Row1>>> && nwg::adjacency_list_graph<std::vector<std::vector<int>>> && nwg::adjacency_list_graph<std::deque<std::set<uint32_t>>>);
  static_assert(nwg::edge_list_graph<nwg::edge_list<nwg::directedness::directed, float>> && nwg::edge_list_graph<nwg::bi_edge_list<nwg::directedness::directed>>);
  c.input(1); c.interesting(true); c.count("concepts checked", 12);
}
#elif PART == 1
// generic algorithms give the same (or an equally valid) answer on every container
NWV_FAMILY(traversals, 200, 3000) {
  G g = pick(c); if (!g.n) return; bool und = c.rng.coin(); V root = c.rng.below(g.n);
  Adj ref = und ? und_adj(g) : out_adj(g); auto lv = bfs_levels(ref, root);
  all_containers(c, g, und, [&](const std::string& nm, auto& gr, auto&, Flags) {
    using id = nwg::vertex_id_t<std::decay_t<decltype(gr)>>;
    auto p = nwg::bfs(gr, (id)root);
    if (p.size() != g.n) c.die(nm + ":bfs", "parent list of the wrong length");
    for (size_t v = 0; v < g.n; ++v) {
      bool reached = p[v] != std::numeric_limits<id>::max();
      if (reached != (lv[v] != INF)) c.die(nm + ":bfs", fmt("vertex %zu: reached %d", v, (int)reached));
      if (reached && v != root && (lv[p[v]] + 1 != lv[v] || std::find(ref[p[v]].begin(), ref[p[v]].end(), (V)v) == ref[p[v]].end())) c.die(nm + ":bfs", fmt("vertex %zu: parent %zu is not one hop nearer", v, (size_t)p[v]));
    }
    c.count("bfs trees"); 
    std::vector<char> seen(g.n); size_t cnt = 0; uint64_t last = 0;
    if constexpr (requires { nwg::topdown_bfs_range(gr, (id)root); }) if constexpr (!is_plain<std::decay_t<decltype(gr)>>) {
      for (auto&& v : nwg::topdown_bfs_range(gr, (id)root)) {
        if ((size_t)v >= g.n || seen[v]) c.die(nm + ":bfs_range", "visited twice or not a vertex");
        if (lv[v] == INF || lv[v] < last) c.die(nm + ":bfs_range", "unreachable or out of distance order");
        seen[v] = 1; last = lv[v]; ++cnt;
      }
      size_t reach = 0; for (auto l : lv) reach += l != INF;
      if (cnt != reach) c.die(nm + ":bfs_range", fmt("%zu of %zu reachable vertices", cnt, reach));
      c.count("bfs views");
    }
  });
}
NWV_FAMILY(mis_and_triangles, 150, 2500) {
  GenOpt o; o.simple_undirected = true; o.max_n = c.thorough ? 120 : 40; G g = random_graph(c.rng, o);
  c.input(g.digest()); c.interesting(g.e.size() >= 3); c.describe(g.str());
  if (!g.n) return;
  Adj ref = und_adj(g);
  all_containers(c, g, true, [&](const std::string& nm, auto& gr, auto&, Flags) {
    std::vector<size_t> m; nwg::maximal_independent_set(gr, m);
    std::vector<char> in(g.n); for (auto v : m) { if (v >= g.n || in[v]) c.die(nm + ":mis", "not a vertex or listed twice"); in[v] = 1; }
    for (size_t v = 0; v < g.n; ++v) { size_t k = 0; for (auto w : ref[v]) k += in[w]; if (in[v] ? k > 0 : k == 0) c.die(nm + ":mis", fmt("vertex %zu: in the set %d, neighbours in the set %zu", v, (int)in[v], k)); }
    c.count("independent sets");
  });
  // oriented and sorted, as triangle counting asks
  G d; d.n = g.n; for (auto [a, b] : g.e) d.e.push_back({std::min(a, b), std::max(a, b)});
  std::sort(d.e.begin(), d.e.end());
  size_t want = triangles(d), thr = c.rng.range(1, 9);
  all_containers(c, d, false, [&](const std::string& nm, auto& gr, auto&, Flags) {
    using Graph = std::decay_t<decltype(gr)>;
    if constexpr (!is_plain<Graph>) {
      // forward lists are filled from the front; the reversed rows are not sorted, so they are sorted here through their own interface
      if constexpr (requires { gr[0].sort(); }) for (auto& row : gr) row.sort();
      else if constexpr (requires { gr[0].push_back(*gr[0].begin()); }) for (auto& row : gr) std::sort(row.begin(), row.end());
      if (nm == "adjacency") return;    // not sorted on construction
      size_t t = nwg::triangle_count(gr); if (t != want) c.die(nm + ":triangle_count", fmt("%zu triangles instead of %zu", t, want));
      if constexpr (requires { nwg::triangle_count(gr, thr); }) { t = nwg::triangle_count(gr, thr); if (t != want) c.die(nm + ":triangle_count-threads", fmt("%zu triangles instead of %zu with %zu threads", t, want, thr)); }
      c.count("triangle counts");
    }
  });
}
#elif PART == 2
NWV_FAMILY(distances, 200, 3000) {
  G g = pick(c); if (!g.n) return; bool und = c.rng.coin(); V root = c.rng.below(g.n);
  Adj ref = und ? und_adj(g) : out_adj(g); auto lv = bfs_levels(ref, root);
  // weights depend on the target only, so that containers without attributes can take part
  auto wt = [&](V v) { return 1.f + (v * 7 % 5); };
  std::vector<float> dist(g.n, std::numeric_limits<float>::max()); dist[root] = 0;
  for (size_t k = 0; k <= g.n; ++k) for (size_t u = 0; u < g.n; ++u) if (dist[u] != std::numeric_limits<float>::max()) for (auto v : ref[u]) dist[v] = std::min(dist[v], dist[u] + wt(v));
  all_containers(c, g, und, [&](const std::string& nm, auto& gr, auto&, Flags) {
    using id = nwg::vertex_id_t<std::decay_t<decltype(gr)>>;
    auto d = nwg::dijkstra<float>(gr, (id)root, [&](const auto& e) { return wt((V)nwg::target(gr, e)); });
    if (d.size() != g.n) c.die(nm + ":dijkstra", "wrong length");
    for (size_t v = 0; v < g.n; ++v) if (d[v] != dist[v]) c.die(nm + ":dijkstra", fmt("vertex %zu: %g instead of %g", v, (double)d[v], (double)dist[v]));
    c.count("distance vectors");
  });
}
NWV_FAMILY(centrality, 120, 2000) {
  G g = pick(c); if (!g.n) return;
  std::vector<double> first; std::string fn;
  all_containers(c, g, false, [&](const std::string& nm, auto& gr, auto&, Flags f) {
    using Graph = std::decay_t<decltype(gr)>;
    if constexpr (requires { typename Graph::vertex_id_type; }) {
      auto b = nwg::brandes_bc<Graph, double, double>(gr, false);
      if (b.size() != g.n) c.die(nm + ":brandes_bc", "wrong length");
      if (fn.empty()) { first.assign(b.begin(), b.end()); fn = nm; }
      for (size_t v = 0; v < g.n; ++v) if (std::abs(b[v] - first[v]) > 1e-6 * (1 + std::abs(first[v]))) c.die(nm + ":brandes_bc", fmt("vertex %zu: %g, but %g on %s", v, b[v], first[v], fn.c_str()));
      c.count("centrality vectors");
    }
  });
}
#endif
NWV_MAIN
