// P03: edge-list transformations do exactly their documented rewriting; each result is compared with the same
// transformation of a plain vector of tuples.
#include <nwv/edges.hpp>
using namespace nwv;
using nwg::directedness;
constexpr auto DIR = directedness::directed, UND = directedness::undirected;

template <class F> static void with_policy(Rng& r, F f) {
#if PART == 0
  if (r.coin(0.25)) return f(std::execution::par);
#endif
  if (r.coin(0.3)) f(std::execution::seq); else f(nwg::default_execution_policy{});
}
// two edges are known to compare equal only in their end points: attributes identify where an edge came from
template <bool bip, directedness D, class... A> struct Seq {
  using EL = std::conditional_t<bip, nwg::bi_edge_list<D, A...>, nwg::edge_list<D, A...>>;
  using T = Tup<A...>;
  Ctx& c; EL el; std::vector<T> m; size_t n[2]; std::string trail; int sorted_by = -1;    // 0/1: equal pairs are adjacent
  Seq(Ctx& c, const G& g) : c(c), el(make(g)) {
    m = with_attrs<A...>(g); n[0] = n[1] = g.n;
    push_all(el, m);
  }
  static EL make(const G& g) { if constexpr (bip) return EL(g.n, g.n); else return EL(g.n); }
  template <size_t I> static V ep(const T& t) { return std::get<I>(t); }
  static std::pair<V, V> ends(const T& t, int idx) { return idx ? std::pair<V, V>{std::get<1>(t), std::get<0>(t)} : std::pair<V, V>{std::get<0>(t), std::get<1>(t)}; }
  [[noreturn]] void bad(const char* op, const std::string& s) { c.die(op, trail + ": " + s); }
  void same(const char* op, const std::vector<T>& got, const std::vector<T>& want) {
    if (got.size() != want.size()) bad(op, fmt("%zu edges instead of %zu", got.size(), want.size()));
    for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == want[i])) bad(op, fmt("edge %zu is %s instead of %s", i, show(got[i]).c_str(), show(want[i]).c_str()));
  }
  void permuted(const char* op, const std::vector<T>& got) { auto d = differ(got, m); if (d != "") bad(op, "not a permutation of the edges: " + d); }
  void after(const char* op) {
    if ((size_t)nwg::num_vertices(el) != n[0]) bad(op, fmt("vertex count changed to %zu from %zu", (size_t)nwg::num_vertices(el), n[0]));
    if constexpr (bip) if ((size_t)nwg::num_vertices(el, 1) != n[1]) bad(op, "second vertex count changed");
    if (el.size() != m.size() || nwg::num_edges(el) != m.size()) bad(op, fmt("edge count %zu instead of %zu", (size_t)el.size(), m.size()));
    c.count(std::string("transformations: ") + op); c.count("edges compared", m.size());
  }
  template <int idx> void sort_op(int kind) {
    const char* names[] = {"sort_by", "stable_sort_by", "lexical_sort_by", "lexical_stable_sort_by"};
    const char* op = names[kind]; trail += fmt(" %s<%d>", op, idx);
    with_policy(c.rng, [&](auto p) {
      switch (kind) { case 0: nwg::sort_by<idx>(el, p); break; case 1: nwg::stable_sort_by<idx>(el, p); break; case 2: nwg::lexical_sort_by<idx>(el, p); break; default: nwg::lexical_stable_sort_by<idx>(el, p); }
    });
    auto got = content(el); permuted(op, got);
    auto want = m;
    if (kind == 1) { std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return ep<idx>(a) < ep<idx>(b); }); same(op, got, want); }
    else if (kind == 3) { std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return ends(a, idx) < ends(b, idx); }); same(op, got, want); }
    else for (size_t i = 1; i < got.size(); ++i) {
      bool ok = kind == 0 ? ep<idx>(got[i - 1]) <= ep<idx>(got[i]) : ends(got[i - 1], idx) <= ends(got[i], idx);
      if (!ok) bad(op, fmt("edges %zu and %zu are out of order: %s %s", i - 1, i, show(got[i - 1]).c_str(), show(got[i]).c_str()));
    }
    m = got; sorted_by = kind >= 2 ? idx : -1;
    after(op);
  }
  void uniq_op() {
    if (sorted_by < 0) { if (c.rng.coin()) sort_op<0>(2 + (int)c.rng.below(2)); else sort_op<1>(2 + (int)c.rng.below(2)); }
    trail += " uniq"; with_policy(c.rng, [&](auto p) { nwg::uniq(el, p); });
    auto got = content(el);
    std::vector<std::pair<V, V>> want; for (auto& t : m) if (want.empty() || want.back() != ends(t, 0)) want.push_back(ends(t, 0));
    if (got.size() != want.size()) bad("uniq", fmt("%zu edges remain instead of %zu", got.size(), want.size()));
    auto s = sorted(m);
    for (size_t i = 0; i < got.size(); ++i) {
      if (ends(got[i], 0) != want[i]) bad("uniq", fmt("edge %zu is %s, expected the pair %u %u", i, show(got[i]).c_str(), want[i].first, want[i].second));
      if (!std::binary_search(s.begin(), s.end(), got[i])) bad("uniq", fmt("edge %zu %s with these attributes was never pushed", i, show(got[i]).c_str()));
    }
    m = got; after("uniq");
  }
  void loops_op() {
    trail += " remove_self_loops"; nwg::remove_self_loops(el);
    std::vector<T> want; for (auto& t : m) if (std::get<0>(t) != std::get<1>(t)) want.push_back(t);
    auto got = content(el); auto d = differ(got, want); if (d != "") bad("remove_self_loops", d);
    for (auto& t : got) if (std::get<0>(t) == std::get<1>(t)) bad("remove_self_loops", "a self-loop remains");
    if (got != want) sorted_by = -1;
    m = got; after("remove_self_loops");
  }
  template <int idx> void tri_op() {
    bool pred = c.rng.coin(); int how = (int)c.rng.below(3); if (how == 2 && !pred) how = 1;
    trail += fmt(" swap_to_triangular<%d>(%s)", idx, pred ? "predecessor" : "successor");
    const std::string word = pred ? "predecessor" : "successor";
    if (how == 0) nwg::swap_to_triangular<idx>(el, word);
    else if (how == 1) nwg::swap_to_triangular<idx>(el, pred ? nwg::succession::predecessor : nwg::succession::successor);
    else nwg::swap_to_triangular<idx, EL, nwg::succession::predecessor>(el, std::execution::par_unseq);
    auto got = content(el);
    for (auto& t : m) { bool first_small = (idx == 0) != pred; if (first_small ? std::get<0>(t) > std::get<1>(t) : std::get<0>(t) < std::get<1>(t)) t = swapped(t); }
    same("swap_to_triangular", got, m); sorted_by = -1; after("swap_to_triangular");
  }
  void run(size_t steps) {
    for (size_t i = 0; i < steps; ++i) {
      switch (c.rng.below(bip ? 10 : 14)) {
        case 0: case 1: case 2: case 3: sort_op<0>((int)c.rng.below(4)); break;
        case 4: case 5: case 6: case 7: sort_op<1>((int)c.rng.below(4)); break;
        case 8: case 9: uniq_op(); break;
        case 10: case 11: if constexpr (!bip) loops_op(); break;
        default: if constexpr (!bip) { if (c.rng.coin()) tri_op<0>(); else tri_op<1>(); } break;
      }
    }
  }
};
static G graph(Ctx& c, bool large) {
  G g;
  if (large) { size_t n = c.rng.of<size_t>({3, 20, 60, 400, 5000}); g = big_graph(c.rng, n, 400 + c.rng.below(c.thorough ? 20000 : 4000)); if (c.rng.coin(0.2)) std::sort(g.e.begin(), g.e.end()); }
  else g = random_graph(c.rng, {.max_n = (size_t)c.rng.of<int>({6, 12, 60})});
  if (c.rng.coin(0.6) && !g.e.empty()) for (size_t i = c.rng.below(g.e.size() / 2 + 2); i-- > 0;) g.e.push_back(g.e[c.rng.below(g.e.size())]);
  if (c.rng.coin(0.5)) for (size_t i = c.rng.below(g.e.size() / 4 + 2); i-- > 0;) { V a = (V)c.rng.below(g.n); g.e.insert(g.e.begin() + c.rng.below(g.e.size() + 1), E{a, a}); }
  if (g.n && c.rng.coin(0.15)) { V f = 0xfffffffeu / (V)g.n; for (auto& e : g.e) { e.first *= f; e.second *= f; } g.n = (g.n - 1) * (size_t)f + 1; }    // ids all over their type
  c.describe(g.str()); c.input(g.digest()); c.interesting(g.e.size() > 1);
  return g;
}
template <bool bip, directedness D, class... A> static void go(Ctx& c, bool large) { Threads th(c.rng); Seq<bip, D, A...> s(c, graph(c, large)); s.run(1 + c.rng.below(large ? 4 : 8)); }
#if PART == 0
NWV_FAMILY(plain, 2500, 60000) { go<false, DIR>(c, false); }
NWV_FAMILY(large_plain, 60, 2000) { go<false, DIR>(c, true); }
#elif PART == 1
NWV_FAMILY(weighted, 3000, 80000) { go<false, UND, double>(c, false); }
NWV_FAMILY(large_weighted, 120, 4000) { go<false, UND, double>(c, true); }
#elif PART == 2
NWV_FAMILY(two_attributes, 3000, 80000) { go<false, DIR, std::string, double>(c, false); }
NWV_FAMILY(large_two_attributes, 60, 2000) { go<false, DIR, std::string, double>(c, true); }
#else
NWV_FAMILY(bipartite, 2500, 60000) { go<true, DIR, int>(c, false); }
NWV_FAMILY(large_bipartite, 60, 2000) { go<true, DIR, int>(c, true); }
#endif
NWV_MAIN
