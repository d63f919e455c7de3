// P19: maximal independent sets are independent and maximal.   P20 (compiled with -DCOLOR): colouring is proper and complete.
#include <nwv/conc.hpp>
#include <nwgraph/vovos.hpp>
#ifdef COLOR
#include <nwgraph/algorithms/jones_plassmann_coloring.hpp>
#else
#include <nwgraph/algorithms/maximal_independent_set.hpp>
#include <nwgraph/algorithms/dag_based_mis.hpp>
#endif
using namespace nwv;
using nwg::directedness;
static G gen(Ctx& c, bool big, bool simple) {
  GenOpt o; o.simple_undirected = simple; o.max_n = c.rng.of({2, 5, 15, 50, 150}); o.density = c.rng.of({1, 3, 8, 20});
  G g; if (big) { size_t n = c.rng.logsize(500, 20000); g = big_graph(c.rng, n, (size_t)(n * (0.5 + 8 * c.rng.unit())), o); } else g = random_graph(c.rng, o);
  c.input(g.digest()); c.describe(g.str()); c.interesting(g.e.size() > 1);
  return g;
}
#ifndef COLOR
static void verify(Ctx& c, const std::string& A, const G& g, const std::vector<char>& in) {
  Adj a = und_adj(g); size_t k = 0;
  for (auto& [u, v] : g.e) if (u != v && in[u] && in[v]) { c.fail(A + ":independent", fmt("adjacent vertices %u and %u are both in the set", u, v)); return; }
  for (size_t v = 0; v < g.n; ++v) { k += in[v]; if (!in[v] && std::none_of(a[v].begin(), a[v].end(), [&](V w) { return in[w] && w != v; })) { c.fail(A + ":maximal", fmt("vertex %zu could be added", v)); return; } }
  c.count(A + " runs"); c.count("vertices checked", g.n); c.count("members", k);
}
template <class A> static void seq(Ctx& c, const std::string& name, const G& g, const A& a) {
  std::vector<size_t> m; nwg::maximal_independent_set(a, m);
  std::vector<char> in(g.n);
  for (size_t v : m) { if (v >= g.n) { c.fail(name + ":range", fmt("vertex %zu of %zu", v, g.n)); return; } if (in[v]) { c.fail(name + ":repeated", fmt("vertex %zu appears twice", v)); return; } in[v] = 1; }
  verify(c, name, g, in);
}
static void all(Ctx& c, const G& g, bool simple) {
  auto el = make_el<directedness::undirected>(g); bool s = c.rng.coin();
  nwg::adjacency<0> a(el, s);
  seq(c, "mis", g, a);
  if (c.rng.coin(0.3)) { std::vector<std::tuple<float>> at(g.e.size()); auto ew = make_el<directedness::undirected, float>(g, at); nwg::adjacency<1, float> b(ew); seq(c, "mis-weighted", g, b); }
  if (simple && g.n) {
    std::vector<bool> m(g.n, true); nwg::dag_based_mis(a, m);
    if (m.size() != g.n) { c.fail("dag_mis:size", "output resized"); return; }
    verify(c, "dag_mis", g, std::vector<char>(m.begin(), m.end()));
  }
}
#else
template <class A> static void color(Ctx& c, const std::string& name, const G& g, A& a) {
  std::vector<size_t> col(g.n, c.rng.below(5) ? (size_t)77777 : (size_t)0); nwg::jones_plassmann_coloring(a, col);
  if (col.size() != g.n) { c.fail(name + ":size", "colour vector resized"); return; }
  size_t mx = 0;
  for (auto& [u, v] : g.e) if (u != v && col[u] == col[v]) { c.fail(name + ":proper", fmt("adjacent vertices %u and %u both have colour %zu", u, v, col[u])); return; }
  for (size_t v = 0; v < g.n; ++v) { mx = std::max(mx, col[v]); if (col[v] >= g.n) { c.fail(name + ":range", fmt("vertex %zu has colour %zu", v, col[v])); return; } }
  c.count(name + " runs"); c.count("edges checked", g.e.size()); c.count("colours used", mx + (g.n ? 1 : 0));
}
static void all(Ctx& c, const G& g, bool) {
  auto el = make_el<directedness::undirected>(g); nwg::adjacency<0> a(el, c.rng.coin());
  color(c, "coloring", g, a);
  if (c.rng.coin(0.3)) { std::vector<std::tuple<float>> at(g.e.size()); auto ew = make_el<directedness::undirected, float>(g, at); nwg::adjacency<1, float> b(ew); color(c, "coloring-weighted", g, b); }
}
#endif
NWV_FAMILY(big, 60, 1500) { bool s = c.rng.coin(); all(c, gen(c, true, s), s); }
NWV_FAMILY(scale, 5, 100) { G g = c.rng.coin(0.3) ? clique_graph(c.rng, 260 + c.rng.below(60)) : scale_graph(c.rng, true); c.input(g.digest()); c.describe(g.str()); c.interesting(); all(c, g, true); }
NWV_FAMILY(simple, 3000, 60000) { all(c, gen(c, false, true), true); }
NWV_FAMILY(multi, 2000, 40000) { all(c, gen(c, false, false), false); }
NWV_FAMILY(edgeless, 6, 6) { G g; g.n = c.index; c.input(c.index); all(c, g, true); }
NWV_CONC_MAIN
