// P22: Jaccard similarity is exact for every edge.
#include <nwv/edges.hpp>
#include <nwgraph/algorithms/jaccard.hpp>
using namespace nwv;
using nwg::directedness;
static void run(Ctx& c, int big) {
  GenOpt o; o.max_n = c.rng.of({3, 8, 25, 60}); o.density = c.rng.of({2, 5, 10}); o.dups = false; bool loops = c.rng.coin(0.3); o.loops = loops;
  G g; if (big == 2) { g.kind = "hubs"; g.n = 66000 + c.rng.below(9000); size_t h = 2 + c.rng.below(2); for (size_t i = 0; i < h; ++i) { for (size_t j = i + 1; j < h; ++j) g.e.push_back({(V)i, (V)j}); for (size_t j = h; j < g.n; ++j) if (c.rng.coin(0.995)) g.e.push_back({(V)i, (V)j}); } } else if (big) { size_t n = c.rng.logsize(100, 1500); g = big_graph(c.rng, n, (size_t)(n * (1 + 10 * c.rng.unit())), o); } else g = random_graph(c.rng, o);
  int shape = big == 2 ? 2 : (int)c.rng.below(3);    // symmetric, as generated, upward only
  std::set<E> es; for (auto [u, v] : g.e) { if (shape == 0) { es.insert({u, v}); es.insert({v, u}); } else if (shape == 1) es.insert({u, v}); else es.insert({std::min(u, v), std::max(u, v)}); }
  g.e.assign(es.begin(), es.end()); if (c.rng.coin()) c.rng.shuffle(g.e);
  c.input(g.digest()); c.describe(g.str() + fmt(" shape=%d", shape));
  std::vector<std::set<V>> nb(g.n); for (auto& [u, v] : g.e) nb[u].insert(v);
  std::vector<double> w(g.e.size()); for (auto& x : w) x = -1 - (double)c.rng.below(1000);
  std::map<E, double> old; for (size_t i = 0; i < w.size(); ++i) old[g.e[i]] = w[i];
  auto a = make_csr_w<0, double>(g, w, true);
  size_t ret = nwg::jaccard_similarity(a, [](auto&& e) -> auto& { return std::get<1>(e); });
  V u = 0; size_t n = 0, shared = 0, seen = 0;
  for (auto&& row : a) {
    for (auto&& e : row) {
      V v = std::get<0>(e); double x = std::get<1>(e); ++seen;
      if (!es.count({u, v})) { c.fail("edges", "the edges changed"); return; }
      if (u < v) {
        size_t i = 0; for (V z : nb[u].size() < nb[v].size() ? nb[u] : nb[v]) i += nb[u].count(z) && nb[v].count(z);
        double want = (double)i / (double)(nb[u].size() + nb[v].size() - i); ++n; shared += i > 0;
        if (std::abs(x - want) > 1e-12) { c.fail("value", fmt("similarity of %u-%u is %.9g instead of %.9g", u, v, x, want)); return; }
      } else if (x != old[{u, v}]) { c.fail("other", fmt("edge %u-%u was not to be touched", u, v)); return; }
    }
    ++u;
  }
  c.check(seen == es.size() && u == g.n, "edges", "the edges changed");
  c.check(ret == n, "count", "%zu edges reported instead of %zu", ret, n);
  c.interesting(shared > 0); c.count("similarities checked", n); c.count("similarities above zero", shared);
}
NWV_FAMILY(big, 60, 1500) { run(c, true); }
NWV_FAMILY(scale, 3, 40) { run(c, 2); }
NWV_FAMILY(small, 12000, 200000) { run(c, false); }
NWV_MAIN
