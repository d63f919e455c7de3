// P21: k-core decomposition leaves exactly the k-core.
#include <nwv/nw.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/algorithms/k_core.hpp>
#include <nwgraph/vovos.hpp>
using namespace nwv;
using nwg::directedness;
static void run(Ctx& c, int big) {
  GenOpt o; o.simple_undirected = true; o.max_n = c.rng.of({3, 8, 25, 80, 200}); o.density = c.rng.of({1, 3, 6, 12});
  G g; if (big == 2) g = c.rng.coin(0.4) ? clique_graph(c.rng, 260 + c.rng.below(60)) : scale_graph(c.rng, true, c.rng.coin(0.2)); else if (big) { size_t n = c.rng.logsize(300, 6000); g = big_graph(c.rng, n, (size_t)(n * (1 + 6 * c.rng.unit())), o); } else g = random_graph(c.rng, o);
  Adj a = und_adj(g); size_t maxd = 0; for (auto& r : a) maxd = std::max(maxd, r.size());
  int k = c.rng.coin(0.85) ? (int)c.rng.below(2 + std::min<size_t>(maxd, 8)) : (int)c.rng.below(maxd + 3);
  if (big == 2) k = c.rng.coin(0.6) ? (int)c.rng.below(4) : g.n < 1000 ? (int)(250 + c.rng.below(80)) : (int)c.rng.below(maxd + 3);
  // reference: delete vertices of too small degree until nothing changes, whole passes
  std::vector<char> in(g.n, 1); bool ch = true;
  while (ch) { ch = false; for (size_t v = 0; v < g.n; ++v) if (in[v]) { int d = 0; for (V w : a[v]) d += in[w]; if (d < k) { in[v] = 0; ch = true; } } }
  size_t left = std::count(in.begin(), in.end(), 1);
  c.input(g.digest()); c.input(k); c.describe(g.str() + fmt(" k=%d core=%zu", k, left)); c.interesting(left > 0 && left < g.n);
  auto el = make_el<directedness::undirected>(g);
  nwg::adjacency<0> csr(el, c.rng.coin());
  auto judge = [&](const char* A, auto&& res) {
    auto& [filter, n] = res;
    if (n != left) { c.fail(std::string(A) + ":count", fmt("%zu vertices remain instead of %zu", (size_t)n, left)); return; }
    std::set<E> rem;
    for (auto& [p, f] : filter) if (f) rem.insert({(V)p.first, (V)p.second});
    size_t want = 0;
    for (auto [u, v] : g.e) {
      bool r = !in[u] || !in[v]; want += r;
      if (r != (rem.count({std::min(u, v), std::max(u, v)}) > 0)) { c.fail(std::string(A) + ":edge", fmt("edge %u-%u is %s the core but %s as removed", u, v, r ? "outside" : "inside", r ? "not reported" : "reported")); return; }
    }
    if (rem.size() != want) c.fail(std::string(A) + ":extra", fmt("%zu edges reported removed instead of %zu", rem.size(), want));
    c.count("k_core runs"); c.count("edges checked", g.e.size()); c.count("core vertices", left);
  };
  judge("k_core", nwg::k_core(csr, k));
  if (!big && c.rng.coin(0.3)) { nwg::adjacency<1> t(el); judge("k_core-by-target", nwg::k_core(t, k)); }
}
NWV_FAMILY(big, 40, 1000) { run(c, true); }
NWV_FAMILY(scale, 6, 100) { run(c, 2); }
NWV_FAMILY(small, 12000, 200000) { run(c, false); }
NWV_MAIN
