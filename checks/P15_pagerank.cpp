// P15: PageRank converges to the damped stationary distribution.
#include <nwv/conc.hpp>
#include <nwv/edges.hpp>
#include <nwgraph/vovos.hpp>
#include <nwgraph/algorithms/page_rank.hpp>
#include <nwgraph/experimental/algorithms/page_rank.hpp>
using namespace nwv;
using nwg::directedness;

// x = (1-d)/N + d * sum over in-neighbours j of x_j / outdegree(j), solved by long double iteration to machine precision
static std::vector<long double> solve(const Adj& in, const std::vector<uint32_t>& deg, long double d) {
  size_t n = in.size(); std::vector<long double> x(n, 1.0L / n), y(n);
  for (int it = 0; it < 100000; ++it) {
    long double e = 0;
    for (size_t i = 0; i < n; ++i) { long double z = 0; for (V j : in[i]) z += x[j] / deg[j]; y[i] = (1 - d) / n + d * z; e += fabsl(y[i] - x[i]); }
    std::swap(x, y);
    if (e < 1e-16L) break;
  }
  return x;
}
template <class Real> static void run(Ctx& c, const G& g) {
  Adj in = in_adj(g); std::vector<uint32_t> deg(g.n, 0); for (auto& [u, v] : g.e) ++deg[u];
  size_t maxin = 0; for (auto& r : in) maxin = std::max(maxin, r.size());
  Real d = (Real)c.rng.of({0.85, 0.5, 0.15, 0.95, 0.99, 0.0});
  bool dbl = sizeof(Real) == 8;
  Real thr = dbl ? (Real)c.rng.of({1e-4, 1e-6, 1e-9}) : (Real)c.rng.of({1e-2, 1e-4});
  std::vector<long double> x = solve(in, deg, d);
  size_t dangling = std::count(deg.begin(), deg.end(), 0u);
  c.input(g.digest()); c.describe(g.str() + fmt(" d=%g thr=%g dangling=%zu %s", (double)d, (double)thr, dangling, dbl ? "double" : "float"));
  c.interesting(g.e.size() > g.n / 2 && d > 0 && g.n > 2);
  Threads th(c.rng);
  long double eps = (dbl ? 2.3e-16L : 1.2e-7L) * (maxin + 16) * 4 / (1 - (long double)d);
  long double bound = (long double)d / (1 - (long double)d) * thr * 1.0001L + eps;
  auto el = make_el<directedness::directed>(g);
  nwg::adjacency<1> a(el, c.rng.coin());
  std::vector<nwg::default_vertex_id_type> degs(deg.begin(), deg.end());
  auto judge = [&](const char* A, const std::vector<Real>& r, bool converged = true) {
    long double e = 0, base = (1 - (long double)d) / g.n;
    if (r.size() != g.n) { c.fail(std::string(A) + ":size", fmt("%zu scores for %zu vertices", r.size(), g.n)); return; }
    for (size_t i = 0; i < g.n; ++i) {
      if (!(r[i] >= 0) || !(r[i] >= base * (1 - 1e-5L))) { c.fail(std::string(A) + ":negative", fmt("vertex %zu has score %g, at least %Lg is teleported to it", i, (double)r[i], base)); return; }
      if (in[i].empty() && converged && fabsl(r[i] - base) > base * 1e-5L) { c.fail(std::string(A) + ":source", fmt("vertex %zu has no in-edges and score %g instead of %Lg", i, (double)r[i], base)); return; }
      e += fabsl(r[i] - x[i]);
    }
    if (converged && !(e <= bound)) { c.fail(std::string(A) + ":scores", fmt("scores are off by %Lg in total, at most %Lg follows from the threshold", e, bound)); return; }
    c.count(std::string(A) + " runs"); c.count("scores checked", g.n);
  };
  std::vector<Real> r(g.n, (Real)-7);
  const size_t many = 20000;
  nwg::page_rank(a, degs, r, d, thr, many, th.n); judge("page_rank", r);
  if (c.rng.coin(0.3)) { nwg::page_rank(a, degs, r, d, thr, many, th.n); judge("page_rank-again", r); }
  if (c.rng.coin(0.2)) {    // with edge attributes, and on another container
    std::vector<Tup<double>> t = with_attrs<double>(g); nwg::edge_list<directedness::directed, double> ew(g.n); push_all(ew, t);
    nwg::adjacency<1, double> aw(ew); nwg::page_rank(aw, degs, r, d, thr, many, th.n); judge("page_rank-weighted", r);
  }
  {   // limited iterations: the weighted-maximum-norm error contracts with every sweep, whatever the interleaving
    size_t k = 1 + c.rng.below(12); nwg::page_rank(a, degs, r, d, (Real)0, k, th.n);
    long double f = 0, e0 = 0, e = 0;
    for (size_t i = 0; i < g.n; ++i) { f = std::max(f, 1 - ((1 - (long double)d) / g.n) / x[i]); e0 = std::max(e0, fabsl(1.0L / g.n - x[i]) / x[i]); }
    for (size_t i = 0; i < g.n; ++i) e = std::max(e, fabsl(r[i] - x[i]) / x[i]);
    long double lim = powl(std::max(0.0L, f), k) * e0 + eps * 4 * g.n;
    c.check(e <= lim, "page_rank-k:rate", "after %zu sweeps the largest relative error is %Lg, it contracts to at most %Lg", k, e, lim);
    c.count("limited-iteration runs");
  }
#ifndef MAIN_ONLY
  if (g.n <= 400) {
    nwg::page_rank_v1(a, degs, r, d, thr, many); judge("v1", r);
    nwg::page_rank_v4(a, degs, r, d, thr, many, th.n); judge("v4", r);
    nwg::page_rank_v9(a, degs, r, d, thr, many, th.n); judge("v9", r);
    nwg::page_rank_v8(a, degs, r, d, thr, many, th.n); judge("v8", r);
    nwg::page_rank_v14(a, degs, r, d, thr, many); judge("v14", r);
    nwg::page_rank_v10(a, degs, r, d, thr, many, th.n); judge("v10", r);
  }
#endif
}
static void one(Ctx& c, const G& g) { if (!g.n) return; c.rng.coin(0.7) ? run<double>(c, g) : run<float>(c, g); }
NWV_FAMILY(big, 60, 600) { size_t n = c.rng.logsize(1000, 20000); one(c, big_graph(c.rng, n, (size_t)(n * (1 + 8 * c.rng.unit())))); }
NWV_FAMILY(scale, 2, 30) { one(c, scale_graph(c.rng, false, c.rng.coin(0.2))); }
NWV_FAMILY(small, 900, 20000) { GenOpt o; o.max_n = c.rng.of({2, 6, 20, 60, 300}); o.density = c.rng.of({1, 3, 8}); one(c, random_graph(c.rng, o)); }
NWV_FAMILY(no_dangling, 500, 10000) {    // every vertex has an out-edge: scores sum to one
  GenOpt o; o.max_n = c.rng.of({3, 20, 100, 400}); o.density = 3; G g = random_graph(c.rng, o); if (!g.n) return;
  std::vector<char> has(g.n, 0); for (auto& e : g.e) has[e.first] = 1;
  for (size_t i = 0; i < g.n; ++i) if (!has[i]) g.e.push_back({(V)i, (V)c.rng.below(g.n)});
  one(c, g);
}
NWV_CONC_MAIN
