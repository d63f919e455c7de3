// P16: betweenness centrality counts shortest paths exactly.
#include <nwv/conc.hpp>
#include <nwgraph/algorithms/betweenness_centrality.hpp>
#if PART == 1
#include <nwgraph/experimental/algorithms/betweenness_centrality.hpp>
#endif
using namespace nwv;
using nwg::directedness;
using LD = long double;

struct Ref { std::vector<LD> with, without; LD maxpaths = 0; bool branching = false; };
// counts paths forward, then for every vertex sums sigma(s,v)/sigma(s,t)*sigma(v,t) through successors (multigraph paths)
static void add_source(const Adj& a, V s, Ref& r) {
  size_t n = a.size(); auto d = bfs_levels(a, s);
  std::vector<V> order; for (V v = 0; v < n; ++v) if (d[v] != INF) order.push_back(v);
  std::stable_sort(order.begin(), order.end(), [&](V x, V y) { return d[x] < d[y]; });
  std::vector<LD> sig(n, 0), dep(n, 0); sig[s] = 1;
  for (V u : order) for (V v : a[u]) if (d[v] == d[u] + 1) { if (sig[v] > 0) r.branching = true; sig[v] += sig[u]; }
  for (V u : order) r.maxpaths = std::max(r.maxpaths, sig[u]);
  for (size_t i = order.size(); i--;) { V u = order[i]; for (V v : a[u]) if (d[v] == d[u] + 1) dep[u] += sig[u] / sig[v] * (1 + dep[v]); }
  for (V u : order) { r.with[u] += dep[u]; if (u != s) r.without[u] += dep[u]; }
}
static Ref reference(const Adj& a, const std::vector<V>& src) { Ref r; r.with.assign(a.size(), 0); r.without = r.with; for (V s : src) add_source(a, s, r); return r; }
template <class S> static void judge(Ctx& c, const std::string& A, const std::vector<S>& got, std::vector<LD> want, bool norm) {
  if (got.size() != want.size()) { c.fail(A + ":size", fmt("%zu scores for %zu vertices", got.size(), want.size())); return; }
  LD mx = 0; for (LD x : want) mx = std::max(mx, x);
  if (norm && mx > 0) { for (LD& x : want) x /= mx; mx = 1; }
  LD tol = (sizeof(S) == 8 ? 1e-9L : 2e-4L);
  for (size_t v = 0; v < want.size(); ++v)
    if (!(fabsl(got[v] - want[v]) <= tol * (want[v] + (sizeof(S) == 8 ? mx * 1e-3L : mx)))) { c.fail(A + ":score", fmt("vertex %zu scores %.12g instead of %.12Lg (largest %Lg)", v, (double)got[v], want[v], mx)); return; }
  c.count(A + " runs"); c.count("scores checked", want.size());
}
#if PART == 0
template <class S, class A> static void parallel(Ctx& c, const nwg::adjacency<0>& a, const Ref& r, const std::vector<V>& src, const char* name) {
  std::vector<nwg::default_vertex_id_type> s(src.begin(), src.end()); bool norm = c.rng.coin(); int t = c.rng.of({1, 2, 3, 4, 7, 8, 16});
  std::vector<S> got;
  switch (c.rng.below(3)) {
    case 0: got = nwg::brandes_bc<S, A>(a, s, t, std::execution::par_unseq, std::execution::par_unseq, norm); break;
    case 1: got = nwg::brandes_bc<S, A>(a, s, t, std::execution::par, std::execution::seq, norm); break;
    default: got = nwg::brandes_bc<S, A>(a, s, t, std::execution::seq, std::execution::par, norm);
  }
  judge(c, name, got, r.with, norm);
  if (a.size() && c.rng.coin(0.3) && r.with.size()) {    // the library's own verifier agrees, and notices a wrong score
    std::vector<double> sc(r.with.begin(), r.with.end()); LD mx = 0; for (LD x : r.with) mx = std::max(mx, x);
    if (norm && mx > 0) for (auto& x : sc) x /= mx;
    if (mx < 1e6 && mx > 0) {
      c.check(nwg::BCVerifier<double, double>(a, s, sc, norm), "verifier:rejects", "BCVerifier rejects exact scores");
      sc[c.rng.below(sc.size())] += 0.01;
      c.check(!nwg::BCVerifier<double, double>(a, s, sc, norm), "verifier:accepts", "BCVerifier accepts a score that is off by 0.01");
      c.count("verifier verdicts", 2);
    }
  }
}
#endif
static void run(Ctx& c, G g, bool und, bool big) {
  Adj ad = und ? und_adj(g) : out_adj(g);
  std::vector<V> all(g.n); std::iota(all.begin(), all.end(), 0);
  std::vector<V> src; if (g.n) for (size_t i = 0, k = big ? 1 + c.rng.below(4) : c.rng.below(8); i < k; ++i) src.push_back((V)c.rng.below(g.n));
  Ref rs = reference(ad, src);
  if (rs.maxpaths > 1e15L) return;
  c.input(g.digest()); c.input(und); for (V s : src) c.input(s);
  LD top = 0; for (LD x : rs.with) top = std::max(top, x);
  c.describe(g.str() + fmt(" undirected=%d sources=%zu branching=%d", und, src.size(), rs.branching)); c.interesting(rs.branching && top > 2);
  Threads th(c.rng);
  nwg::adjacency<0> a(0);
  if (und) { auto el = make_el<directedness::undirected>(g); a = nwg::adjacency<0>(el, c.rng.coin()); } else a = make_csr<0>(g, c.rng.coin());
#if PART == 0
  switch (c.rng.below(4)) {
    case 0: parallel<float, size_t>(c, a, rs, src, "parallel-float-size"); break;
    case 1: parallel<double, size_t>(c, a, rs, src, "parallel-double-size"); break;
    case 2: parallel<double, double>(c, a, rs, src, "parallel-double-double"); break;
    default: if (rs.maxpaths < 4e9L) parallel<double, uint32_t>(c, a, rs, src, "parallel-double-u32");
  }
  if (g.n <= 60 && g.n) {
    Ref ra = reference(ad, all);
    if (ra.maxpaths > 1e15L) return;
    bool norm = c.rng.coin();
    judge(c, "serial-float", nwg::brandes_bc(a, norm), ra.without, norm);
    judge(c, "serial-double", nwg::brandes_bc<nwg::adjacency<0>, double, double>(a, !norm), ra.without, !norm);
    if (c.rng.coin(0.3)) judge(c, "exact", nwg::exact_brandes_bc<double, size_t>(a, c.rng.of({1, 2, 5, 8}), std::execution::par_unseq, std::execution::par_unseq, norm), ra.with, norm);
  }
#else
  if (!g.n) return;
  std::vector<nwg::default_vertex_id_type> s(src.begin(), src.end());
  LD mi = 0, mo = 0; for (LD x : rs.with) mi = std::max(mi, x); for (LD x : rs.without) mo = std::max(mo, x);
  using Gr = nwg::adjacency<0>;
  if (mo > 0) judge(c, "approx_brandes", nwg::approx_betweenness_brandes<Gr, double, double>(a, s), rs.without, true);
  bool norm = mo > 0 && c.rng.coin();
  judge(c, "bc2_v0", nwg::bc2_v0<Gr, double, double>(a, s, norm), rs.with, norm);
  judge(c, "bc2_v1", nwg::bc2_v1<Gr, double, double>(a, s, norm), rs.without, norm);
  if (!g.e.empty()) {
    judge(c, "bc2_v4", nwg::bc2_v4<double, double>(a, s, c.rng.of({1, 2, 3, 8}), std::execution::par_unseq, std::execution::par_unseq, norm), rs.with, norm);
  }
#endif
}
static void gen(Ctx& c, bool big) {
  GenOpt o; G g;
  if (big) { size_t n = c.rng.logsize(300, 6000); g = big_graph(c.rng, n, (size_t)(n * (1 + 5 * c.rng.unit())), o); }
  else { o.max_n = c.rng.of({2, 6, 15, 40, 60, 150}); o.density = c.rng.of({1, 2, 5}); g = random_graph(c.rng, o); }
  run(c, g, c.rng.coin(0.6), big);
}
NWV_FAMILY(big, 60, 800) { gen(c, true); }
NWV_FAMILY(scale, 5, 100) { run(c, scale_graph(c.rng, false, c.rng.coin(0.3)), c.rng.coin(0.7), true); }
NWV_FAMILY(small, 2500, 40000) { gen(c, false); }
NWV_FAMILY(empty, 4, 4) { G g; g.n = c.index; c.input(c.index); run(c, g, false, false); }
NWV_CONC_MAIN
