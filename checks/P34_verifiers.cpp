// P34: the library's own result verifiers accept exactly the correct results.
#include <nwv/nw.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/algorithms/bfs.hpp>
#include <nwgraph/algorithms/connected_components.hpp>
#include <nwgraph/algorithms/betweenness_centrality.hpp>
using namespace nwv;
using nwg::directedness;
static const V NONE = std::numeric_limits<V>::max();
static G pick_graph(Ctx& c) {
  GenOpt o; o.max_n = c.rng.of({2, 5, 15, 40, 120}); o.density = c.rng.of({0.5, 1.5, 4.0});
  G g = random_graph(c.rng, o); if (!g.n) g.n = 1;
  if (c.rng.coin(0.3)) g = symmetric(g);
  c.input(g.digest()); c.describe(g.str());
  return g;
}
// ---- breadth-first search trees
static bool tree_ok(const G& g, size_t src, const std::vector<uint64_t>& d, const Adj& in, const std::vector<V>& p) {
  for (size_t v = 0; v < g.n; ++v) {
    if ((d[v] == INF) != (p[v] == NONE)) return false;
    if (d[v] == INF) continue;
    if (v == src) { if (p[v] != v) return false; continue; }
    if (p[v] >= g.n || d[p[v]] == INF || d[p[v]] + 1 != d[v] || std::find(in[v].begin(), in[v].end(), p[v]) == in[v].end()) return false;
  }
  return true;
}
static void bfs_verdicts(Ctx& c) {
  G g = pick_graph(c); auto a = make_csr<0>(g, c.rng.coin()); auto t = make_csr<1>(g, c.rng.coin());
  size_t src = c.rng.below(g.n); if (!g.e.empty() && c.rng.coin(0.7)) src = c.rng.pick(g.e).first;
  auto d = bfs_levels(out_adj(g), src); auto in = in_adj(g);
  std::vector<V> p(g.n, NONE); size_t reached = 0;
  for (size_t v = 0; v < g.n; ++v) if (d[v] != INF) {
    ++reached; if (v == src) { p[v] = (V)v; continue; }
    std::vector<V> ok; for (V u : in[v]) if (d[u] != INF && d[u] + 1 == d[v]) ok.push_back(u);
    p[v] = c.rng.pick(ok);
  }
  c.interesting(reached > 1 && reached < g.n);
  auto ask = [&](const std::vector<V>& q, const char* what) {
    auto copy = q; bool want = tree_ok(g, src, d, in, q), got = nwg::BFSVerifier(a, t, (V)src, copy);
    c.check(got == want, want ? "bfs:rejects" : "bfs:accepts", "BFSVerifier says %d of a parent vector that is %s (%s, source %zu)", got, want ? "a shortest-hop tree" : "not one", what, src);
    c.check(copy == q, "bfs:changes", "BFSVerifier changed the parents");
    c.count(want ? "correct trees judged" : "wrong trees judged");
  };
  ask(p, "a random tree");
  for (int i = 0; i < 8; ++i) {
    auto q = p; V v = (V)c.rng.below(g.n);
    if (c.rng.coin(0.3)) { std::vector<V> r; for (V x = 0; x < g.n; ++x) if (d[x] != INF && !in[x].empty()) r.push_back(x); if (!r.empty()) v = c.rng.pick(r); }
    switch (c.rng.below(6)) {
      case 0: q[v] = NONE; ask(q, "one parent removed"); break;
      case 1: q[v] = (V)c.rng.below(g.n); ask(q, "one parent replaced"); break;
      case 2: q[v] = v; ask(q, "one vertex its own parent"); break;
      case 3: q[src] = (V)c.rng.below(g.n); ask(q, "parent of the source replaced"); break;
      case 4: if (!in[v].empty()) { q[v] = c.rng.pick(in[v]); ask(q, "parent replaced by another in-neighbour"); } break;
      default: { std::vector<V> same; for (V x = 0; x < g.n; ++x) if (d[v] != INF && d[x] != INF && d[x] + 1 == d[v]) same.push_back(x);
        if (!same.empty()) { q[v] = c.rng.pick(same); ask(q, "parent replaced by a vertex of the right level"); } }
    }
  }
}
// ---- component labels
static void cc_verdicts(Ctx& c) {
  G g = pick_graph(c); auto comp = components(g); size_t n = g.n;
  bool und = c.rng.coin();
  auto el = make_el<directedness::undirected>(g); nwg::adjacency<0> s(el), none0(0); nwg::adjacency<1> none(0);
  auto a = make_csr<0>(g); auto t = make_csr<1>(g);
  size_t nc = 0; for (size_t v = 0; v < n; ++v) nc += comp[v] == v;
  c.interesting(nc > 1 && nc < n);
  auto valid = [&](const std::vector<V>& l) {
    std::map<V, V> x, y;
    for (size_t v = 0; v < n; ++v) if (x.try_emplace(comp[v], l[v]).first->second != l[v] || y.try_emplace(l[v], comp[v]).first->second != comp[v]) return false;
    return true;
  };
  auto ask = [&](std::vector<V> l, const char* what) {
    bool want = valid(l), got = und ? nwg::CCVerifier(s, none, l) : nwg::CCVerifier(a, t, l);
    c.check(got == want, want ? "cc:rejects" : "cc:accepts", "CCVerifier says %d of a labelling that is %s (%s)", got, want ? "right" : "wrong", what);
    c.count(want ? "correct labellings judged" : "wrong labellings judged");
  };
  std::vector<V> name(n); std::iota(name.begin(), name.end(), 0); if (c.rng.coin()) c.rng.shuffle(name);
  if (c.rng.coin(0.3)) for (auto& x : name) x = x * 977 + 1000000;
  std::vector<V> l(n); for (size_t v = 0; v < n; ++v) l[v] = name[comp[v]];
  ask(l, "random names");
  for (int i = 0; i < 8; ++i) {
    auto q = l; V v = (V)c.rng.below(n), w = (V)c.rng.below(n);
    switch (c.rng.below(4)) {
      case 0: q[v] = l[w]; ask(q, "one label replaced"); break;
      case 1: for (auto& x : q) if (x == l[v]) x = l[w]; ask(q, "two components under one label"); break;
      case 2: q[v] = 3999999999u; ask(q, "one label fresh"); break;
      default: { size_t k = 0; for (size_t u = 0; u < n; ++u) if (l[u] == l[v] && c.rng.coin()) { q[u] = 3999999998u; ++k; } ask(q, "part of a component renamed"); }
    }
  }
}
// ---- centrality scores
template <class S, class A> static void bc_verdicts(Ctx& c) {
  G g = pick_graph(c); if (g.n > 60) return; auto a = make_csr<0>(g, c.rng.coin()); auto out = out_adj(g);
  std::vector<V> srcs; size_t ns = 1 + c.rng.below(4); if (c.rng.coin(0.3)) for (V v = 0; v < g.n; ++v) srcs.push_back(v); else for (size_t i = 0; i < ns; ++i) srcs.push_back((V)c.rng.below(g.n));
  std::vector<long double> sc(g.n, 0); bool norm = c.rng.coin(0.7);
  for (V s : srcs) {
    auto d = bfs_levels(out, s); std::vector<long double> cnt(g.n, 0), del(g.n, 0); cnt[s] = 1;
    std::vector<V> ord; for (V v = 0; v < g.n; ++v) if (d[v] != INF) ord.push_back(v);
    std::stable_sort(ord.begin(), ord.end(), [&](V x, V y) { return d[x] < d[y]; });
    for (V u : ord) for (V v : out[u]) if (d[v] == d[u] + 1) cnt[v] += cnt[u];
    for (size_t i = ord.size(); i-- > 0;) { V u = ord[i]; for (V v : out[u]) if (d[v] == d[u] + 1) del[u] += cnt[u] / cnt[v] * (1 + del[v]); sc[u] += del[u]; }
  }
  long double mx = *std::max_element(sc.begin(), sc.end());
  if (norm && mx > 0) for (auto& x : sc) x /= mx;
  // the documented tolerance is 1e-6 absolute; scores of type float only carry 24 bits
  if (std::is_same_v<S, float> && !norm && mx > 1) return;
  std::vector<S> right(g.n); for (size_t v = 0; v < g.n; ++v) right[v] = (S)sc[v];
  c.interesting(mx > 0);
  auto ask = [&](std::vector<S> x, bool want, const char* what) {
    auto q = srcs; bool got = nwg::BCVerifier<S, A>(a, q, x, norm);
    c.check(got == want, want ? "bc:rejects" : "bc:accepts", "BCVerifier says %d of scores that are %s (%s, normalised=%d)", got, want ? "right" : "wrong", what, norm);
    c.count(want ? "correct scores judged" : "wrong scores judged");
  };
  ask(right, true, "reference");
  for (int i = 0; i < 4; ++i) {
    auto x = right; size_t v = c.rng.below(g.n);
    S off = (S)(c.rng.of({0.001, 0.01, 0.3, 0.9, 1.5, 40.0}) * (c.rng.coin() ? 1 : -1));
    x[v] += off; ask(x, false, fmt("one score off by %g", (double)off).c_str());
  }
  { auto x = right; x[c.rng.below(g.n)] = std::numeric_limits<S>::quiet_NaN(); ask(x, false, "one score not a number"); }
  if (mx > 0) { auto x = right; for (auto& y : x) y = y * (S)1.25; ask(x, false, "all scores scaled"); }
}
NWV_FAMILY(bfs, 3000, 40000) { bfs_verdicts(c); }
NWV_FAMILY(cc, 3000, 40000) { cc_verdicts(c); }
NWV_FAMILY(bc, 2000, 30000) {
  switch (c.rng.below(4)) { case 0: return bc_verdicts<float, double>(c); case 1: return bc_verdicts<double, double>(c); case 2: return bc_verdicts<double, size_t>(c); default: return bc_verdicts<float, size_t>(c); }
}
NWV_MAIN
