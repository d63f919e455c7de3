// P29: algorithms leave their inputs unchanged and answer independently of the number of threads, of earlier runs and of other runs
// on the same graph at the same time. Oracle: the first run alone with one thread, compared in the form in which the answer is unique.
#include <nwv/conc.hpp>
#include <nwv/edges.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/adaptors/cyclic_range_adaptor.hpp>
#include <nwgraph/util/parallel_for.hpp>
#if PART == 0
#include <nwgraph/algorithms/bfs.hpp>
#include <nwgraph/algorithms/delta_stepping.hpp>
#include <nwgraph/algorithms/connected_components.hpp>
#include <nwgraph/algorithms/page_rank.hpp>
#include <nwgraph/algorithms/betweenness_centrality.hpp>
#include <nwgraph/algorithms/triangle_count.hpp>
#include <nwgraph/algorithms/maximal_independent_set.hpp>
#include <nwgraph/algorithms/dag_based_mis.hpp>
#include <nwgraph/algorithms/jones_plassmann_coloring.hpp>
#elif PART == 1
#include <nwgraph/algorithms/dijkstra.hpp>
#include <nwgraph/algorithms/prim.hpp>
#include <nwgraph/algorithms/spMatspMat.hpp>
#include <nwgraph/algorithms/jaccard.hpp>
#include <nwgraph/adaptors/bfs_range.hpp>
#include <nwgraph/adaptors/dag_range.hpp>
#elif PART == 2
#include <nwgraph/algorithms/k_core.hpp>
#else
#include <nwgraph/adaptors/bfs_edge_range.hpp>
#endif
#include <thread>
using namespace nwv;
using nwg::directedness;
using namespace std::execution;
using Ans = std::vector<double>;
struct World {
  G g, s; V src = 0; std::vector<V> sources; std::vector<nwg::default_vertex_id_type> deg;
  nwg::adjacency<0> out{0}; nwg::adjacency<1> in{0}; nwg::adjacency<0> sym{0}, up{0}; nwg::adjacency<0, uint32_t> wout{0}, wsym{0}; size_t threads = 2;
};
template <class Gr> static uint64_t digest_of(const Gr& g) { uint64_t h = g.size(); for (auto&& row : g) { h = mix(h + 0x51); for (auto&& e : row) std::apply([&](auto... x) { ((h = mix(h ^ (uint64_t)x)), ...); }, e); } return h; }
static std::vector<uint64_t> digest(const World& w) { return {digest_of(w.out), digest_of(w.in), digest_of(w.sym), digest_of(w.up), digest_of(w.wout), digest_of(w.wsym), [&] { uint64_t h = 0; for (auto d : w.deg) h = mix(h ^ d); return h; }()}; }
struct Alg { const char* name; std::function<Ans(World&, Rng&)> run; double tol = 0; };    // tol: sum of absolute differences allowed
[[maybe_unused]] static Ans levels(const std::vector<V>& par, V src) {
  Ans l(par.size(), -1); if (src < par.size()) l[src] = 0;
  for (size_t v = 0; v < par.size(); ++v) { std::vector<V> path; V x = (V)v; while (x < par.size() && l[x] == -1 && path.size() <= par.size()) { path.push_back(x); if (par[x] >= par.size()) break; x = par[x]; } if (path.size() > par.size()) return Ans{-77}; double b = x < par.size() ? l[x] : -2; if (b == -1) b = -2; while (path.size()) { if (b >= 0) ++b; l[path.back()] = b; path.pop_back(); } }
  return l;
}
template <class L> [[maybe_unused]] static Ans partition(const L& lab) { std::map<uint64_t, double> first; Ans a; for (size_t v = 0; v < lab.size(); ++v) a.push_back(first.try_emplace((uint64_t)lab[v], (double)v).first->second); return a; }
template <class X> [[maybe_unused]] static Ans plain(const X& x) { Ans a; for (auto& v : x) a.push_back((double)v); return a; }
[[maybe_unused]] static Ans mis_ok(const G& g, const std::vector<char>& in) { Adj a = und_adj(g); double bad = 0; for (auto& [u, v] : g.e) if (u != v && in[u] && in[v]) ++bad; for (size_t v = 0; v < g.n; ++v) if (!in[v] && std::none_of(a[v].begin(), a[v].end(), [&](V w) { return in[w]; })) ++bad; return {bad, (double)in.size()}; }
static std::vector<Alg> zoo() {
  std::vector<Alg> z; auto nt = [](Rng& r) { return r.of({1, 2, 3, 5, 8}); }; (void)nt;
#if PART == 0
  static parallel_unsequenced_policy pu; static parallel_policy pp;
  z.push_back({"bfs", [](World& w, Rng&) { return levels(nwg::bfs(w.out, w.src), w.src); }});
  z.push_back({"bfs direction-optimising", [](World& w, Rng& r) { return levels(nwg::bfs(w.out, w.in, w.src, r.of({1, 3, 32}), r.of({1, 15, 1000}), r.of({1, 18, 1000})), w.src); }});
  z.push_back({"delta_stepping parallel", [](World& w, Rng& r) { return plain(nwg::delta_stepping<uint64_t>(w.wout, w.src, (uint64_t)r.of({5, 20, 100}))); }});
  z.push_back({"delta_stepping sequential", [](World& w, Rng& r) { return plain(nwg::delta_stepping<uint64_t>(w.wout, w.src, (uint64_t)r.of({5, 20, 100}), [](const auto& e) { return std::get<1>(e); })); }});
  z.push_back({"afforest directed", [](World& w, Rng& r) { return partition(nwg::afforest(pu, w.out, w.in, r.of({0, 1, 2, 5}))); }});
  z.push_back({"afforest undirected", [](World& w, Rng& r) { nwg::adjacency<1> none(0); return partition(nwg::afforest(pp, w.sym, none, r.of({0, 1, 2, 5}))); }});
  z.push_back({"page_rank", [nt](World& w, Rng& r) { std::vector<double> x(w.g.n); nwg::page_rank(w.in, w.deg, x, 0.85, 1e-9, 5000, nt(r)); return x; }, 1e-7});
  z.push_back({"brandes_bc parallel", [nt](World& w, Rng& r) { std::vector<nwg::default_vertex_id_type> s(w.sources.begin(), w.sources.end()); return plain(nwg::brandes_bc<double, double>(w.out, s, nt(r), par_unseq, par_unseq, true)); }, 1e-6});
  z.push_back({"brandes_bc serial", [](World& w, Rng&) { if (w.g.n > 120) return Ans{}; return plain(nwg::brandes_bc<nwg::adjacency<0>, double, double>(w.sym, true)); }, 1e-6});
  z.push_back({"triangle_count", [](World& w, Rng&) { return Ans{(double)nwg::triangle_count(w.up)}; }});
  z.push_back({"triangle_count threads", [nt](World& w, Rng& r) { return Ans{(double)nwg::triangle_count(w.up, (size_t)nt(r))}; }});
  z.push_back({"maximal_independent_set", [](World& w, Rng&) { std::vector<size_t> m; nwg::maximal_independent_set(w.sym, m); std::vector<char> in(w.s.n); for (auto v : m) in[v] = 1; return mis_ok(w.s, in); }});
  z.push_back({"dag_based_mis", [](World& w, Rng&) { if (!w.s.n) return Ans{}; std::vector<bool> m(w.s.n, true); nwg::dag_based_mis(w.sym, m); return mis_ok(w.s, std::vector<char>(m.begin(), m.end())); }});
  z.push_back({"jones_plassmann_coloring", [](World& w, Rng&) { std::vector<size_t> c(w.s.n); nwg::jones_plassmann_coloring(w.sym, c); double bad = 0; for (auto& [u, v] : w.s.e) bad += u != v && c[u] == c[v]; return Ans{bad}; }});
#elif PART == 1
  z.push_back({"dijkstra", [](World& w, Rng&) { return plain(nwg::dijkstra<uint64_t>(w.wout, w.src)); }});
  z.push_back({"dijkstra weight", [](World& w, Rng&) { return plain(nwg::dijkstra<uint64_t>(w.wout, w.src, [](const auto& e) { return std::get<1>(e); })); }});
  z.push_back({"prim", [](World& w, Rng&) { auto p = nwg::prim<nwg::adjacency<0, uint32_t>, uint32_t>(w.wsym, w.src, [](auto&& e) { return std::get<1>(e); }); double t = 0, n = 0; for (V v = 0; v < p.size(); ++v) if (p[v] < p.size()) { ++n; uint32_t b = ~0u; for (auto&& [x, y] : w.wsym[v]) if (x == p[v]) b = std::min(b, y); t += b; } return Ans{t, n}; }});
  z.push_back({"spMatspMat", [](World& w, Rng&) { auto c = nwg::spMatspMat<uint64_t>(w.wout, w.wout); std::map<std::pair<V, V>, double> m; for (auto&& [i, j, x] : c) m[{(V)i, (V)j}] = (double)x; Ans a; for (auto& [k, x] : m) { a.push_back(k.first); a.push_back(k.second); a.push_back(x); } return a; }});
  z.push_back({"topdown_bfs_range", [](World& w, Rng&) { Ans a; nwg::topdown_bfs_range r(w.out, w.src); for (auto i = r.begin(); i != r.end() && a.size() <= w.g.n; ++i) a.push_back((double)*i); return a; }});
#elif PART == 2
  z.push_back({"k_core", [](World& w, Rng&) { auto r = nwg::k_core(w.sym, 3); Ans a{(double)std::get<1>(r)}; std::set<std::pair<V, V>> rem; for (auto& [p, f] : std::get<0>(r)) if (f) rem.insert({(V)p.first, (V)p.second}); for (auto& p : rem) { a.push_back(p.first); a.push_back(p.second); } return a; }});
#else
  z.push_back({"bfs_edge_range", [](World& w, Rng&) { Ans a; nwg::bfs_edge_range r(w.out, w.src); for (auto&& t : r) { a.push_back((double)std::get<0>(t)); a.push_back((double)std::get<1>(t)); if (a.size() > 2 * w.g.e.size()) break; } return a; }});
#endif
  return z;
}
static std::string compare(const Ans& got, const Ans& want, double tol) {
  if (got.size() != want.size()) return fmt("%zu values instead of %zu", got.size(), want.size());
  double d = 0; for (size_t i = 0; i < got.size(); ++i) { double x = std::abs(got[i] - want[i]); if (!(got[i] == want[i] || x >= 0)) return fmt("value %zu is %g instead of %g", i, got[i], want[i]); if (got[i] == want[i]) x = 0; d += x; if (d > tol) return fmt("value %zu is %.12g instead of %.12g", i, got[i], want[i]); }
  return "";
}
static void world(Ctx& c, World& w, bool big) {
  GenOpt o; o.max_n = c.rng.of({4, 15, 50, 120}); o.density = c.rng.of({1, 3, 6});
  if (big) { size_t n = c.rng.logsize(300, 4000); w.g = big_graph(c.rng, n, (size_t)(n * (1 + 4 * c.rng.unit())), o); } else w.g = random_graph(c.rng, o);
  if (!w.g.n) w.g.n = 1;
  { std::set<E> es; for (auto [u, v] : w.g.e) if (u != v) es.insert({std::min(u, v), std::max(u, v)}); w.s.n = w.g.n; w.s.kind = "simple"; w.s.e.assign(es.begin(), es.end()); }
  w.src = w.g.e.size() && c.rng.coin(0.8) ? c.rng.pick(w.g.e).first : (V)c.rng.below(w.g.n); for (int i = 0; i < 4; ++i) w.sources.push_back((V)c.rng.below(w.g.n));
  w.deg.assign(w.g.n, 0); for (auto& e : w.g.e) ++w.deg[e.first];
  w.out = make_csr<0>(w.g); w.in = make_csr<1>(w.g); w.up = make_csr<0>(w.s, true);
  { auto el = make_el<directedness::undirected>(w.s); w.sym = nwg::adjacency<0>(el, true); }
  std::vector<uint32_t> wt(w.g.e.size()); for (auto& x : wt) x = (uint32_t)c.rng.below(100); w.wout = make_csr_w<0, uint32_t>(w.g, wt);
  { std::vector<std::tuple<uint32_t>> at; for (size_t i = 0; i < w.s.e.size(); ++i) at.push_back({(uint32_t)c.rng.below(100)}); auto el = make_el<directedness::undirected, uint32_t>(w.s, at); w.wsym = nwg::adjacency<0, uint32_t>(el); }
  c.input(w.g.digest()); c.input(w.src); c.describe(w.g.str() + fmt(" from %u", w.src)); c.interesting(w.g.e.size() > 2);
}
static void run(Ctx& c, bool big) {
  World w; world(c, w, big); auto z = zoo(); std::vector<Ans> ref(z.size()); auto d0 = digest(w); size_t runs = 0;
  { Threads one((size_t)1); Rng r(1); for (size_t i = 0; i < z.size(); ++i) { ref[i] = z[i].run(w, r); if (digest(w) != d0) c.die(std::string(z[i].name) + ":input", "the graph is not what it was before the run"); ++runs; } }
  // again in another order, with other numbers of threads
  std::vector<size_t> order; for (int k = 0; k < 2; ++k) for (size_t i = 0; i < z.size(); ++i) order.push_back(i); c.rng.shuffle(order);
  for (size_t i : order) { Threads th(c.rng); auto a = z[i].run(w, c.rng); auto d = compare(a, ref[i], z[i].tol); if (!d.empty()) c.die(std::string(z[i].name) + ":threads", fmt("with %zu threads: ", th.n) + d); if (digest(w) != d0) c.die(std::string(z[i].name) + ":input", "the graph is not what it was before the run"); ++runs; }
  // several callers at once share the graph
  size_t T = 2 + c.rng.below(4); std::vector<std::string> bad(T); std::atomic<size_t> started{0}, total{0}; uint64_t base = c.rng(); { Threads th(c.rng);
    std::vector<std::thread> ts; bool same = c.rng.coin(0.4); size_t which = c.rng.below(z.size());
    for (size_t t = 0; t < T; ++t) ts.emplace_back([&, t] { Rng r(base + t); ++started; while (started < T) std::this_thread::yield(); for (int k = 0; k < (big ? 3 : 6); ++k) { size_t i = same ? which : r.below(z.size()); auto a = z[i].run(w, r); ++total; auto d = compare(a, ref[i], z[i].tol); if (!d.empty() && bad[t].empty()) bad[t] = std::string(z[i].name) + "\t" + d; } });
    for (auto& t : ts) t.join(); }
  for (auto& b : bad) if (!b.empty()) c.fail(b.substr(0, b.find('\t')) + ":concurrent", fmt("%zu callers at once: ", T) + b.substr(b.find('\t') + 1));
  if (digest(w) != d0) c.fail("input:concurrent", "the graph is not what it was before the runs");
  c.count("runs compared", order.size() + total); c.count("runs with concurrent callers", total); c.count("graph digests compared", runs + 1);
}
NWV_FAMILY(small, PART ? 150 : 200, 6000) { run(c, false); }
NWV_FAMILY(big, PART ? 15 : 25, 600) { run(c, true); }
#if PART == 1
// the one algorithm that writes writes only where it says: its result is the same again
NWV_FAMILY(jaccard, 60, 3000) { World w; world(c, w, false); std::vector<double> x(w.s.e.size(), 0); auto go = [&](nwg::adjacency<0, double>& a) { nwg::jaccard_similarity(a, [](auto&& e) -> auto& { return std::get<1>(e); }); std::vector<double> r; for (auto&& row : a) for (auto&& e : row) r.push_back(std::get<1>(e)); return r; }; auto a = make_csr_w<0, double>(w.s, x, true); auto r1 = go(a), r2 = go(a); Threads th(c.rng); auto b = make_csr_w<0, double>(w.s, x, true); auto r3 = go(b); c.check(r1 == r2 && r1 == r3, "jaccard:again", "another answer the second time"); c.count("runs compared", 2); }
#endif
NWV_CONC_MAIN
