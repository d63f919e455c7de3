// P13: shortest-path algorithms return exact distances.
#include <nwv/conc.hpp>
#if PART == 0
#include <nwgraph/algorithms/dijkstra.hpp>
#include <nwgraph/vovos.hpp>
#else
#include <nwgraph/algorithms/delta_stepping.hpp>
#endif
#if PART == 2
#include <nwgraph/experimental/algorithms/delta_stepping.hpp>
#endif
using namespace nwv;
using nwg::directedness;

template <class W> struct Case { G g; std::vector<W> w; std::vector<std::tuple<V, V, W>> te; size_t src; std::vector<size_t> srcs; W maxw{}; };

template <class W> static W weight(Rng& r, int kind) {
  if constexpr (std::is_floating_point_v<W>) {
    switch (kind) { case 0: return (W)r.below(2); case 1: return (W)(1 + r.below(9)); case 2: return (W)(r.unit() * 3); case 3: return r.coin(0.2) ? (W)0 : (W)(r.unit() * r.unit() * 100); default: return (W)(0.1 * (double)(1 + r.below(5))); }
  } else {
    switch (kind) { case 0: return (W)r.below(2); case 1: return (W)(1 + r.below(9)); case 2: return (W)r.below(100); case 3: return r.coin(0.2) ? (W)0 : (W)r.below(1000); default: return (W)1; }
  }
}
template <class W> static Case<W> gen(Ctx& c, int big, bool und = false, bool wide = false) {
  Case<W> k;
  if (big == 2) k.g = scale_graph(c.rng, false, PART == 0); else if (big) { size_t n = c.rng.logsize(300, 6000); k.g = big_graph(c.rng, n, (size_t)(n * (0.8 + 7 * c.rng.unit()))); }
  else { GenOpt o; o.max_n = c.rng.of({3, 8, 25, 70, 150}); k.g = random_graph(c.rng, o); if (k.g.n == 0) k.g.n = 1; }
  if (c.rng.coin(0.35)) k.g = symmetric(k.g);
  int kind = (int)c.rng.below(6); W huge = wide && std::is_integral_v<W> ? std::numeric_limits<W>::max() : (W)((double)(1 << 30) / (double)(k.g.n + 1));
  for (auto& e : k.g.e) { W w = kind == 5 ? (W)(huge - (W)c.rng.below(1 + (uint64_t)huge / 3)) : weight<W>(c.rng, kind); k.w.push_back(w); k.te.push_back({e.first, e.second, w}); k.maxw = std::max(k.maxw, w); if (und) k.te.push_back({e.second, e.first, w}); c.input(mix((uint64_t)((double)w * 1024))); }
  k.src = !k.g.e.empty() && c.rng.coin(0.75) ? c.rng.pick(k.g.e).first : c.rng.below(k.g.n);
  k.srcs = {k.src, (size_t)c.rng.below(k.g.n)};
  c.input(k.g.digest()); c.input(k.src);
  c.describe(k.g.str() + fmt(" src=%zu weights=%d", k.src, kind));
  return k;
}
template <class D, class Got> static void verify(Ctx& c, const char* algo, size_t src, const std::vector<D>& want, const Got& got) {
  std::string A = algo;
  if (got.size() != want.size()) { c.fail(A + ":size", fmt("%zu distances for %zu vertices", (size_t)got.size(), want.size())); return; }
  size_t reached = 0;
  for (size_t v = 0; v < want.size(); ++v) {
    D x = (D)got[v];
    if (x != want[v]) { c.fail(A + (want[v] == std::numeric_limits<D>::max() ? ":unreachable" : ":distance"), fmt("distance of %zu from %zu is %.9g instead of %.9g", v, src, (double)x, (double)want[v])); return; }
    reached += want[v] != std::numeric_limits<D>::max();
  }
  c.interesting(reached > 1);
  c.count(A + " runs"); c.count("finite distances checked", reached); c.count("infinite distances checked", want.size() - reached);
}
template <class D, class W> static std::vector<D> oracle(const Case<W>& k, size_t src) {
  std::vector<std::tuple<V, V, D>> te; for (auto& [a, b, w] : k.te) te.push_back({a, b, (D)w});
  return sssp<D>(k.g.n, te, src, std::numeric_limits<D>::max());
}
template <class T> static std::vector<T> deltas(Rng& r, double maxw) {    // keeps the number of buckets bounded
  std::vector<T> v{(T)std::max(1.0, maxw / (double)(1 + r.below(8))), (T)std::max(1.0, std::min(maxw * (double)(1 + r.below(20)), std::is_integral_v<T> ? (double)(1 << 30) : 1e300))};
  if (maxw <= 16) v.push_back((T)1);
  if (std::is_floating_point_v<T> && maxw <= 16) v.push_back((T)0.25);
  return v;
}
#if PART == 0
template <class W, class D> static void dij(Ctx& c, int big) {
  auto k = gen<W>(c, big, false, sizeof(D) > 4 && std::is_integral_v<D>);
  auto a = make_csr_w<0, W>(k.g, k.w, c.rng.coin());
  for (size_t s : k.srcs) {
    auto want = oracle<D>(k, s);
    verify<D>(c, "dijkstra", s, want, nwg::dijkstra<D>(a, (V)s, [](const auto& e) { return std::get<1>(e); }));
    verify<D>(c, "dijkstra-default", s, want, nwg::dijkstra<D>(a, (V)s));
  }
  if (!big && c.rng.coin(0.3)) {
    std::vector<std::tuple<int, W>> at; for (auto w : k.w) at.push_back({(int)c.rng.below(1000), w});
    auto el = make_el<directedness::directed, int, W>(k.g, at);
    nwg::adjacency<0, int, W> b(el);
    verify<D>(c, "dijkstra-2nd-attribute", k.src, oracle<D>(k, k.src), nwg::dijkstra<D>(b, (V)k.src, [](const auto& e) { return std::get<2>(e); }));
    std::vector<std::tuple<W>> a1; for (auto w : k.w) a1.push_back({w});
    auto e1 = make_el<directedness::directed, W>(k.g, a1);
    nwg::vov<0, W> vv(e1);
    verify<D>(c, "dijkstra-vov", k.src, oracle<D>(k, k.src), nwg::dijkstra<D>(vv, (V)k.src, [](const auto& e) { return std::get<1>(e); }));
    nwg::adjacency<1, W> t(e1);
    Case<W> kt = k; for (auto& [x, y, w] : kt.te) std::swap(x, y);
    verify<D>(c, "dijkstra-transposed", k.src, oracle<D>(kt, k.src), nwg::dijkstra<D>(t, (V)k.src, [](const auto& e) { return std::get<1>(e); }));
  }
}
NWV_FAMILY(dijkstra_big, 150, 1500) { c.rng.coin() ? dij<uint32_t, uint64_t>(c, true) : dij<float, float>(c, true); }
NWV_FAMILY(dijkstra_scale, 4, 60) { c.rng.coin() ? dij<uint32_t, uint64_t>(c, 2) : dij<float, float>(c, 2); }
NWV_FAMILY(dijkstra_small, 3000, 30000) {
  switch (c.rng.below(5)) {
    case 0: return dij<uint32_t, uint32_t>(c, false);
    case 1: return dij<int, uint64_t>(c, false);
    case 2: return dij<float, float>(c, false);
    case 3: return dij<double, double>(c, false);
    default: return dij<int, int>(c, false);
  }
}
NWV_FAMILY(dijkstra_undirected, 150, 4000) {
  auto k = gen<int>(c, false, true);
  std::vector<std::tuple<int>> a1; for (auto w : k.w) a1.push_back({w});
  auto e1 = make_el<directedness::undirected, int>(k.g, a1);
  nwg::adjacency<0, int> a(e1);
  verify<int>(c, "dijkstra-undirected", k.src, oracle<int>(k, k.src), nwg::dijkstra<int>(a, (V)k.src));
}
#endif
#if PART == 1
template <class W, class D, class T> static void delta(Ctx& c, int big) {
  auto k = gen<W>(c, big, false, sizeof(D) > 4 && std::is_integral_v<D>);
  Threads th(c.rng);
  auto a = make_csr_w<0, W>(k.g, k.w, c.rng.coin());
  for (size_t s : k.srcs) {
    auto want = oracle<D>(k, s);
    for (T d : deltas<T>(c.rng, (double)k.maxw)) {
      verify<D>(c, "delta_stepping-par", s, want, nwg::delta_stepping<D>(a, (V)s, d));
      verify<D>(c, "delta_stepping-seq", s, want, nwg::delta_stepping<D>(a, (V)s, d, [](const auto& e) { return std::get<1>(e); }));
    }
  }
}
NWV_FAMILY(delta_big, 200, 2500) { c.rng.coin() ? delta<uint32_t, uint64_t, uint64_t>(c, true) : delta<float, float, float>(c, true); }
NWV_FAMILY(delta_scale, 4, 60) { c.rng.coin() ? delta<uint32_t, uint64_t, uint64_t>(c, 2) : delta<float, float, float>(c, 2); }
NWV_FAMILY(delta_contended, 400, 4000) {    // dense layers: many relaxations of the same vertices at once, improving several times
  Case<uint32_t> k; size_t w = 3 + c.rng.below(40), L = 2 + c.rng.below(8); k.g.n = w * L + 1; k.g.kind = "layers";
  for (size_t i = 0; i < w; ++i) k.g.e.push_back({0, (V)(1 + i)});
  for (size_t l = 0; l + 1 < L; ++l) for (size_t i = 0; i < w; ++i) for (size_t j = 0; j < w; ++j) if (c.rng.coin(0.6)) k.g.e.push_back({(V)(1 + l * w + i), (V)(1 + (l + 1) * w + j)});
  if (c.rng.coin()) k.g = symmetric(k.g);
  for (auto& e : k.g.e) { uint32_t x = (uint32_t)c.rng.below(60); k.w.push_back(x); k.te.push_back({e.first, e.second, x}); }
  k.src = c.rng.coin(0.7) ? 0 : c.rng.below(k.g.n); c.input(k.g.digest()); c.describe(k.g.str());
  Threads th(c.rng.of({2, 4, 8}));
  auto a = make_csr_w<0, uint32_t>(k.g, k.w); auto want = oracle<uint64_t>(k, k.src);
  for (uint64_t d : {1ul, 7ul, 30ul, 61ul, 1000ul}) verify<uint64_t>(c, "delta_stepping-par", k.src, want, nwg::delta_stepping<uint64_t>(a, (V)k.src, d));
}
NWV_FAMILY(delta_small, 2500, 25000) {
  switch (c.rng.below(4)) {
    case 0: return delta<uint32_t, uint32_t, uint32_t>(c, false);
    case 1: return delta<int, uint64_t, uint64_t>(c, false);
    case 2: return delta<float, float, float>(c, false);
    default: return delta<double, double, double>(c, false);
  }
}
template <class W, class D> static void m1(Ctx& c, int big) {
  auto k = gen<W>(c, big, false, sizeof(D) > 4 && std::is_integral_v<D>); auto a = make_csr_w<0, W>(k.g, k.w, c.rng.coin());
  for (size_t s : k.srcs) verify<D>(c, "delta_stepping_m1", s, oracle<D>(k, s), nwg::delta_stepping_m1<D>(a, (V)s, D(1), [](const auto& e) { return std::get<1>(e); }));
}
NWV_FAMILY(delta_m1, 400, 5000) {
  switch (c.rng.below(8)) { case 0: return m1<uint32_t, uint64_t>(c, true); case 1: case 2: return m1<int, int>(c, false); case 3: case 4: return m1<float, float>(c, false); case 5: return m1<uint32_t, uint64_t>(c, false); default: return m1<double, double>(c, false); }
}
NWV_FAMILY(delta_weights, 500, 3000) {    // weight taken from a second attribute (sequential version)
  auto k = gen<int>(c, false);
  std::vector<std::tuple<float, int>> at; for (auto w : k.w) at.push_back({(float)c.rng.unit(), w});
  auto el = make_el<directedness::directed, float, int>(k.g, at);
  nwg::adjacency<0, float, int> b(el);
  uint64_t d = 1 + c.rng.below((uint64_t)k.maxw + 1);
  verify<uint64_t>(c, "delta_stepping-seq-2nd", k.src, oracle<uint64_t>(k, k.src), nwg::delta_stepping<uint64_t>(b, (V)k.src, std::max<uint64_t>(d, 1 + (uint64_t)k.maxw / 10), [](const auto& e) { return std::get<2>(e); }));
}
#endif
#if PART == 2
template <class W, class D> static void edelta(Ctx& c, int big) {
  auto k = gen<W>(c, big, false, sizeof(D) > 4 && std::is_integral_v<D>);
  Threads th(c.rng);
  auto a = make_csr_w<0, W>(k.g, k.w, c.rng.coin());
  auto wt = [](auto& e) -> auto& { return std::get<1>(e); };
  auto s = k.src; auto want = oracle<D>(k, s);
  for (D d : deltas<D>(c.rng, (double)k.maxw)) {
    verify<D>(c, "delta_stepping_v8", s, want, nwg::delta_stepping_v8<D>(a, (V)s, d, wt));
    verify<D>(c, "delta_stepping_v9", s, want, nwg::delta_stepping_v9<D>(a, (V)s, d, wt));
    verify<D>(c, "delta_stepping_v10", s, want, nwg::delta_stepping_v10<D>(a, (V)s, d, wt));
    verify<D>(c, "delta_stepping_v11", s, want, nwg::delta_stepping_v11<D>(a, (V)s, d, wt));
  }
}
NWV_FAMILY(exp_delta_big, 30, 1000) { edelta<uint32_t, uint64_t>(c, true); }
NWV_FAMILY(exp_delta_small, 400, 12000) { c.rng.coin() ? edelta<uint32_t, uint64_t>(c, false) : edelta<float, float>(c, false); }
#endif
NWV_CONC_MAIN
