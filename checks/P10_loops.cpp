// P10: parallel loops and reductions apply their body exactly once per element and combine every result exactly once.
// Oracle: visit counts per element; sums, maxima and unions of the elements of the generated input.
#include <nwv/conc.hpp>
#include <nwv/edges.hpp>
#include <nwgraph/util/parallel_for.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/adaptors/vertex_range.hpp>
#include <nwgraph/adaptors/splittable_range_adaptor.hpp>
#include <nwgraph/adaptors/cyclic_range_adaptor.hpp>
#include <nwgraph/adaptors/cyclic_neighbor_range.hpp>
#include <nwgraph/util/AtomicBitVector.hpp>
#include <mutex>
#include <thread>
using namespace nwv;
static std::mutex g_mu;
static std::set<std::thread::id> g_threads;
static void seen_thread() { thread_local uint64_t k = 0; if ((k++ & 15) == 0) { std::lock_guard l(g_mu); g_threads.insert(std::this_thread::get_id()); } }
static void dawdle(uint64_t h) { seen_thread(); if ((h & 63) == 0) sched_yield(); else if ((h & 63) == 1) for (volatile int i = 0; i < 300; i = i + 1) ; }

struct Counts {
  std::unique_ptr<std::atomic<uint32_t>[]> a; size_t n; std::atomic<size_t> stray{0};
  explicit Counts(size_t k) : a(new std::atomic<uint32_t>[k + 1]), n(k) { for (size_t i = 0; i <= k; ++i) a[i] = 0; }
  void hit(size_t i) { if (i < n) a[i].fetch_add(1, std::memory_order_relaxed); else stray.fetch_add(1); }
  void check(Ctx& c, const std::string& key, const std::vector<uint32_t>* want = nullptr) {
    if (stray) c.die(key, "the body was given something that is not an element");
    for (size_t i = 0; i < n; ++i) { uint32_t w = want ? (*want)[i] : 1; if (a[i] != w) c.die(key, fmt("the body ran %u times for element %zu of %zu instead of %u", (unsigned)a[i], i, n, w)); }
    c.count("bodies observed", n);
  }
};
struct MaxSet { uint64_t mx = 0; std::vector<uint32_t> all; };    // a reduction whose values are not trivially copyable

// Every loop form over one range; `ids(args...)` maps the body's arguments to the element's number in [0, n).
template <class Make, class Id>
static void loops(Ctx& c, const std::string& nm, size_t n, const std::vector<uint32_t>& want, Make&& make, Id&& id) {
  Threads t(c.rng); c.input(n * 31 + t.n);
  uint64_t sum = 0, mx = 0, cnt = 0; std::vector<uint32_t> all; for (size_t i = 0; i < n; ++i) { sum += want[i] * mix(i); cnt += want[i]; if (want[i]) mx = std::max(mx, mix(i)); for (uint32_t k = 0; k < want[i]; ++k) all.push_back(i); }
  { Counts v(n); nwg::parallel_for(make(), [&](auto&&... a) { size_t i = id(a...); dawdle(mix(i ^ c.seed)); v.hit(i); }); v.check(c, nm + ":for", &want); }
  { Counts v(n); auto r = make(); auto op = [&](auto&&... a) { v.hit(id(a...)); }; nwg::parallel_for(r, op); v.check(c, nm + ":for lvalue", &want); 
    Counts w(n); auto r2 = make(); nwg::parallel_for_sequential(r2, [&](auto&&... a) { w.hit(id(a...)); }); w.check(c, nm + ":for sequential", &want); }
  { Counts v(n); uint64_t s = nwg::parallel_reduce(make(), [&](auto&&... a) { size_t i = id(a...); dawdle(mix(i * 3 + c.index)); v.hit(i); return mix(i); }, std::plus<uint64_t>{}, (uint64_t)0);
    v.check(c, nm + ":reduce", &want); if (s != sum) c.die(nm + ":reduce", fmt("sum %llx instead of %llx over %zu elements", (unsigned long long)s, (unsigned long long)sum, n)); }
  { auto r = make(); auto op = [&](auto&&... a) { return (size_t)(id(a...), 1); }; auto pl = [](size_t a, size_t b) { return a + b; }; size_t s = nwg::parallel_reduce(r, op, pl, (size_t)0); if (s != cnt) c.die(nm + ":reduce count", fmt("%zu of %zu elements", s, (size_t)cnt)); }
  { uint64_t m = nwg::parallel_reduce(make(), [&](auto&&... a) { return mix(id(a...)); }, [](uint64_t a, uint64_t b) { return std::max(a, b); }, (uint64_t)0); if (m != mx) c.die(nm + ":reduce max", "wrong maximum"); }
  // values whose identity is not the value-initialised one, and idempotent reductions from any value
  { uint64_t mn = ~0ull, big = ~0ull >> c.rng.below(8); for (size_t i = 0; i < n; ++i) if (want[i]) mn = std::min(mn, mix(i)); auto lesser = [](uint64_t a, uint64_t b) { return std::min(a, b); };
    uint64_t m = nwg::parallel_reduce(make(), [&](auto&&... a) { return mix(id(a...)); }, lesser, ~0ull); if (m != mn) c.die(nm + ":reduce min", "wrong minimum");
    uint64_t m2 = nwg::parallel_reduce(make(), [&](auto&&... a) { return mix(id(a...)); }, lesser, big); if (m2 != std::min(mn, big)) c.die(nm + ":reduce min", "wrong minimum with a first value");
    uint32_t pr = 1; for (size_t i = 0; i < n; ++i) for (uint32_t k = 0; k < want[i]; ++k) pr *= (uint32_t)mix(i) | 1; uint32_t p = nwg::parallel_reduce(make(), [&](auto&&... a) { return (uint32_t)mix(id(a...)) | 1; }, std::multiplies<uint32_t>{}, (uint32_t)1); if (p != pr) c.die(nm + ":reduce product", "wrong product");
    auto r = make(); uint64_t q = nwg::parallel_for_sequential(r, [&](auto&&... a) { return mix(id(a...)); }, std::plus<uint64_t>{}, (uint64_t)c.index); if (q != sum + c.index) c.die(nm + ":sequential reduce", "wrong sum from a first value"); }
  if (n < 1500) { MaxSet m = nwg::parallel_reduce(make(), [&](auto&&... a) { uint32_t i = id(a...); return MaxSet{mix(i), {i}}; }, [](MaxSet a, MaxSet b) { MaxSet r{std::max(a.mx, b.mx), a.all}; r.all.insert(r.all.end(), b.all.begin(), b.all.end()); return r; }, MaxSet{});
    if (m.mx != mx) c.die(nm + ":reduce union", "wrong maximum"); if (sorted(m.all) != sorted(all)) c.die(nm + ":reduce union", fmt("%zu results combined instead of %zu, or not the same", m.all.size(), all.size())); }
  c.count("loops observed", 7); std::lock_guard l(g_mu); c.count("threads seen in loops (sum over cases)", g_threads.size()); g_threads.clear();
}
static std::vector<uint32_t> ones(size_t n) { return std::vector<uint32_t>(n, 1); }
static size_t pick_n(Ctx& c) { return c.rng.of({(size_t)c.rng.below(3), (size_t)c.rng.below(64), (size_t)c.rng.below(1000), (size_t)c.rng.logsize(1, 3000)}); }

#if PART == 0
NWV_FAMILY(splittable, 150, 2500) {
  size_t n = pick_n(c), cut = c.rng.of({(size_t)1, (size_t)3, (size_t)c.rng.range(1, 300)}); c.interesting(n > cut); c.describe(fmt("n=%zu cutoff=%zu", n, cut));
  std::vector<uint32_t> v(n); std::iota(v.begin(), v.end(), 0);
  loops(c, "splittable", n, ones(n), [&] { return nwg::splittable_range_adaptor(v, cut); }, [](uint32_t i) { return (size_t)i; });
}
NWV_FAMILY(default_grain, 8, 60) {
  size_t n = c.rng.range(16000, 70000); c.interesting(); c.describe(fmt("n=%zu", n)); std::vector<uint32_t> v(n); std::iota(v.begin(), v.end(), 0);
  loops(c, "splittable default", n, ones(n), [&] { return nwg::splittable_range_adaptor(v); }, [](uint32_t i) { return (size_t)i; });
}
NWV_FAMILY(cyclic, 150, 2500) {
  size_t n = pick_n(c), cut = c.rng.of({(size_t)1, (size_t)2, (size_t)c.rng.range(1, 64), n + 1}); c.interesting(n > 1 && cut > 1); c.describe(fmt("n=%zu cutoff=%zu", n, cut));
  std::vector<uint32_t> v(n); std::iota(v.begin(), v.end(), 0);
  // cyclic iterators are not copied into the body: the body gets the element
  loops(c, "cyclic", n, ones(n), [&] { return nwg::cyclic(v, cut); }, [](uint32_t i) { return (size_t)i; });
  loops(c, "cyclic_neighbor_range", n, ones(n), [&] { return nwg::cyclic_neighbor_range<std::vector<uint32_t>::iterator>(v, cut); }, [](size_t i, uint32_t x) { return i == x ? i : ~size_t(0); });
}
NWV_FAMILY(vertices, 80, 1500) {
  size_t n = pick_n(c); c.interesting(n > 1); c.describe(fmt("n=%zu", n));
  loops(c, "vertex_range", n, ones(n), [&] { return nwg::vertex_range<nwg::adjacency<0>>(n); }, [](uint32_t i) { return (size_t)i; });
}
NWV_FAMILY(non_zeros, 100, 1500) {
  size_t n = c.rng.below(8000); nwg::AtomicBitVector<> b(n); std::vector<uint32_t> want(n); double p = c.rng.of({0.0, 0.01, 0.3, 1.0}); for (size_t i = 0; i < n; ++i) if (c.rng.coin(p)) { b.set(i); want[i] = 1; }
  size_t cut = c.rng.of({1, 2, 10}); c.interesting(n > 64 * cut); c.describe(fmt("bits=%zu density=%g cutoff=%zu", n, p, cut));
  loops(c, "non_zeros", n, want, [&] { return b.non_zeros(cut); }, [](size_t i) { return i; });
}
#else
template <class Graph> static void graph(Ctx& c, const std::string& nm, Graph& g, const Adj& rows) {
  size_t n = rows.size(); std::vector<uint32_t> row1(n, 1); size_t off = c.rng.coin() ? 0 : c.rng.below(n + 1); for (size_t i = 0; i < off; ++i) row1[i] = 0;
  loops(c, nm + ":plain_range", n, row1, [&] { return nwg::make_plain_range(g, off); }, [](auto u) { return (size_t)u; });
  loops(c, nm + ":neighbor_range", n, row1, [&] { return nwg::make_neighbor_range(g, off); }, [&](auto u, auto&& row) { size_t k = 0; for (auto&& e : row) { (void)e; ++k; } return (size_t)u < n && k == rows[u].size() ? (size_t)u : ~size_t(0); });
  std::map<std::pair<V, V>, size_t> id; std::vector<uint32_t> mult; for (size_t u = 0; u < n; ++u) for (auto v : rows[u]) { auto [it, fresh] = id.insert({{(V)u, (V)v}, id.size()}); if (fresh) mult.push_back(0); if (u >= off) ++mult[it->second]; }
  loops(c, nm + ":edge_range", mult.size(), mult, [&] { return nwg::make_edge_range(g, off); }, [&](auto u, auto v) { auto it = id.find({(V)u, (V)v}); return it == id.end() ? ~size_t(0) : it->second; });
}
NWV_FAMILY(graphs, 120, 1500) {
  GenOpt o; o.max_n = c.rng.coin() ? 200 : 50; o.loops = c.rng.coin(); o.dups = c.rng.coin(); G g = random_graph(c.rng, o);
  if (c.rng.coin()) { size_t lead = c.rng.below(60), trail = c.rng.below(60); for (auto& [a, b] : g.e) { a += lead; b += lead; } g.n += lead + trail; g.kind += "+pad"; }
  c.input(g.digest()); c.interesting(g.n > 16 && g.e.size() > 1); c.describe(g.str());
  auto a = make_csr<0>(g); auto rows = rows_of(a); graph(c, "adjacency", a, rows);
}
// loops inside loops
NWV_FAMILY(nested, 60, 1000) {
  size_t n = c.rng.range(1, 60), m = c.rng.range(1, 60), c1 = c.rng.range(1, 20), c2 = c.rng.range(1, 20); c.interesting(); c.input(n * m * 7 + c1 * 3 + c2); c.describe(fmt("%zux%zu cutoffs %zu %zu", n, m, c1, c2)); Threads t(c.rng);
  std::vector<uint32_t> a(n), b(m); std::iota(a.begin(), a.end(), 0); std::iota(b.begin(), b.end(), 0); Counts v(n * m);
  nwg::parallel_for(nwg::splittable_range_adaptor(a, c1), [&](uint32_t i) { nwg::parallel_for(nwg::cyclic(b, c2), [&](uint32_t j) { v.hit(i * m + j); dawdle(mix(i * j)); }); }); v.check(c, "nested for");
  uint64_t s = nwg::parallel_reduce(nwg::cyclic(a, c1), [&](uint32_t i) { return nwg::parallel_reduce(nwg::splittable_range_adaptor(b, c2), [&](uint32_t j) { return (uint64_t)i * m + j; }, std::plus{}, (uint64_t)0); }, std::plus{}, (uint64_t)0);
  uint64_t w = (uint64_t)(n * m) * (n * m - 1) / 2; if (s != w) c.die("nested reduce", fmt("%llu instead of %llu", (unsigned long long)s, (unsigned long long)w));
}
#endif
NWV_CONC_MAIN
