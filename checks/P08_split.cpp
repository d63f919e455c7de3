// P08: a splittable range divided in any order enumerates its elements exactly once, and division terminates.
// Oracle: the elements of the undivided range as given by the generated input (not by the range).
#include <nwv/edges.hpp>
#include <nwgraph/vovos.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/adaptors/vertex_range.hpp>
#include <nwgraph/adaptors/splittable_range_adaptor.hpp>
#include <nwgraph/adaptors/cyclic_range_adaptor.hpp>
#include <nwgraph/adaptors/cyclic_neighbor_range.hpp>
#include <nwgraph/util/AtomicBitVector.hpp>
#include <unordered_map>
using namespace nwv;

// How the scheduler picks what to split next, and whether it stops early.
struct Plan { int order; double stop; };
static Plan plan(Ctx& c) { return Plan{(int)c.rng.below(4), c.rng.of({0.0, 0.0, 0.1, 0.5})}; }

// Divide r by plan; `elems(range)` enumerates a piece as hashes; `want` is what the whole must enumerate.
// max_pieces: a bound implied by the elements and the grain, past which the division does not terminate.
// sized: size() counts the elements (not rows).
template <class R, class Elems>
static size_t divide(Ctx& c, const std::string& nm, R r, std::vector<uint64_t> want, size_t max_pieces, Elems&& elems, bool check_size = true) {
  Plan p = plan(c); std::vector<std::unique_ptr<R>> live, leaves; live.push_back(std::make_unique<R>(r)); size_t splits = 0, total = want.size();
  while (!live.empty()) {
    size_t i = p.order == 0 ? live.size() - 1 : p.order == 1 ? 0 : p.order == 2 ? c.rng.below(live.size()) : (splits % 2 ? 0 : live.size() - 1);
    if (!live[i]->is_divisible() || (splits && c.rng.coin(p.stop))) { leaves.push_back(std::move(live[i])); live[i] = std::move(live.back()); live.pop_back(); continue; }
    size_t before = (size_t)live[i]->size();
    auto n = std::make_unique<R>(*live[i], tbb::split{});
    if (check_size && (size_t)n->size() + (size_t)live[i]->size() != before) c.die(nm + ":size", fmt("a piece of size %zu splits into sizes %zu and %zu", before, (size_t)n->size(), (size_t)live[i]->size()));
    live.push_back(std::move(n));
    if (++splits > max_pieces) c.die(nm + ":termination", fmt("%zu splits of a range of %zu elements and still divisible", splits, total));
  }
  std::vector<uint64_t> got; size_t nonempty = 0;
  c.rng.shuffle(leaves);
  for (auto& l : leaves) {
    size_t k = got.size(); R copy(*l); elems(*l, got); k = got.size() - k;
    if (got.size() > total) break;
    if (l->empty() && k) c.die(nm + ":empty", fmt("a piece that says it is empty yields %zu elements", k));
    if (l->size() == 0 && !l->empty()) c.die(nm + ":empty", "a piece of size 0 is not empty()");    // edge ranges count rows in size(), so an empty one may have a size
    nonempty += k > 0;
    bool in_elements = nm.find("edge_range") == nm.npos && nm.find("non_zeros") == nm.npos;    // those count rows and words
    if (in_elements && (size_t)l->size() != k) c.die(nm + ":size", fmt("a piece says its size is %zu and yields %zu elements", (size_t)l->size(), k));
    if constexpr (requires { std::as_const(copy).begin() != std::as_const(copy).end(); }) { std::vector<uint64_t> as_const; elems(std::as_const(copy), as_const); std::vector<uint64_t> mine(got.end() - k, got.end()); if (as_const != mine) c.die(nm + ":const", fmt("a piece enumerates %zu elements through its const interface, other than the %zu it enumerates otherwise", as_const.size(), k)); c.count("pieces enumerated through their const interface"); }
    std::vector<uint64_t> again; elems(copy, again); if (again.size() != k) c.die(nm + ":copy", "a copy of a piece enumerates something else");
  }
  c.count("pieces enumerated", leaves.size()); c.count("non-empty pieces", nonempty); c.count("elements enumerated", got.size()); c.count("splits", splits);
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  if (got != want) {
    std::vector<uint64_t> miss, extra; std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss)); std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
    c.die(nm + ":partition", fmt("%zu of %zu elements missing, %zu extra or repeated, after %zu splits into %zu pieces", miss.size(), total, extra.size(), splits, leaves.size()));
  }
  return splits;
}
static size_t pick_n(Ctx& c) {
  switch (c.rng.below(5)) { case 0: return c.rng.below(4); case 1: return c.rng.below(40); case 2: return (size_t(1) << c.rng.below(11)) + c.rng.below(3) - 1; case 3: return c.rng.logsize(1, 3000); default: return c.rng.range(10, 200); }
}
static uint64_t h1(uint64_t a) { return mix(a * 3 + 1); }
static uint64_t h2(uint64_t a, uint64_t b) { return mix(mix(a) * 5 + b); }

NWV_FAMILY(splittable, 400, 6000) {
  size_t n = pick_n(c), cut = c.rng.of({(size_t)1, (size_t)2, (size_t)3, (size_t)16, (size_t)c.rng.range(1, 200)});
  std::vector<int> v(n); std::vector<uint64_t> want; for (size_t i = 0; i < n; ++i) { v[i] = (int)i; want.push_back(h1(i)); }
  c.input(n * 100003 + cut); c.interesting(n > cut); c.describe(fmt("n=%zu cutoff=%zu", n, cut));
  auto el = [](auto& r, auto& out) { for (auto&& x : r) out.push_back(h1(x)); };
  size_t cap = 2 * n + 4;
  nwg::splittable_range_adaptor r(v, cut); if (r.is_divisible() != (n > cut)) c.die("splittable:divisible", "not divisible exactly above its cutoff");
  divide(c, "splittable_range_adaptor", r, want, cap, el);
  { nwg::splittable_range_adaptor q(v); q.cutoff(cut); divide(c, "splittable_range_adaptor.cutoff", q, want, cap, el); }
  size_t a = c.rng.below(n + 1), b = c.rng.below(n + 1);    // a reversed pair is an empty range
  nwg::splittable_range_adaptor<std::vector<int>::iterator> s(v.begin() + a, v.begin() + b, cut);
  divide(c, "splittable_range_adaptor(iterators)", s, a < b ? std::vector<uint64_t>(want.begin() + a, want.begin() + b) : std::vector<uint64_t>{}, cap, el);
}
NWV_FAMILY(splittable_default, 6, 60) {    // default grain of 16384
  size_t n = c.rng.range(16384 - 2, 16384 * 6); std::vector<int> v(n); std::vector<uint64_t> want; for (size_t i = 0; i < n; ++i) { v[i] = (int)i; want.push_back(h1(i)); }
  c.input(n); c.interesting(n > 16384); auto el = [](auto& r, auto& out) { for (auto&& x : r) out.push_back(h1(x)); };
  divide(c, "splittable_range_adaptor default", nwg::splittable_range_adaptor(v), want, 2 * n, el);
}
NWV_FAMILY(cyclic, 500, 8000) {
  size_t n = pick_n(c), cut = c.rng.of({(size_t)1, (size_t)2, (size_t)3, (size_t)4, (size_t)7, (size_t)8, (size_t)c.rng.range(1, 100), n + 1, 2 * n + 1});
  std::vector<int> v(n); std::vector<uint64_t> want, wantn; for (size_t i = 0; i < n; ++i) { v[i] = (int)(i * 7); want.push_back(h1(i * 7)); wantn.push_back(h2(i, i * 7)); }
  size_t p2 = 1; while (p2 < cut) p2 *= 2;
  c.input(n * 100003 + cut); c.interesting(n > 1 && cut > 1); c.describe(fmt("n=%zu cutoff=%zu", n, cut));
  nwg::cyclic_range_adaptor r(v, cut); if (r.is_divisible() != (cut > 1)) c.die("cyclic:divisible", "not divisible exactly above a cutoff of 1");
  size_t s = divide(c, "cyclic_range_adaptor", r, want, p2, [](auto& r, auto& out) { for (auto&& x : r) out.push_back(h1(x)); });
  if (s + 1 > p2) c.die("cyclic:cycles", fmt("split into %zu cycles with cutoff %zu", s + 1, cut));
  nwg::cyclic_neighbor_range<std::vector<int>::iterator> q(v, cut);
  s = divide(c, "cyclic_neighbor_range", q, wantn, p2, [](auto& r, auto& out) { for (auto&& [i, x] : r) out.push_back(h2(i, x)); });
  if (s + 1 > p2) c.die("cyclic_neighbor:cycles", fmt("split into %zu cycles with cutoff %zu", s + 1, cut));
}
NWV_FAMILY(vertices, 300, 5000) {
  size_t n = pick_n(c); std::vector<uint64_t> want; for (size_t i = 0; i < n; ++i) want.push_back(h1(i)); c.input(n); c.interesting(n > 1); c.describe(fmt("n=%zu", n));
  divide(c, "vertex_range", nwg::vertex_range<nwg::adjacency<0>>(n), want, 2 * n + 4, [](auto& r, auto& out) { for (auto&& x : r) out.push_back(h1(x)); });
}
template <class Graph> static void graph_ranges(Ctx& c, const std::string& nm, Graph& g, const Adj& rows) {
  size_t n = rows.size(), cap = 2 * n + 4; size_t off = c.rng.coin() ? 0 : c.rng.below(n + 1);
  std::vector<uint64_t> we, wp, wn; for (size_t u = 0; u < n; ++u) { uint64_t h = 0; for (auto v : rows[u]) { if (u >= off) we.push_back(h2(u, v)); h = h2(h, v); } if (u >= off) { wp.push_back(h1(u)); wn.push_back(h2(u, h)); } }
  divide(c, nm + ":edge_range", nwg::make_edge_range(g, off), we, cap, [](auto& r, auto& out) { for (auto&& [u, v] : r) { out.push_back(h2(u, v)); if (out.size() > 10000000) break; } });
  divide(c, nm + ":plain_range", nwg::make_plain_range(g, off), wp, cap, [](auto& r, auto& out) { for (auto&& [u] : r) out.push_back(h1(u)); });
  auto nb = [](auto& r, auto& out) { for (auto&& [u, row] : r) { uint64_t h = 0; for (auto&& e : row) h = h2(h, std::get<0>(e)); out.push_back(h2(u, h)); } };
  divide(c, nm + ":neighbor_range", nwg::make_neighbor_range(g, off), wn, cap, nb);
  std::vector<uint64_t> wn0; for (size_t u = 0; u < n; ++u) { uint64_t h = 0; for (auto v : rows[u]) h = h2(h, v); wn0.push_back(h2(u, h)); }
  size_t cut = c.rng.range(1, 40), p2 = 1; while (p2 < cut) p2 *= 2;
  divide(c, nm + ":cyclic_neighbor_range", nwg::cyclic_neighbor_range<decltype(g.begin())>(g, cut), wn0, p2, nb);
  c.count("graphs divided");
}
NWV_FAMILY(graphs_scale, 3, 40) {
  G g = scale_graph(c.rng); c.input(g.digest()); c.interesting(true); c.describe(g.str()); auto a = make_csr<0>(g); graph_ranges(c, "adjacency", a, rows_of(a));
}
NWV_FAMILY(graphs, 250, 4000) {
  GenOpt o; o.max_n = c.rng.coin() ? 300 : 60; o.loops = c.rng.coin(); o.dups = c.rng.coin(); G g = random_graph(c.rng, o);
  if (c.rng.coin()) { size_t lead = c.rng.below(60), trail = c.rng.below(60); for (auto& [a, b] : g.e) { a += lead; b += lead; } g.n += lead + trail; g.kind += "+pad"; }
  c.input(g.digest()); c.interesting(g.n > 16 && g.e.size() > 1); c.describe(g.str());
  auto a = make_csr<0>(g); Adj rows = out_adj(g); auto got = rows_of(a); for (size_t u = 0; u < g.n; ++u) if (sorted(got[u]) != sorted(rows[u])) return;    // not this property's business
  graph_ranges(c, "adjacency", a, got); const auto& ca = a;
  if (c.rng.coin()) { size_t cap = 2 * g.n + 4; std::vector<uint64_t> we; for (size_t u = 0; u < g.n; ++u) for (auto v : got[u]) we.push_back(h2(u, v)); divide(c, "const adjacency:edge_range", nwg::make_edge_range(ca), we, cap, [](auto& r, auto& out) { for (auto&& [u, v] : r) { out.push_back(h2(u, v)); if (out.size() > 10000000) break; } }); }
  auto el = make_el<nwg::directedness::directed>(g); nwg::vov<0> w(el); auto wr = rows_of(w); if (wr.size() == g.n) graph_ranges(c, "vov", w, wr);
}
template <class Word> static void bits(Ctx& c, size_t n, size_t cut) {
  nwg::AtomicBitVector<Word> b(n); std::set<size_t> on; double p = c.rng.of({0.0, 0.001, 0.05, 0.5, 1.0});
  if (p > 0.3 && n > 5000) p = 0.01;
  for (size_t i = 0; i < n; ++i) if (c.rng.coin(p)) on.insert(i);
  if (n && c.rng.coin()) { on.insert(n - 1); on.insert(0); if (c.rng.coin()) on.erase(0); }
  for (auto i : on) b.set(i); std::vector<uint64_t> want; for (auto i : on) want.push_back(h1(i));
  c.input(mix(n * 131 + cut) ^ mix(on.size() * 7 + sizeof(Word))); c.interesting(on.size() > 1);
  size_t words = (n + sizeof(Word) * 8 - 1) / (sizeof(Word) * 8);
  divide(c, fmt("non_zeros<%zu>", sizeof(Word) * 8), b.non_zeros(cut), want, 2 * words + 4, [&](auto& r, auto& out) { for (auto i = r.begin(), e = r.end(); i != e; ++i) { out.push_back(h1(*i)); if (out.size() > n + 10) break; } });
}
NWV_FAMILY(non_zeros, 400, 6000) {
  size_t n = c.rng.of({(size_t)c.rng.below(70), (size_t)c.rng.below(2000), (size_t)64 * c.rng.below(30), (size_t)64 * c.rng.below(30) + c.rng.below(3)}), cut = c.rng.of({(size_t)1, (size_t)2, (size_t)c.rng.range(1, 20)});
  c.describe(fmt("bits=%zu cutoff=%zu", n, cut));
  switch (c.rng.below(3)) { case 0: bits<uint64_t>(c, n, cut); break; case 1: bits<uint32_t>(c, n, cut); break; default: bits<uint8_t>(c, n, cut); }
}
NWV_MAIN
