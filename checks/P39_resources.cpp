// P39: what an operation takes, it gives back. Oracle: counts of live blocks, descriptors, mapped pages and threads
// (include/nwv/core.hpp, -DNWV_LEAK), and of live attribute objects.
#include <nwv/edges.hpp>
#include <nwv/mm.hpp>
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
#include <nwgraph/vofos.hpp>
#include <nwgraph/adaptors/bfs_range.hpp>
#include <nwgraph/adaptors/bfs_edge_range.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/algorithms/bfs.hpp>
#include <nwgraph/algorithms/delta_stepping.hpp>
#include <nwgraph/algorithms/dijkstra.hpp>
#include <nwgraph/io/MatrixMarketFile.hpp>
#include <nwgraph/io/mmio.hpp>
#include <nwgraph/util/AtomicBitVector.hpp>
#include <nwgraph/util/parallel_for.hpp>
using namespace nwv;
using nwg::directedness;
constexpr auto DI = directedness::directed, UN = directedness::undirected;

// an attribute that owns memory and is counted
struct Owner {
  static inline std::atomic<long> live{0};
  std::string s;
  Owner() { ++live; }
  Owner(uint64_t k) : s("an attribute too long for the small buffer " + std::to_string(k)) { ++live; }
  Owner(const Owner& o) : s(o.s) { ++live; }
  Owner(Owner&& o) noexcept : s(std::move(o.s)) { ++live; }
  Owner& operator=(const Owner&) = default;
  Owner& operator=(Owner&&) = default;
  ~Owner() { --live; }
  auto operator<=>(const Owner&) const = default;
};
struct Balance {    // what a case holds at its end, it held at its start
  Ctx& c; const char* k; long n = Owner::live, fds = fd_count();
  static long fd_count() { return Held::entries("/proc/self/fd"); }
  void close() { c.check(Owner::live == n, (std::string(k) + ":leak-objects").c_str(), "%ld attribute objects remain", Owner::live - n); long f = fd_count(); c.check(f == fds, (std::string(k) + ":leak-files").c_str(), "%ld files remain open", f - fds); c.count("balances drawn"); }
};
static G pick(Ctx& c, size_t max_n = 40) { GenOpt o; o.max_n = c.rng.coin(0.1) ? 400 : max_n; G g = random_graph(c.rng, o); if (!g.n) g.n = 1; c.input(g.digest()); c.interesting(g.e.size() > 1); c.describe(g.str()); return g; }

NWV_FAMILY(bitmaps, 200, 6000) {
  Balance b{c, "bitmaps"}; {
    std::vector<nwg::AtomicBitVector<>> v; size_t k = 1 + c.rng.below(6), bits = c.rng.logsize(1, 5000); c.describe(fmt("%zu bitmaps of about %zu bits", k, bits)); c.input(bits * 8 + k); c.interesting();
    for (size_t i = 0; i < k; ++i) v.emplace_back(bits + i);
    for (size_t i = 0, m = c.rng.below(8); i < m; ++i) {
      size_t x = c.rng.below(k), y = c.rng.below(k); size_t n = 1 + c.rng.below(bits * 2);
      switch (c.rng.below(4)) {
        case 0: v[x] = nwg::AtomicBitVector<>(n); v[x].set(n - 1); if (!v[x].get(n - 1)) c.fail("bit", "not set"); break;
        case 1: if (x != y) { nwg::AtomicBitVector<> t(std::move(v[x])); v[x] = std::move(v[y]); v[y] = std::move(t); } break;
        case 2: std::swap(v[x], v[y]); break;
        default: { nwg::AtomicBitVector<> t(n, false); t.clear(); v.push_back(std::move(t)); v.pop_back(); }
      }
      c.count("bitmaps assigned or moved");
    }
  } b.close();
}
NWV_FAMILY(mapped, 200, 6000) {
  MMOpt o; o.blanks = false; auto f = random_mm(c.rng, o); auto path = put_file(c.tmpdir, f.text); c.input(hash_str(f.text)); c.interesting(f.entries.size() > 1); c.describe(fmt("%s %s, %zu entries", f.field.c_str(), f.symmetry.c_str(), f.entries.size()));
  Balance b{c, "mapped"}; int how = (int)c.rng.below(4); {
    mmio::MatrixMarketFile m(path); size_t n = 0; for (auto [x, y] : mmio::edges(m, 0, (int)f.entries.size())) n += x >= 0 && y >= 0;
    if (how == 1) m.release(); if (how == 2) release(m); if (how == 3) { m.release(); long d = Balance::fd_count(); c.check(d == b.fds, "release:leak-files", "%ld files remain open after release()", d - b.fds); m.release(); } c.count("entries read", n);
  } b.close();
}
NWV_FAMILY(files, 200, 6000) {    // read, written and refused
  MMOpt o; o.bipartite = c.rng.coin(0.3); auto f = random_mm(c.rng, o); auto t = f.text; int how = (int)c.rng.below(3);
  if (how == 1) t.resize(c.rng.below(t.size())); if (how == 2 && t.size() > 3) for (int i = 0; i < 4; ++i) t[c.rng.below(std::min<size_t>(t.size(), 80))] = "x 9\n-%"[c.rng.below(6)];
  { std::stringstream s(t); std::string l; while (std::getline(s, l) && l[0] == '%'); size_t a = 0, d = 0, e = 0; sscanf(l.c_str(), "%zu %zu %zu", &a, &d, &e); if (a > 2000000 || d > 2000000 || e > 100000) { t = f.text; how = 0; } }
  auto path = put_file(c.tmpdir, t); c.input(hash_str(t)); c.interesting(); c.describe(fmt("%s %s, %zu entries%s", f.field.c_str(), f.symmetry.c_str(), f.entries.size(), how ? ", damaged" : "")); size_t refused = 0;
  Balance b{c, "files"};
  auto attempt = [&](auto&& g) { try { g(); } catch (std::exception&) { ++refused; } };
  attempt([&] { auto e = nwg::read_mm<DI>(path); if (!how && e.size()) { auto p = c.tmpdir + "/o.mtx"; nwg::write_mm(p, e); e.serialize(c.tmpdir + "/o.el"); decltype(e) g; g.deserialize(c.tmpdir + "/o.el"); c.check(g == e, "reread", "differs"); } });
  attempt([&] { nwg::read_mm<UN, double>(path); }); attempt([&] { nwg::read_mm<DI, double>(path); });
  attempt([&] { std::istringstream s(t); std::string l; while (std::getline(s, l) && l[0] == '%'); nwg::bi_edge_list<DI> e(f.n0, f.n1); nwg::mm_fill(s, e, f.entries.size(), false, f.pattern()); }); attempt([&] { nwg::read_mm_vector<double>(path); }); attempt([&] { nwg::get_mm_symmetry(path); }); nwg::is_mm(path); nwg::is_mm(c.tmpdir + "/none"); attempt([&] { nwg::read_mm<DI>(c.tmpdir + "/none"); });
  b.close(); c.count("files refused", refused);
}
template <directedness D> static void owning(Ctx& c, const G& g) {
  using EL = nwg::edge_list<D, Owner>; std::vector<Tup<Owner>> m; for (size_t i = 0; i < g.e.size(); ++i) m.push_back({g.e[i].first, g.e[i].second, Owner(i)});
  EL el(g.n); push_all(el, m);
  for (int k = 0, n = 1 + (int)c.rng.below(6); k < n; ++k) switch (c.rng.below(7)) {
    case 0: { EL x(el); EL y; y = x; x = std::move(y); el = std::move(x); } break;
    case 1: nwg::lexical_sort_by<0>(el); break;
    case 2: { nwg::adjacency<0, Owner> a(el), b2(a), d; d = std::move(b2); a = d; c.check(a.num_edges() == d.num_edges(), "copy", "differs"); } break;
    case 3: { nwg::vov<0, Owner> a(el); auto b2 = a; a = std::move(b2); } break;
    case 4: { nwg::adjacency<1, Owner> a(el); size_t k2 = 0; for (auto&& [u, v, o] : nwg::make_edge_range<0>(a)) { k2 += o.s.size() > 9; if (k2 > 5) break; } } break;
    case 5: { EL x(el); x.clear(); push_all(x, m); EL z(3); z = x; } break;
    default: { nwg::struct_of_arrays<Owner, int> s(3); s.push_back(Owner(7), 1); s.resize(2); s.reserve(50); auto t = s; t.clear(); s = std::move(t); } break;
  }
  if (el.size() != m.size()) c.fail("size", "changed"); c.count("attributes carried", m.size());
}
NWV_FAMILY(attributes, 200, 6000) { Threads th(c.rng); Balance b{c, "attributes"}; { G g = pick(c); if (c.rng.coin()) owning<DI>(c, g); else owning<UN>(c, g); } b.close(); }
struct Stop {};
// user code that throws half way
NWV_FAMILY(thrown, 200, 6000) {
  Threads th(c.rng); G g = pick(c); std::vector<double> w(g.e.size()); for (auto& x : w) x = 1 + (double)c.rng.below(9); auto a = make_csr_w<0, double>(g, w); Balance b{c, "thrown"}; size_t at = c.rng.below(g.e.size() + 2), n = 0; size_t stopped = 0; V s = (V)c.rng.below(g.n);
  try { nwg::dijkstra<double>(a, s, [&](const auto& e) { if (n++ == at) throw Stop{}; return std::get<1>(e); }); } catch (Stop&) { ++stopped; }
  std::atomic<size_t> k{0};
  try { nwg::parallel_for(nwg::edge_range(a), [&](auto&& u, auto&& v) { if (k++ == at) throw Stop{}; (void)u; (void)v; }); } catch (Stop&) { ++stopped; }
  k = 0; try { nwg::parallel_reduce(tbb::blocked_range<size_t>(0, 5000), [&](size_t i) { if (k++ == at * 7) throw Stop{}; return i; }, std::plus{}, size_t(0)); } catch (Stop&) { ++stopped; }
  std::vector<std::string> held(g.n, "some text too long for the small buffer of a string");
  try { nwg::parallel_for(nwg::make_neighbor_range(a), [&](auto&& u, auto&& row) { std::string t = held[u]; for (auto&& x : row) if (k++ == at * 3) throw Stop{}; t += "x"; }); } catch (Stop&) { ++stopped; }
  n = 0; try { nwg::edge_list<DI, Owner> el(g.n); el.open_for_push_back(); for (auto [u, v] : g.e) { if (n++ == at) throw Stop{}; el.push_back(u, v, Owner(n)); } } catch (Stop&) { ++stopped; }
  b.close(); c.count("runs stopped by an exception", stopped);
}
// searches given up after some steps
NWV_FAMILY(abandoned, 200, 6000) {
  G g = pick(c); auto a = make_csr<0>(g); Balance b{c, "abandoned"}; V s = (V)c.rng.below(g.n); size_t at = c.rng.below(6), n = 0;
  { nwg::topdown_bfs_range r(a, s); for (auto i = r.begin(); i != r.end(); ++i) if (n++ == at) break; } n = 0;
  { nwg::bfs_edge_range r(a, s); for (auto&& t : r) { (void)t; if (n++ == at) break; } } n = 0;
  for (auto&& t : nwg::bfs_edge_range(a, s)) { (void)t; if (n++ == at) break; }
  { nwg::bfs_edge_range r(a, s); (void)r; }
  b.close(); c.count("searches given up");
}
// one graph object that is filled, emptied and filled again
NWV_FAMILY(reused, 120, 4000) {
  Threads th(c.rng); G g = pick(c), h = pick(c); auto x = make_el<DI>(g), y = make_el<DI>(h); Balance b{c, "reused"}; {
    nwg::adjacency<0> a(x); nwg::vov<0> v(x); nwg::adjacency<1> t(x); std::vector<std::vector<std::tuple<uint32_t>>> p;
    for (int k = 0; k < 4; ++k) { a = nwg::adjacency<0>(k % 2 ? x : y); t = nwg::adjacency<1>(k % 2 ? x : y); nwg::adjacency<0> d(a); a = d; v = nwg::vov<0>(k % 2 ? x : y); auto u = v; v = u; nwg::lexical_sort_by<0>(x); nwg::swap_to_triangular<0>(y, nwg::succession::predecessor); nwg::bfs(a, (V)0); }
    c.count("graphs built", 16);
  } b.close();
}
NWV_MAIN
