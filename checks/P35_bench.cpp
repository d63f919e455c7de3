// P35: what the benchmark drivers rest on: loading a graph whatever its format, building, counting degrees, choosing sources, summarising trials.
#include <nwv/edges.hpp>
#include <nwv/mm.hpp>
struct Left { int code; };    // the program would end here
[[noreturn]] static void nwv_exit(int code) { throw Left{code}; }
namespace std { using ::nwv_exit; }
#define exit(x) nwv_exit(x)
#include "common.hpp"
#undef exit
using namespace nwv;
using nwg::directedness;
namespace nb = nwg::bench;
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
static std::vector<Tup<double>> want_of(const MM& f, bool directed) {
  std::vector<Tup<double>> w;
  for (size_t i = 0; i < f.entries.size(); ++i) { auto [a, b, x] = f.entries[i]; double v = f.pattern() ? 1.0 : strtod(f.values[i].c_str(), nullptr); w.push_back({a, b, v}); if (directed && f.symmetric() && a != b) w.push_back({b, a, v}); }
  return w;
}
NWV_FAMILY(refused, 100, 4000) {    // files of another kind, source files of another length
  Quiet q; std::ostringstream es; auto* eb = std::cerr.rdbuf(es.rdbuf()); struct Back { std::streambuf* b; ~Back() { std::cerr.rdbuf(b); } } back{eb};
  std::string head = c.rng.of({"", "%MatrixMarket matrix coordinate pattern general", "%%matrixmarket matrix", "NWGRAPH_EDGE", "MatrixMarket %%MatrixMarket", "1 2", "<html>", "PK\x03\x04", "nw_edge_list"}), body; for (size_t i = c.rng.below(20); i; --i) body += fmt("%zu %zu\n", (size_t)(1 + c.rng.below(9)), (size_t)(1 + c.rng.below(9)));
  auto p = put_file(c.tmpdir, head + "\n" + body, "other.txt"); c.input(hash_str(head + body)); c.interesting(); c.describe(head);
  std::string first; { std::istringstream i(head + "\n" + body); i >> first; }
  auto refused = [&](auto f, const char* what) { try { f(); } catch (Left l) { c.check(l.code == 1, "refuse:status", "%s ends with status %d", what, l.code); c.count("files refused"); return; } c.fail("refuse", fmt("%s is accepted: '%s'", what, head.c_str())); };
  if (c.rng.coin()) refused([&] { nb::load_graph<directedness::directed, double>(p); }, "a graph file of another kind"); else refused([&] { nb::load_graph<directedness::undirected>(p); }, "a graph file of another kind"); c.check(!es.str().empty(), "refuse:message", "nothing is said");
  nwg::edge_list<directedness::directed> el(10); el.open_for_push_back(); el.push_back(0, 9); el.close_for_push_back(); nwg::adjacency<0> g(el); size_t n = 1 + c.rng.below(12), ask = 1 + c.rng.below(14); std::vector<V> src; std::string t = "%%MatrixMarket matrix array integer general\n" + std::to_string(n) + " 1\n"; for (size_t i = 0; i < n; ++i) { src.push_back((V)c.rng.below(10)); t += std::to_string(src[i] + 1) + "\n"; }
  auto s = put_file(c.tmpdir, t, "sources.mtx"); auto same = [&](const auto& v) { if (v.size() != n) return false; for (size_t i = 0; i < n; ++i) if ((size_t)v[i] != src[i]) return false; return true; };
  try { c.check(same(nb::load_sources_from_file(g, s)), "sources", "other sources than in the file"); c.check(same(nb::load_sources_from_file(g, s, n)), "sources:n", "other sources than in the file"); } catch (Left) { c.fail("sources:refused", fmt("%zu sources, asked for %zu", n, n)); }
  if (ask != n) refused([&] { nb::load_sources_from_file(g, s, ask); }, "a source file of another length");
}
NWV_FAMILY(options, 300, 8000) {    // numbers of threads and versions as given; without any number, what the library may use
  std::vector<std::string> a; std::vector<long> want; for (size_t i = c.rng.below(6); i; --i) { want.push_back(c.rng.of({1, 2, 3, 8, 16, 64, 1000})); a.push_back(std::to_string(want.back())); } uint64_t h = a.size(); for (auto x : want) h = mix(h ^ (uint64_t)x); c.input(h); c.interesting(a.size() > 1);
  c.check(nb::parse_ids(a) == want, "ids", "%zu given", a.size()); size_t limit = 1 + c.rng.below(9), now = nb::get_n_threads(); c.check(now == tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism), "threads:now", "%zu", now);
  { auto set = nb::set_n_threads(limit); c.check((size_t)nb::get_n_threads() == limit, "threads:set", "%ld after asking for %zu", nb::get_n_threads(), limit); auto t = a.empty() ? std::vector<long>{(long)limit} : want; c.check(nb::parse_n_threads(a) == t, "threads", "%zu numbers from %zu", nb::parse_n_threads(a).size(), a.size()); }
  c.check((size_t)nb::get_n_threads() == now, "threads:after", "%ld instead of %zu afterwards", nb::get_n_threads(), now); c.count("options read", a.size());
}
NWV_FAMILY(load, 500, 8000) {
  MMOpt o; o.square = true; MM f = random_mm(c.rng, o); c.input(hash_str(f.text)); c.interesting(f.entries.size() > 1); c.describe(f.text.size() < 300 ? f.text : "long"); if (f.n0 > 3000) return;
  auto p = put_file(c.tmpdir, f.text); Quiet q;
  auto go = [&]<directedness D>(std::integral_constant<directedness, D>) {
    auto el = nb::load_graph<D, double>(p); auto want = want_of(f, D == directedness::directed);
    auto d = differ(content(el), want); if (!d.empty()) c.die("load:mm", d);
    el.serialize(c.tmpdir + "/g.nw"); auto e2 = nb::load_graph<D, double>(c.tmpdir + "/g.nw");
    d = differ(content(e2), content(el)); if (!d.empty()) c.die("load:binary", d); c.check(nwg::num_vertices(e2) == nwg::num_vertices(el), "load:binary", "vertices");
    auto both = want; if (D == directedness::undirected) for (auto& t : want) both.push_back(swapped(t));
    bool sorted = c.rng.coin(); auto a = nb::build_adjacency<0>(el, sorted); auto t = nb::build_adjacency<1>(el, sorted);
    d = differ(csr_content<Tup<double>>(a), both); if (!d.empty()) c.die("build:out", d);
    for (auto& x : both) x = swapped(x); d = differ(csr_content<Tup<double>>(t), both); if (!d.empty()) c.die("build:in", d);
    if (sorted) for (auto&& row : a) { V last = 0; for (auto&& e : row) { c.check(std::get<0>(e) >= last, "build:sorted", "row out of order"); last = std::get<0>(e); } }
    c.count("edges loaded", want.size());
  };
  go(std::integral_constant<directedness, directedness::directed>{}); go(std::integral_constant<directedness, directedness::undirected>{});
}
NWV_FAMILY(degrees, 500, 6000) {
  bool big = c.rng.coin(0.1); G g; if (big) g = big_graph(c.rng, c.rng.logsize(300, 4000), c.rng.logsize(2000, 40000)); else { GenOpt o; o.max_n = 60; o.dups = c.rng.coin(); o.loops = c.rng.coin(); g = random_graph(c.rng, o); }
  if (c.rng.coin(0.3)) { V h = (V)c.rng.below(std::max<size_t>(g.n, 1)); if (g.n) for (size_t i = 0, k = c.rng.below(500); i < k; ++i) g.e.push_back({(V)c.rng.below(g.n), h}); }
  c.input(g.digest()); c.describe(g.str()); c.interesting(g.e.size() > 1); Quiet q; Threads th(c.rng);
  std::vector<size_t> in(g.n); for (auto& e : g.e) ++in[e.second];
  auto a = make_csr<0>(g); auto d = nb::build_degrees(a);
  c.check(d.size() == g.n, "degrees:size", "%zu degrees for %zu vertices", d.size(), g.n);
  for (size_t v = 0; v < g.n; ++v) c.check(d[v] == in[v], "degrees", "vertex %zu is counted %zu times, it is the end of %zu edges", v, (size_t)d[v], in[v]);
  auto t = make_csr<1>(g); std::vector<size_t> out(g.n); for (auto& e : g.e) ++out[e.first]; auto d1 = nb::build_degrees(t);
  for (size_t v = 0; v < g.n; ++v) c.check(d1[v] == out[v], "degrees:transposed", "vertex %zu is counted %zu times, it is the start of %zu edges", v, (size_t)d1[v], out[v]);
  c.count("degrees checked", 2 * g.n);
  if (g.e.empty()) return;
  size_t k = c.rng.below(200); long seed = (long)c.rng.below(100000); auto s = nb::build_random_sources(t, k, seed); auto s2 = nb::build_random_sources(t, k, seed);
  c.check(s == s2 && s.size() == k, "sources:repeat", "the same seed gives other sources");
  for (auto v : s) { c.check(v < g.n, "sources:range", "source %zu of %zu vertices", (size_t)v, g.n); c.check(out[v] > 0, "sources:isolated", "source %zu has no edge", (size_t)v); }
  c.count("sources checked", k);
  std::string text = "%%MatrixMarket matrix array integer general\n" + std::to_string(k) + " 1\n"; for (auto v : s) text += std::to_string(v + 1) + "\n";
  if (k) { auto l = nb::load_sources_from_file(t, put_file(c.tmpdir, text, "s.mtx"), k); c.check(l == s, "sources:file", "sources differ from the file"); }
}
NWV_FAMILY(times, 300, 3000) {
  nb::Times<int> t; std::map<std::string, std::vector<double>> want; size_t files = 1 + c.rng.below(4);
  for (size_t i = 0, k = 1 + c.rng.below(30); i < k; ++i) { std::string f = "f" + std::to_string(c.rng.below(files)); double x = (double)(1 + c.rng.below(1000)) / 8; t.append(f, 3, 2, x, (int)i); want[f].push_back(x); c.input((uint64_t)(x * 8)); }
  c.interesting(want.size() > 1); std::ostringstream o; t.print(o); std::istringstream in(o.str()); std::string l; std::getline(in, l); size_t rows = 0;
  while (std::getline(in, l)) {
    std::istringstream r(l); std::string f; long id, th; double mn, av, mx; if (!(r >> f >> id >> th >> mn >> av >> mx)) { c.fail("times:row", l); continue; }
    auto& w = want[f]; double lo = *std::min_element(w.begin(), w.end()), hi = *std::max_element(w.begin(), w.end()), s = 0; for (double x : w) s += x;
    c.check(id == 3 && th == 2 && std::abs(mn - lo) < 1e-5 && std::abs(mx - hi) < 1e-5 && std::abs(av - s / w.size()) < 1e-5, "times:values", "%s: min %g avg %g max %g, expected %g %g %g", f.c_str(), mn, av, mx, lo, s / w.size(), hi); ++rows;
  }
  c.check(rows == want.size(), "times:rows", "%zu rows for %zu configurations", rows, want.size()); c.count("summaries checked", rows);
  long n = 0; auto [tm, v] = nb::time_op([&] { return ++n; }); c.check(n == 1 && v == 1 && tm >= 0, "time_op", "ran %ld times", n);
  auto ids = nb::parse_ids({"3", "0", "12"}); c.check(ids == std::vector<long>{3, 0, 12}, "parse_ids", "wrong"); c.check(nb::parse_n_threads({"4", "2"}) == std::vector<long>{4, 2}, "parse_n_threads", "wrong");
}
NWV_MAIN
