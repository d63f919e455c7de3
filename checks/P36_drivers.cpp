// P36: the benchmark programs, run as a user runs them (their own main, command line, input files), against answers computed here.
// -DNWV_DRIVER=1 bfs, 2 cc, 3 pr, 4 sssp, 5 bc, 6 tc, 7 sources, 8 process_edge_list
#include <nwv/edges.hpp>
#include <nwv/mm.hpp>
#include "common.hpp"
#include <docopt.h>
#include <date/date.h>
#include <filesystem>
#include <unistd.h>
#if NWV_DRIVER == 6
#include <nlohmann/json.hpp>
#endif
#define main nwv_driver_main
#if NWV_DRIVER == 1
#include "bfs.cpp"
#elif NWV_DRIVER == 2
#include "cc.cpp"
#elif NWV_DRIVER == 3
#include "pr.cpp"
#elif NWV_DRIVER == 4
#include "sssp.cpp"
#elif NWV_DRIVER == 5
#include "bc.cpp"
#elif NWV_DRIVER == 6
#include "tc.cpp"
#elif NWV_DRIVER == 7
#include "SourceVerifier.cpp"
#elif NWV_DRIVER == 8
#include "ProcessEdgelist.cpp"
#endif
#undef main
using nwv::Ctx; using nwv::G; using nwv::GenOpt; using nwv::V; using nwv::fmt;
namespace nwg = nw::graph; namespace nb = nwg::bench;

static std::string host = "host";    // what the machine is called, as the C library reports it
extern "C" int gethostname(char* to, size_t n) noexcept { if (host.size() + 1 <= n) { memcpy(to, host.c_str(), host.size() + 1); return 0; } memcpy(to, host.c_str(), n); errno = ENAMETOOLONG; return -1; }
struct Run { int rc; std::string out, err; };
static Run drive(Ctx& c, std::vector<std::string> args) {    // the driver's main, in the case's scratch directory
  std::filesystem::current_path(c.tmpdir); for (auto f : {"l.txt", "l.json"}) std::filesystem::remove(c.tmpdir + "/" + f);    // logs are appended to
  host = "host"; for (size_t i = c.rng.coin(0.4) ? c.rng.below(10) : c.rng.range(8, 60); i; --i) host += (char)('a' + c.rng.below(26));
  args.insert(args.begin(), "driver"); std::vector<char*> argv; for (auto& a : args) argv.push_back(a.data()); argv.push_back(nullptr);
  std::string d; for (auto& a : args) d += " " + (a.find('/') == std::string::npos ? a : a.substr(a.rfind('/') + 1)); c.describe(d); c.count("driver runs");
  struct Redirect { std::ostream& s; std::ostringstream o; std::streambuf* b; std::ios st{nullptr}; Redirect(std::ostream& s) : s(s), b(s.rdbuf(o.rdbuf())) { st.copyfmt(s); } ~Redirect() { s.rdbuf(b); s.copyfmt(st); } };
  Run r; { Redirect o(std::cout), e(std::cerr); r.rc = nwv_driver_main((int)args.size(), argv.data()); r.out = o.o.str(); r.err = e.o.str(); }
  c.check(r.rc == 0, "exit", "the driver returns %d", r.rc);
  return r;
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
static std::string tail(const std::string& s) { return s.size() < 300 ? s : s.substr(s.size() - 300); }
// The table of times: one row for each version and number of threads
static void times_table(Ctx& c, const Run& r, const std::string& file, const std::vector<int>& ids, const std::vector<int>& threads) {
  std::map<std::pair<long, long>, int> want, got; for (int i : ids) for (int t : threads) want[{i, t}] = 1;
  bool in = false;
  for (auto& l : lines(r.out)) {
    std::istringstream s(l); std::string f; if (!(s >> f)) continue;
    if (f == "File") { in = true; continue; } if (!in || f != file) continue;
    long id, th; double mn, av, mx; if (!(s >> id >> th >> mn >> av >> mx)) { c.fail("times:row", l); continue; }
    ++got[{id, th}]; c.check(mn >= 0 && mn <= av + 1e-6 && av <= mx + 1e-6, "times:order", "min %g avg %g max %g", mn, av, mx);
  }
  c.check(got == want, "times:rows", "%zu configurations in the table, %zu were asked for: %s", got.size(), want.size(), tail(r.out).c_str()); c.count("rows of times checked", got.size());
}
// The log: a header if asked for and a row for each trial
static void log_rows(Ctx& c, const std::string& path, bool header, const std::string& bench, const std::vector<std::string>& graphs, const std::vector<int>& ids, const std::vector<int>& threads, size_t trials) {
  std::map<std::tuple<std::string, std::string, std::string>, size_t> want, got; for (auto& g : graphs) for (int i : ids) for (int t : threads) want[{"v" + std::to_string(i), std::to_string(t), g}] = trials;
  auto ls = lines(nwv::get_file(path)); size_t heads = 0;
  for (auto& l : ls) {
    if (l.rfind("UUID", 0) == 0) { ++heads; continue; }
    std::istringstream s(l); std::vector<std::string> f; std::string x; while (s >> x) f.push_back(x);
    auto it = std::find(f.begin(), f.end(), bench); if (it == f.end() || f.end() - it < 5) { c.fail("log:row", l); continue; }
    if (it != f.begin()) c.check(it[-1] == host || (host.size() > 15 && it[-1].size() >= 15 && host.rfind(it[-1], 0) == 0), "log:host", "%s on %s", it[-1].c_str(), host.c_str());
    ++got[{it[1], it[2], it[3]}]; c.check(strtod(it[4].c_str(), nullptr) >= 0, "log:time", "%s", l.c_str());
  }
  c.check(heads == (header ? 1u : 0u), "log:header", "%zu headers", heads); c.check(got == want, "log:rows", "%zu kinds of rows instead of %zu in\n%s", got.size(), want.size(), nwv::get_file(path).substr(0, 500).c_str()); c.count("log rows checked", ls.size());
}
// A graph as a Matrix Market file (or the library's own format); symmetric: each edge stands for both directions
static std::string graph_file(Ctx& c, const G& g, bool symmetric, const std::vector<int>* w = nullptr, const char* name = "g.mtx") {
  std::string t = std::string("%%MatrixMarket matrix coordinate ") + (w ? "integer " : "pattern ") + (symmetric ? "symmetric" : "general") + "\n% made by the check\n" + std::to_string(g.n) + " " + std::to_string(g.n) + " " + std::to_string(g.e.size()) + "\n";
  for (size_t i = 0; i < g.e.size(); ++i) { auto [a, b] = g.e[i]; if (symmetric && a < b) std::swap(a, b); t += std::to_string(a + 1) + " " + std::to_string(b + 1) + (w ? " " + std::to_string((*w)[i]) : "") + "\n"; }
  c.input(nwv::hash_str(t)); return nwv::put_file(c.tmpdir, t, name);
}
static bool big = false;    // graphs beyond 16 bits of vertices, degrees and cluster sizes, one configuration each
static G some_graph(Ctx& c, size_t max_n, size_t min_n = 1, bool loops = true) {
  if (big) { G g = nwv::scale_graph(c.rng, false, false); c.describe(g.str()); c.interesting(); return g; }
  GenOpt o; o.max_n = max_n; o.dups = c.rng.coin(); o.loops = loops && c.rng.coin();
  G g; do g = random_graph(c.rng, o); while (g.n < min_n || g.e.empty());
  c.describe(g.str()); c.interesting(g.e.size() > 2); return g;
}
static std::vector<int> some(Ctx& c, std::vector<int> all) { if (big) return {c.rng.pick(all)}; std::vector<int> v; do { v.clear(); for (int i : all) if (c.rng.coin(0.4)) v.push_back(i); } while (v.empty()); return v; }
static bool unnamed = false;    // no number of threads is given: as many as there are
static std::vector<int> some_threads(Ctx& c) { unnamed = c.rng.coin(0.1); if (unnamed) return {(int)tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism)}; return some(c, {1, 2, 3, 4, 8}); }
static void add_ids(std::vector<std::string>& a, const std::vector<int>& ids) { for (int i : ids) { a.push_back("--version"); a.push_back(std::to_string(i)); } }
static void add_threads(std::vector<std::string>& a, const std::vector<int>& th) { if (!unnamed) for (int i : th) a.push_back(std::to_string(i)); }
static size_t und_components(const G& g, std::map<size_t, size_t>* sizes = nullptr) { auto l = components(g); std::map<V, size_t> n; for (V x : l) ++n[x]; if (sizes) for (auto& p : n) ++(*sizes)[p.second]; return n.size(); }
template <class... A> static std::string nw_file(Ctx& c, const std::string& mtx, bool undirected) {    // the same graph in the library's own format
  std::string p = c.tmpdir + "/g.nw"; std::ostringstream q; auto* b = std::cout.rdbuf(q.rdbuf());
  if (undirected) nwg::read_mm<nwg::directedness::undirected, A...>(mtx).serialize(p); else nwg::read_mm<nwg::directedness::directed, A...>(mtx).serialize(p);
  std::cout.rdbuf(b); return p;
}
static std::string sources_file(Ctx& c, const std::vector<V>& s) { std::string t = "%%MatrixMarket matrix array integer general\n" + std::to_string(s.size()) + " 1\n"; for (V v : s) t += std::to_string(v + 1) + "\n"; return nwv::put_file(c.tmpdir, t, "s.mtx"); }

#if NWV_DRIVER == 1
static void bfs_case(Ctx& c) {
  G g = some_graph(c, c.rng.coin(0.2) ? 400 : 60); bool sym = c.rng.coin(0.3); std::string f = graph_file(c, g, sym); if (c.rng.coin(0.2)) f = nw_file<>(c, f, false);
  auto ids = some(c, {0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13}), th = some_threads(c); size_t n = 1 + c.rng.below(3); std::vector<std::string> a{"-f", f, "-v"};
  add_ids(a, ids); int how = (int)c.rng.below(3); std::vector<V> src;
  if (how == 0) { a.push_back("-r"); V s = (V)c.rng.below(g.n); a.push_back(std::to_string(s)); a.push_back("-n"); a.push_back(std::to_string(n)); }
  else if (how == 1) { for (size_t i = 0; i < n; ++i) src.push_back((V)c.rng.below(g.n)); a.push_back("-s"); a.push_back(sources_file(c, src)); }
  else { a.push_back("-n"); a.push_back(std::to_string(n)); a.push_back("--seed"); a.push_back(std::to_string(1 + c.rng.below(1000))); }
  if (c.rng.coin(0.3)) { a.push_back("-B"); a.push_back(std::to_string(1 << c.rng.below(7))); } if (c.rng.coin(0.3)) { a.push_back("-a"); a.push_back(std::to_string(1 + c.rng.below(40))); } if (c.rng.coin(0.3)) { a.push_back("-b"); a.push_back(std::to_string(1 + c.rng.below(40))); }
  bool log = c.rng.coin(0.2), head = c.rng.coin(); if (log) { a.push_back("--log"); a.push_back(c.tmpdir + "/l.txt"); if (head) a.push_back("--log-header"); }
  bool verbose = c.rng.coin(0.3); if (verbose) a.push_back("-V"); if (c.rng.coin(0.1)) a.push_back("-d"); add_threads(a, th); auto r = drive(c, a);
  for (auto& l : lines(r.out)) for (const char* bad : {"Source wrong", "Wrong depths", "Couldn't find edge", "mismatch", "Reachability"}) c.check(l.find(bad) == std::string::npos, "verification", "%s", l.c_str());
  times_table(c, r, f, ids, th); if (log) log_rows(c, c.tmpdir + "/l.txt", head, "bfs", {"g"}, ids, th, n); c.count("searches verified", n * ids.size() * th.size());
  if (verbose) { size_t k = 0, i = 0; for (auto& l : lines(r.out)) if (l.rfind("source: ", 0) == 0) { size_t s = strtoul(l.c_str() + 8, nullptr, 10); if (how == 1) c.check(s == src[i++ % n], "source", "searches from %zu", s); c.check(s < g.n, "source:range", "source %zu of %zu vertices", s, g.n); ++k; } c.check(k == n * ids.size() * th.size(), "searches", "%zu searches for %zu", k, n * ids.size() * th.size()); }
}
NWV_FAMILY(bfs_driver, 60, 2000) { bfs_case(c); }
NWV_FAMILY(bfs_scale, 3, 40) { big = true; struct Done { ~Done() { big = false; } } done; bfs_case(c); }
#elif NWV_DRIVER == 2
static void cc_case(Ctx& c) {
  G g = some_graph(c, c.rng.coin(0.2) ? 400 : 60); bool sym = c.rng.coin(); std::string f = graph_file(c, g, sym || c.rng.coin(0.2)); if (c.rng.coin(0.2)) f = nw_file<>(c, f, sym);
  // the versions that read only out-edges need the symmetric graph
  auto ids = sym ? some(c, {0, 1, 2, 5, 6, 7, 8, 9, 10, 11}) : some(c, {0, 7}), th = some_threads(c); size_t n = 1 + c.rng.below(3); std::vector<std::string> a{sym ? "-s" : "-f", f, "-v", "-V", "-n", std::to_string(n)};
  add_ids(a, ids); if (c.rng.coin(0.3)) { a.push_back("--relabel"); a.push_back("--direction"); a.push_back(c.rng.of({"ascending", "descending"})); } if (!sym && c.rng.coin(0.3)) { a.push_back("--clean"); a.push_back("--succession"); a.push_back(c.rng.of({"successor", "predecessor"})); }
  bool log = c.rng.coin(0.2), head = c.rng.coin(); if (log) { a.push_back("--log"); a.push_back(c.tmpdir + "/l.txt"); if (head) a.push_back("--log-header"); }
  std::vector<G> gs{g}; std::vector<std::string> fs{f}, stems{"g"}; if (c.rng.coin(0.25)) { gs.push_back(some_graph(c, 60)); fs.push_back(graph_file(c, gs[1], sym, nullptr, "h.mtx")); stems.push_back("h"); a.insert(a.begin() + 2, {sym ? "-s" : "-f", fs[1]}); }
  if (c.rng.coin(0.1)) a.push_back("-d"); add_threads(a, th); auto r = drive(c, a);
  c.check(r.err.find("failed verification") == std::string::npos && r.out.find("unvisited") == std::string::npos, "verification", "%s", tail(r.err).c_str());
  size_t k = 0, seen = 0, each = n * ids.size() * th.size(); std::vector<size_t> top;
  auto now = [&](const G& g) { std::map<size_t, size_t> sizes; k = und_components(g, &sizes); top.clear(); for (auto it = sizes.rbegin(); it != sizes.rend(); ++it) for (size_t i = 0; i < it->second && top.size() < 5; ++i) top.push_back(it->first); }; now(g);
  auto ls = lines(r.out);
  for (size_t i = 0; i < ls.size(); ++i) {
    if (ls[i].find(" biggest clusters") != std::string::npos) { size_t m = strtoul(ls[i].c_str(), nullptr, 10); c.check(m == top.size(), "clusters:shown", "%zu clusters shown", m); for (size_t j = 0; j < m && i + 1 + j < ls.size(); ++j) { auto& l = ls[i + 1 + j]; size_t p = l.find(": "); size_t z = p == std::string::npos ? 0 : strtoul(l.c_str() + p + 2, nullptr, 10); c.check(j < top.size() && z == top[j], "clusters:size", "cluster %zu has %zu vertices in '%s'", j, z, l.c_str()); } }
    if (ls[i].rfind("There are ", 0) == 0) { ++seen; c.check(strtoul(ls[i].c_str() + 10, nullptr, 10) == k, "components", "'%s', the graph has %zu", ls[i].c_str(), k); if (seen == each && gs.size() > 1) now(gs[1]); }
  }
  c.check(seen == each * gs.size(), "reports", "%zu reports for %zu runs", seen, each * gs.size()); c.count("partitions verified", seen);
  for (auto& x : fs) times_table(c, r, x, ids, th); if (log) log_rows(c, c.tmpdir + "/l.txt", head, "cc", stems, ids, th, n);
}
NWV_FAMILY(cc_driver, 60, 2000) { cc_case(c); }
NWV_FAMILY(cc_scale, 3, 40) { big = true; struct Done { ~Done() { big = false; } } done; cc_case(c); }
#elif NWV_DRIVER == 3
static void pr_case(Ctx& c) {
  G g = some_graph(c, c.rng.coin(0.2) ? 400 : 60, c.rng.coin(0.8) ? 10 : 1); std::string f = graph_file(c, g, false); if (c.rng.coin(0.2)) f = nw_file<>(c, f, false);
  auto ids = some(c, {1, 4, 8, 9, 10, 11, 14}), th = some_threads(c); size_t n = 1 + c.rng.below(2); std::vector<std::string> a{"-f", f, "-v", "-n", std::to_string(n), "-i", "500", "-t", "1e-6"};
  add_ids(a, ids); bool log = c.rng.coin(0.2), head = c.rng.coin(); if (log) { a.push_back("--log"); a.push_back(c.tmpdir + "/l.txt"); if (head) a.push_back("--log-header"); }
  std::vector<G> gs{g}; std::vector<std::string> fs{f}, stems{"g"}; if (c.rng.coin(0.25)) { gs.push_back(some_graph(c, 60)); fs.push_back(graph_file(c, gs[1], false, nullptr, "h.mtx")); stems.push_back("h"); a.insert(a.begin() + 2, {"-f", fs[1]}); }
  bool verbose = c.rng.coin(0.1); if (verbose) a.push_back("-V"); if (c.rng.coin(0.1)) a.push_back("-d"); add_threads(a, th); auto r = drive(c, a); std::vector<double> x, s;
  auto now = [&](const G& h) { g = h; x.assign(g.n, 1.0 / g.n); std::vector<double> y(g.n); std::vector<size_t> deg(g.n); for (auto& e : g.e) ++deg[e.first];
    for (int it = 0; it < (big ? 200 : 2000); ++it) { std::fill(y.begin(), y.end(), 0.15 / g.n); for (auto& [u, v] : g.e) y[v] += 0.85 * x[u] / deg[u]; std::swap(x, y); } s = x; std::sort(s.rbegin(), s.rend()); }; now(gs[0]);
  auto ls = lines(r.out); size_t seen = 0, each = ids.size() * th.size();
  for (size_t i = 0; i < ls.size(); ++i) if (ls[i] == "Verifying") {
    if (seen++ == each && gs.size() > 1) now(gs[1]); size_t m = std::min<size_t>(10, g.n); std::set<size_t> once;
    for (size_t j = 0; j < m; ++j) { if (i + 1 + j >= ls.size()) { c.fail("ranks:few", "fewer ranks than vertices"); break; } auto& l = ls[i + 1 + j]; char* e; size_t v = strtoul(l.c_str(), &e, 10); double rank = *e == ':' ? strtod(e + 1, nullptr) : -1;
      c.check(v < g.n && once.insert(v).second, "ranks:vertex", "'%s'", l.c_str()); if (v < g.n) c.check(std::abs(rank - x[v]) < 2e-4 + (big ? 0.03 * x[v] : 0), "ranks:value", "vertex %zu has rank %g, it is %g", v, rank, x[v]); c.check(std::abs(rank - s[j]) < 2e-4 + (big ? 0.03 * s[j] : 0), "ranks:order", "place %zu has rank %g, it is %g", j, rank, s[j]); }
  }
  c.check(seen == each * gs.size(), "reports", "%zu reports", seen); c.count("rankings verified", seen); for (auto& x : fs) times_table(c, r, x, ids, th); if (log) log_rows(c, c.tmpdir + "/l.txt", head, "pr", stems, ids, th, n);
}
NWV_FAMILY(pr_driver, 60, 2000) { pr_case(c); }
NWV_FAMILY(pr_scale, 3, 40) { big = true; struct Done { ~Done() { big = false; } } done; pr_case(c); }
#elif NWV_DRIVER == 4
static void sssp_case(Ctx& c) {
  G g = some_graph(c, c.rng.coin(0.2) ? 400 : 60); std::vector<int> w(g.e.size()); int hi = c.rng.of({1, 3, 20, 1000, 100000}); for (auto& x : w) x = 1 + (int)c.rng.below(hi); bool sym = c.rng.coin(0.3);
  std::string f = graph_file(c, g, sym, &w); if (c.rng.coin(0.2)) f = nw_file<int>(c, f, false);
  auto ids = some(c, {0, 1, 8, 9, 10, 11, 12, 13}), th = some_threads(c); size_t n = 1 + c.rng.below(3), it = 1 + c.rng.below(3); std::vector<std::string> a{"-f", f, "-v", "-V", "-d", std::to_string(1 + c.rng.below(hi > 1000 ? 50000 : hi + 3))};
  add_ids(a, ids); std::vector<V> src; int how = (int)c.rng.below(3);
  if (how == 0) { a.push_back("-r"); src.assign(n * it, (V)c.rng.below(g.n)); a.push_back(std::to_string(src[0])); }
  else if (how == 1) { for (size_t i = 0; i < n * it; ++i) src.push_back((V)c.rng.below(g.n)); a.push_back("-s"); a.push_back(sources_file(c, src)); }
  else { a.push_back("--seed"); a.push_back(std::to_string(1 + c.rng.below(1000))); }
  a.push_back("-n"); a.push_back(std::to_string(n)); a.push_back("-i"); a.push_back(std::to_string(it));
  bool log = c.rng.coin(0.2), head = c.rng.coin(); if (log) { a.push_back("--log"); a.push_back(c.tmpdir + "/l.txt"); if (head) a.push_back("--log-header"); }
  add_threads(a, th); auto r = drive(c, a);
  c.check(r.err.find("verification failed") == std::string::npos, "verification", "%s %s", tail(r.out).c_str(), tail(r.err).c_str()); c.check(r.err.find("Invalid") == std::string::npos, "version", "%s", r.err.c_str());
  size_t k = 0; for (auto& l : lines(r.out)) { size_t p = l.find(" source: "); if (l.rfind("iteration: ", 0) != 0 || p == std::string::npos) continue; size_t s = strtoul(l.c_str() + p + 9, nullptr, 10); c.check(s < g.n, "source:range", "source %zu of %zu vertices", s, g.n); if (how != 2) c.check(s == src[k % src.size()], "source", "run %zu starts from %zu instead of %zu", k, s, (size_t)src[k % src.size()]); ++k; }
  c.check(k == n * it * ids.size() * th.size(), "runs", "%zu runs instead of %zu", k, n * it * ids.size() * th.size()); c.count("distance vectors verified", k); times_table(c, r, f, ids, th); if (log) log_rows(c, c.tmpdir + "/l.txt", head, "sssp", {"g"}, ids, th, n);
}
NWV_FAMILY(sssp_driver, 60, 2000) { sssp_case(c); }
NWV_FAMILY(sssp_scale, 3, 40) { big = true; struct Done { ~Done() { big = false; } } done; sssp_case(c); }
#elif NWV_DRIVER == 5
static void bc_case(Ctx& c) {
  G g = some_graph(c, 30); bool sym = c.rng.coin(0.3); std::string f = graph_file(c, g, sym); if (c.rng.coin(0.2)) f = nw_file<>(c, f, false);
  auto th = some_threads(c); size_t n = 1 + c.rng.below(3), it = 1 + c.rng.below(4); std::vector<std::string> a{"-f", f, "-v", "-n", std::to_string(n), "-i", std::to_string(it)}; int how = (int)c.rng.below(3); std::vector<V> src;
  if (how == 0) src.assign(n * it, (V)c.rng.below(g.n)); if (how == 1) for (size_t i = 0; i < n * it; ++i) src.push_back((V)c.rng.below(g.n));
  bool scores = !src.empty();    // the older versions divide by the largest score, which must not be 0
  { auto in = sym ? und_adj(g) : in_adj(g); for (size_t t = 0; t < n && scores; ++t) { bool far = false; for (size_t i = 0; i < it && !far; ++i) { auto l = nwv::bfs_levels(in, src[t * it + i]); for (auto x : l) far = far || x == 2; } scores = far; } }
  auto ids = scores ? some(c, {0, 4, 5}) : std::vector<int>{5}; add_ids(a, ids);
  if (how == 0) { a.push_back("-r"); a.push_back(std::to_string(src[0])); } else if (how == 1) { a.push_back("-s"); a.push_back(sources_file(c, src)); } else { a.push_back("--seed"); a.push_back(std::to_string(1 + c.rng.below(1000))); }
  bool log = c.rng.coin(0.2), head = c.rng.coin(); if (log) { a.push_back("--log"); a.push_back(c.tmpdir + "/l.txt"); if (head) a.push_back("--log-header"); }
  add_threads(a, th); auto r = drive(c, a);
  for (auto& l : lines(r.out)) { size_t p = l.find(" != "); if (p == std::string::npos) continue; size_t q = l.find(' ', p + 4); double d = q == std::string::npos ? 1 : strtod(l.c_str() + q, nullptr); c.check(std::abs(d) < 1e-3, "verification", "%s", l.c_str()); }
  c.check(r.err.find("Invalid") == std::string::npos, "version", "%s", r.err.c_str()); c.count("score vectors verified", n * ids.size() * th.size()); times_table(c, r, f, ids, th); if (log) log_rows(c, c.tmpdir + "/l.txt", head, "bc", {"g"}, ids, th, n);
}
NWV_FAMILY(bc_driver, 60, 2000) { bc_case(c); }
NWV_FAMILY(bc_scale, 3, 40) { big = true; struct Done { ~Done() { big = false; } } done; bc_case(c); }
#elif NWV_DRIVER == 6
static void tc_case(Ctx& c) {
  GenOpt o; o.max_n = c.rng.coin(0.2) ? 300 : 60; o.dups = c.rng.coin(); o.loops = c.rng.coin(); auto make = [&] { G g; do g = big ? nwv::scale_graph(c.rng, false, false, false) : c.rng.coin(0.2) ? nwv::clique_graph(c.rng, 5 + c.rng.below(40)) : random_graph(c.rng, o); while (g.e.empty() || g.n < 8); c.describe(g.str()); return g; }; G g = make(); uint64_t want = nwv::triangles(g); c.interesting(want > 0);
  std::string f = graph_file(c, g, c.rng.coin(0.7)); if (c.rng.coin(0.2)) f = nw_file<>(c, f, true);
  auto ids = some(c, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}), th = some_threads(c); size_t n = 1 + c.rng.below(2); std::vector<std::string> a{"-f", f, "-v", "-n", std::to_string(n)};
  std::string form = c.rng.of({"CSR", "CSR", "VOV", "VOL"}); a.push_back("--format"); a.push_back(form); bool lower = c.rng.coin(0.3);    // some versions are documented for upper triangles only
  if (form != "CSR") ids = lower ? some(c, {0, 2, 3, 6}) : some(c, {0, 1, 2, 3, 4, 5, 6}); else if (lower) ids = some(c, {0, 2, 3, 6, 10, 11, 13, 14}); add_ids(a, ids);
  if (big || c.rng.coin(0.6)) { a.push_back("--relabel"); if (!big && c.rng.coin(0.3)) a.push_back("--heuristic"); } if (lower) a.push_back("--lower"); else if (c.rng.coin(0.3)) a.push_back("--upper");
  bool out = c.rng.coin(0.2); a.push_back("--log"); a.push_back(out ? "-" : c.tmpdir + "/l.json");
  std::vector<std::string> fs{f}; std::vector<uint64_t> counts{want}; if (c.rng.coin(0.25)) { G h = make(); counts.push_back(nwv::triangles(h)); fs.push_back(graph_file(c, h, true, nullptr, "h.mtx")); a.insert(a.begin() + 2, {"-f", fs[1]}); }
  if (c.rng.coin(0.1)) a.push_back("-d"); if (c.rng.coin(0.1)) a.push_back("-V"); add_threads(a, th); auto r = drive(c, a);
  c.check(r.err.find("Inconsistent") == std::string::npos && r.err.find("Unknown") == std::string::npos, "verification", "%s", tail(r.err).c_str());
  size_t p = 0; for (auto w : counts) { p = r.out.find("verifier reports ", p); c.check(p != std::string::npos && strtoull(r.out.c_str() + p + 17, nullptr, 10) == w, "verifier", "%s; the graph has %zu triangles", tail(r.out.substr(0, 400)).c_str(), (size_t)w); if (p != std::string::npos) p += 10; }
  std::string t; if (out) { for (auto& l : lines(r.out)) if (l.rfind("{", 0) == 0) t = l; } else t = nwv::get_file(c.tmpdir + "/l.json");
  auto j = nlohmann::json::parse(t, nullptr, false); if (j.is_discarded()) c.die("log:json", t.substr(0, 300)); std::map<std::pair<int, int>, size_t> got, asked; for (int i : ids) for (int k : th) asked[{i, k}] = n * fs.size();
  std::string h = j["Config"]["Host"]; c.check(host.size() > 15 || h == host, "log:host", "%s on %s", h.c_str(), host.c_str());
  c.check(j["Files"].size() == fs.size(), "log:files", "%zu files", j["Files"].size()); size_t at = 0;
  for (auto& file : j["Files"]) { std::string nm = file["File"]; want = at < fs.size() ? counts[at] : 0; c.check(at < fs.size() && nm == fs[at], "log:file", "%s", nm.c_str()); ++at; for (auto& tr : file["Runs"]) for (auto& id : tr["runs"]) for (auto& run : id["runs"]) {
    size_t k = run["triangles"]; ++got[{(int)run["id"], (int)run["num_threads"]}];
    c.check(k == want, "triangles", "version %d on %d threads reports %zu triangles, the graph has %zu", (int)run["id"], (int)run["num_threads"], k, (size_t)want); c.check((double)run["elapsed"] >= 0 && (double)run["elapsed+relabel"] >= (double)run["elapsed"], "log:time", "negative");
  } }
  c.check(got == asked, "log:runs", "%zu kinds of runs instead of %zu", got.size(), asked.size()); c.count("triangle counts checked", n * ids.size() * th.size());
}
NWV_FAMILY(tc_driver, 60, 2000) { tc_case(c); }
NWV_FAMILY(tc_scale, 3, 40) { big = true; struct Done { ~Done() { big = false; } } done; tc_case(c); }
#elif NWV_DRIVER == 7
NWV_FAMILY(sources_driver, 150, 4000) {    // the sources of the GAP benchmark: a generator seeded alike, vertices without edges skipped
  G g = some_graph(c, c.rng.coin(0.2) ? 2000 : 60); std::string f = graph_file(c, g, false); if (c.rng.coin(0.2)) f = nw_file<>(c, f, false);
  std::vector<size_t> deg(g.n); for (auto& e : g.e) ++deg[e.first]; size_t n = 1 + c.rng.below(8), it = 1 + c.rng.below(8); long seed = (long)(1 + c.rng.below(1u << 30));
  std::mt19937 gen(seed); std::uniform_int_distribution<V> dis(0, (V)g.n - 1); std::vector<V> s(n * it); for (auto& v : s) do v = dis(gen); while (deg[v] == 0);
  size_t wrong = 0; bool some_wrong = c.rng.coin(), count = c.rng.coin(0.1); for (auto& v : s) if (some_wrong && c.rng.coin(0.3)) { V x = (V)c.rng.below(g.n); wrong += x != v; v = x; } if (count) s.push_back(0);
  auto r = drive(c, {"-f", f, "-s", sources_file(c, s), "-i", std::to_string(it), "-n", std::to_string(n), "--seed", std::to_string(seed)});
  if (count) { c.check(r.err.find("but expected") != std::string::npos && r.out.find("failures") == std::string::npos, "count", "a list of the wrong length is accepted"); return; }
  bool found = false; for (auto& l : lines(r.out)) if (l.find(" failures") != std::string::npos) { found = true; c.check(strtoul(l.c_str(), nullptr, 10) == wrong, "failures", "'%s', %zu sources are wrong", l.c_str(), wrong); }
  c.check(found, "report", "%s", tail(r.out).c_str()); c.count("sources checked", s.size());
}
#elif NWV_DRIVER == 8
NWV_FAMILY(process_driver, 150, 4000) {
  nwv::MMOpt o; o.square = true; auto m = nwv::random_mm(c.rng, o); if (m.n0 > 5000 || m.big || m.field == "real") return; c.input(nwv::hash_str(m.text)); c.interesting(m.entries.size() > 1);
  std::string f = nwv::put_file(c.tmpdir, m.text); bool d = c.rng.coin(0.7), u = !d || c.rng.coin(); std::vector<std::string> a; std::string pd = c.tmpdir + "/d.nw", pu = c.tmpdir + "/u.nw";
  if (d) { a.push_back("-d"); a.push_back(pd); } if (u) { a.push_back("-u"); a.push_back(pu); } a.push_back(f); auto r = drive(c, a);
  auto go = [&]<nwg::directedness D>(std::integral_constant<nwg::directedness, D>, const std::string& p) {
    std::vector<nwv::Tup<int>> want; for (size_t i = 0; i < m.entries.size(); ++i) { auto [x, y, v] = m.entries[i]; int w = m.pattern() ? 1 : (int)v; want.push_back({x, y, w}); if (D == nwg::directedness::directed && m.symmetric() && x != y) want.push_back({y, x, w}); }
    std::ostringstream q; auto* b = std::cout.rdbuf(q.rdbuf()); auto el = nb::load_graph<D, int>(p); std::cout.rdbuf(b);
    auto e = nwv::differ(nwv::content(el), want); if (!e.empty()) c.fail("edges", e); c.check(nwg::num_vertices(el) == m.n0, "vertices", "%zu vertices, the file has %zu", (size_t)nwg::num_vertices(el), m.n0); c.count("edges checked", want.size());
  };
  if (d) go(std::integral_constant<nwg::directedness, nwg::directedness::directed>{}, pd); if (u) go(std::integral_constant<nwg::directedness, nwg::directedness::undirected>{}, pu);
}
#endif
NWV_MAIN
