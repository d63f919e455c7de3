// P26: the memory-mapped Matrix Market reader partitions the file exactly. Oracle: the entries the text was generated from.
#include <nwv/mm.hpp>
#include <nwv/gen.hpp>
#include <nwgraph/io/MatrixMarketFile.hpp>
#include <thread>
using namespace nwv;
struct File { MM f; std::string path; };
static File make(Ctx& c, size_t max_m, size_t min_m = 1) {
  MMOpt o; o.blanks = false; o.max_m = max_m; o.min_m = min_m; File r; r.f = random_mm(c.rng, o); auto& t = r.f.text;
  if (c.rng.coin(0.15)) { size_t nl = t.find('\n'); t.insert(nl + 1, c.rng.coin() ? "\n" : "%c\n\n \n"); }    // blank lines before the sizes
  if (r.f.trailing && c.rng.coin(0.1)) t += c.rng.coin() ? "\n\n" : "  \n";
  if (c.rng.coin(0.15) && r.f.entries.size()) { size_t page = 4096, pad = (page - t.size() % page) % page; if (pad) { size_t nl = t.find('\n'); std::string cm; while (pad > 600) { cm += "%" + std::string(298, 'p') + "\n"; pad -= 300; } if (pad > 300) { cm += "%" + std::string(pad - 300 + 200 - 2, 'q') + "\n"; pad = pad - (pad - 300 + 200); } if (pad >= 2) cm += "%" + std::string(pad - 2, 'r') + "\n"; else t.insert(nl, pad, ' '); t.insert(nl + 1, cm); c.count("files that fill their last page", t.size() % page == 0); } }
  r.path = put_file(c.tmpdir, t); c.input(hash_str(t)); c.interesting(r.f.entries.size() > 1); c.describe(fmt("%s %s %zux%zu %zu entries, %zu bytes%s", r.f.field.c_str(), r.f.symmetry.c_str(), r.f.n0, r.f.n1, r.f.entries.size(), t.size(), r.f.trailing ? "" : ", no final newline") + (t.size() < 200 ? " [" + t + "]" : "")); return r;
}
template <class It, class End> static std::vector<std::tuple<int, int, double>> take(It i, End e, size_t max) { std::vector<std::tuple<int, int, double>> v; for (; i != e; ++i) { auto t = *i; if constexpr (std::tuple_size_v<decltype(t)> == 3) v.push_back({std::get<0>(t), std::get<1>(t), (double)std::get<2>(t)}); else v.push_back({std::get<0>(t), std::get<1>(t), 1}); if (v.size() > max) break; } return v; }
static void same(Ctx& c, const std::string& k, const std::vector<std::tuple<int, int, double>>& got, const MM& f, size_t from, size_t to, bool values) {
  if (got.size() != to - from) c.die(k, fmt("%zu entries instead of %zu", got.size(), to - from));
  for (size_t i = 0; i < got.size(); ++i) { auto [a, b, x] = got[i]; auto [u, v, w] = f.entries[from + i]; if ((V)a != u || (V)b != v || (values && x != w)) c.die(k, fmt("entry %zu is (%d %d %.17g) instead of (%u %u %.17g)", from + i, a, b, x, u, v, w)); }
}
NWV_FAMILY(whole, 600, 20000) {
  auto [f, path] = make(c, c.thorough ? 400 : 150); mmio::MatrixMarketFile m(path); size_t n = f.entries.size();
  c.check((size_t)m.getNRows() == f.n0 && (size_t)m.getNCols() == f.n1 && (size_t)m.getNEdges() == n, "dimensions", "%dx%d %d", m.getNRows(), m.getNCols(), m.getNEdges()); c.check(m.isPattern() == f.pattern(), "isPattern", ""); c.check(m.isSymmetric() == f.symmetric(), "isSymmetric", "");
  same(c, "begin..end", take(m.begin(), m.end(), n), f, 0, n, false); if (!f.pattern()) { same(c, "begin..end<double>", take(m.begin<double>(), m.end<double>(), n), f, 0, n, true); if (f.field == "integer" && !f.big) same(c, "begin..end<int>", take(m.begin<int>(), m.end<int>(), n), f, 0, n, true); }
  { std::vector<std::tuple<int, int, double>> v; for (auto [a, b] : mmio::edges(m, 0, (int)n)) { v.push_back({a, b, 1}); if (v.size() > n) break; } same(c, "edges", v, f, 0, n, false); }
  release(m); c.count("entries read", n); m.release();
}
// consecutive ranges read everything once, in order, however the file is cut and whoever reads the pieces
static void partition(Ctx& c, size_t max_m, size_t min_m) {
  auto [f, path] = make(c, max_m, min_m); mmio::MatrixMarketFile m(path); size_t n = f.entries.size(); bool val = !f.pattern(); std::vector<int> cut{0}; int how = (int)c.rng.below(4); size_t parts = how == 3 && n < 1000 ? n : 1 + c.rng.below(12);
  for (size_t p = 1; p < parts; ++p) cut.push_back((int)(how == 0 ? n * p / parts : how == 3 ? p : c.rng.below(n + 1))); cut.push_back((int)n); std::sort(cut.begin(), cut.end()); c.describe(fmt("%zu ranges", cut.size() - 1));
  std::vector<std::vector<std::tuple<int, int, double>>> pieces(cut.size() - 1); auto read = [&](size_t p) { if (val) { auto r = mmio::edges<double>(m, cut[p], cut[p + 1]); pieces[p] = take(r.begin(), r.end(), n); } else { auto r = mmio::edges(m, cut[p], cut[p + 1]); pieces[p] = take(r.begin(), r.end(), n); } };
  if (c.rng.coin(0.3)) { std::vector<std::thread> ts; for (size_t p = 0; p < pieces.size() && p < 8; ++p) ts.emplace_back([&, p] { for (size_t q = p; q < pieces.size(); q += 8) read(q); }); for (auto& t : ts) t.join(); c.count("files read by several threads"); } else for (size_t p = 0; p < pieces.size(); ++p) read(p);
  std::vector<std::tuple<int, int, double>> all; size_t empty = 0; for (auto& p : pieces) { empty += p.empty(); all.insert(all.end(), p.begin(), p.end()); } same(c, "partition", all, f, 0, n, val); c.count("ranges read", pieces.size()); c.count("empty ranges", empty);
}
NWV_FAMILY(partition, 600, 20000) { partition(c, c.thorough ? 600 : 200, 1); }
NWV_FAMILY(partition_scale, 3, 40) { partition(c, 90000, 66000); }
// positions move forward with the entry asked for and are always the start of a line
NWV_FAMILY(positions, 400, 12000) {
  auto [f, path] = make(c, 100); mmio::MatrixMarketFile m(path); size_t n = f.entries.size(), last = 0; bool val = !f.pattern();
  for (size_t i = 0; i <= n; ++i) { std::vector<std::tuple<int, int, double>> rest = val ? take(m.at<double>((long)i), m.end<double>(), n) : take(m.at((long)i), m.end(), n); if (rest.size() > n) c.die("at", "does not reach the end"); size_t k = n - rest.size(); same(c, "at", rest, f, k, n, val); if (k < last) c.die("at", fmt("at(%zu) is before at(%zu)", i, i - 1)); last = k; if (i == 0 && k != 0) c.die("at", "at(0) is not the first entry"); c.count("positions checked"); }
  c.check(last == n, "at", "at(entries) is not the end");
}
// entries of several values
NWV_FAMILY(values, 200, 4000) {
  size_t n = c.rng.below(40); std::string t = "%%MatrixMarket matrix coordinate complex general\n" + fmt("50 50 %zu\n", n); std::vector<std::tuple<int, int, double, double>> want; for (size_t i = 0; i < n; ++i) { want.push_back({(int)c.rng.below(50), (int)c.rng.below(50), (double)c.rng.below(1000) / 8, (double)c.rng.below(1000)}); auto& [a, b, x, y] = want.back(); t += fmt("%d %d %g %g\n", a + 1, b + 1, x, y); }
  c.input(hash_str(t)); c.interesting(n > 1); c.describe(fmt("complex, %zu entries", n)); mmio::MatrixMarketFile m(put_file(c.tmpdir, t)); std::vector<std::tuple<int, int, double, double>> got, got2; for (auto&& e : mmio::edges<double, double>(m, 0, (int)n)) { got.push_back(e); if (got.size() > n) break; } c.check(got == want, "two values", "differ"); for (auto&& [a, b, x, y] : mmio::edges<double, int>(m, 0, (int)n)) { got2.push_back({a, b, x, y}); if (got2.size() > n) break; } c.check(got2 == want, "double and int", "differ"); c.count("entries of two values", n);
}
NWV_MAIN
