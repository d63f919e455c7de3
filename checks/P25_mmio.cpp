// P25: Matrix Market files are read and written faithfully. Oracle: the entries the text was generated from / an independent parser of the text written.
#include <nwv/edges.hpp>
#include <nwv/mm.hpp>
#include <nwgraph/io/mmio.hpp>
#include <charconv>
using namespace nwv;
using nwg::directedness;
using std::size_t;
template <class T> static T val(const MM& f, size_t i) { if (f.pattern()) return T(1); return std::is_floating_point_v<T> ? (T)strtod(f.values[i].c_str(), nullptr) : (T)strtoll(f.values[i].c_str(), nullptr, 10); }
template <bool directed, class... A> static std::vector<Tup<A...>> expected(const MM& f) {
  std::vector<Tup<A...>> v;
  for (size_t i = 0; i < f.entries.size(); ++i) { auto [a, b, x] = f.entries[i]; v.push_back(Tup<A...>{a, b, val<A>(f, i)...}); if (directed && f.symmetric() && a != b) v.push_back(Tup<A...>{b, a, val<A>(f, i)...}); }
  return v;
}
// float values are read by rounding the decimal text; allow for the text having been read as a double first
template <class... A> static void read_as(Ctx& c, const MM& f, const std::string& nm) {
  auto go = [&]<directedness D>(std::integral_constant<directedness, D>) {
    std::string k = nm + (D == directedness::directed ? ":directed" : ":undirected");
    nwg::edge_list<D, A...> el; bool file = c.rng.coin();
    try { if (file) el = nwg::read_mm<D, A...>(put_file(c.tmpdir, f.text)); else { std::istringstream s(f.text); el = nwg::read_mm<D, A...>(s); } } catch (const std::exception& e) { c.die(k, std::string("a well-formed file is refused: ") + e.what()); }
    auto got = content(el); auto want = expected<D == directedness::directed, A...>(f);
    if constexpr (D == directedness::undirected) { /* each entry is one edge, as written */ }
    if (got.size() != want.size()) c.die(k, fmt("%zu edges instead of %zu", got.size(), want.size()));
    for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) { std::string d = differ(got, want); if (!d.empty()) c.die(k, d); break; }
    c.check(nwg::num_vertices(el) == f.n0 || f.n0 < f.n1, k.c_str(), "%zu vertices, %zu declared", (size_t)nwg::num_vertices(el), f.n0); c.count("entries read", got.size());
    if (f.n0 < 5000) {    // the declared vertices are there when the graph is built
      nwg::adjacency<0, A...> a(el); size_t n = f.n0; if (f.n1 > n) for (auto& [x, y, z] : f.entries) n = std::max<size_t>(n, y + 1); c.check(a.size() == n, k.c_str(), "%zu rows for %zu declared vertices", (size_t)a.size(), n);
      auto both = want; if (D == directedness::undirected) for (auto& t : want) both.push_back(swapped(t)); auto d = differ(csr_content<Tup<A...>>(a), both); if (!d.empty()) c.die(k + ":adjacency", d);
    }
  };
  go(std::integral_constant<directedness, directedness::directed>{}); go(std::integral_constant<directedness, directedness::undirected>{});
}
static void note(Ctx& c, const MM& f) { c.input(hash_str(f.text)); c.interesting(f.entries.size() > 1); c.describe(fmt("%s %s %zux%zu %zu entries", f.field.c_str(), f.symmetry.c_str(), f.n0, f.n1, f.entries.size()) + (f.text.size() < 300 ? " [" + f.text + "]" : "")); }
NWV_FAMILY(read, 700, 25000) {
  MMOpt o; o.square = c.rng.coin(0.8); o.huge = true; if (c.thorough) o.max_m = 400; MM f = random_mm(c.rng, o); note(c, f);
  read_as<>(c, f, "none"); if (f.field != "real") { if (!f.big) read_as<int>(c, f, "int"); read_as<long>(c, f, "long"); } read_as<double>(c, f, "double"); if (f.field != "real" && !f.big) read_as<float>(c, f, "float");
  auto p = put_file(c.tmpdir, f.text, "s.mtx"); c.check(nwg::is_mm(p), "is_mm", "says no"); c.check(nwg::get_mm_symmetry(p) == (f.symmetric() ? directedness::undirected : directedness::directed), "get_mm_symmetry", "wrong");
}
// more entries and larger indices than 16 bits count
NWV_FAMILY(read_scale, 2, 20) {
  MMOpt o; o.square = true; o.min_m = 66000; o.max_m = 90000; o.max_n = 200000; MM f = random_mm(c.rng, o); note(c, f); if (f.field == "pattern") read_as<>(c, f, "none"); else if (f.field == "integer") read_as<long>(c, f, "long"); else read_as<double>(c, f, "double");
}
// bipartite: rows and columns are two kinds of vertices
NWV_FAMILY(read_bipartite, 300, 8000) {
  MMOpt o; o.bipartite = true; o.blanks = false; MM f = random_mm(c.rng, o); note(c, f);
  auto body = [&] { std::istringstream* s = new std::istringstream(f.text); std::string l; std::getline(*s, l); while (std::getline(*s, l) && (l[0] == '%')) {} return std::unique_ptr<std::istringstream>(s); };
  { nwg::bi_edge_list<directedness::directed> el(f.n0, f.n1); auto s = body(); nwg::mm_fill(*s, el, f.entries.size(), false, f.pattern()); auto d = differ(content(el), expected<true>(f)); if (!d.empty()) c.die("bi", d); c.check(nwg::num_vertices(el, 0) == f.n0 && nwg::num_vertices(el, 1) == f.n1, "bi", "dimensions"); }
  { nwg::bi_edge_list<directedness::directed, double> el(f.n0, f.n1); auto s = body(); nwg::mm_fill(*s, el, f.entries.size(), false, f.pattern()); auto d = differ(content(el), expected<true, double>(f)); if (!d.empty()) c.die("bi double", d); c.count("bipartite entries read", f.entries.size()); }
}
// what another program would make of a written file
struct Parsed { size_t n0, n1; std::string field, symmetry; std::vector<std::tuple<V, V, std::string>> e; };
static Parsed parse(Ctx& c, const std::string& k, const std::string& text) {
  Parsed p; std::istringstream in(text); std::string w[5], l; std::getline(in, l); { std::istringstream h(l); for (auto& x : w) h >> x; } if (w[0] != "%%MatrixMarket" || w[1] != "matrix" || w[2] != "coordinate") c.die(k, "banner: " + l);
  p.field = w[3]; p.symmetry = w[4]; while (std::getline(in, l) && !l.empty() && l[0] == '%') {} size_t m = 0; { std::istringstream h(l); if (!(h >> p.n0 >> p.n1 >> m)) c.die(k, "size line: " + l); }
  while (std::getline(in, l)) { std::istringstream h(l); long a, b; std::string v; if (!(h >> a >> b) || a < 1 || b < 1 || (size_t)a > p.n0 || (size_t)b > p.n1) c.die(k, "entry line: " + l); h >> v; if ((p.field == "pattern") != v.empty()) c.die(k, "a " + p.field + " entry: " + l); p.e.push_back({(V)a - 1, (V)b - 1, v}); }
  if (p.e.size() != m) c.die(k, fmt("declares %zu entries, has %zu", m, p.e.size())); c.count("written entries parsed", m); return p;
}
template <class A> static std::vector<Tup<A>> values(const Parsed& p) { std::vector<Tup<A>> v; for (auto& [a, b, s] : p.e) { A x; if constexpr (std::is_floating_point_v<A>) x = (A)strtod(s.c_str(), nullptr); else x = (A)strtoll(s.c_str(), nullptr, 10); v.push_back({a, b, x}); } return v; }
static std::vector<Tup<>> bare(const Parsed& p) { std::vector<Tup<>> v; for (auto& [a, b, s] : p.e) v.push_back({a, b}); return v; }
static G pick(Ctx& c) { GenOpt o; o.max_n = c.thorough ? 120 : 50; o.loops = c.rng.coin(); o.dups = c.rng.coin(); G g = random_graph(c.rng, o); if (c.rng.coin(0.2)) g.n += c.rng.below(50); c.input(g.digest()); c.interesting(g.e.size() > 1); c.describe(g.str()); return g; }
// awkward weights, identified by edge
static double weight(Ctx& c) { return c.rng.coin(0.3) ? c.rng.unit() : c.rng.coin(0.3) ? (double)c.rng.below(1ull << 40) + c.rng.unit() : c.rng.coin(0.3) ? std::ldexp(c.rng.unit(), (int)c.rng.below(400) - 200) : (double)c.rng.below(100); }
NWV_FAMILY(write_edge_list, 500, 12000) {
  G g = pick(c); std::vector<Tup<int, double>> all; for (auto& [a, b] : g.e) all.push_back({a, b, (int)c.rng.below(100000) - 50000, weight(c)}); auto path = c.tmpdir + "/w.mtx";
  auto go = [&]<directedness D>(std::integral_constant<directedness, D>) {
    nwg::edge_list<D, int, double> el(g.n); push_all(el, all); bool sym = D == directedness::undirected && c.rng.coin(); std::string k = D == directedness::directed ? "directed" : sym ? "symmetric" : "undirected"; std::string s = sym ? "symmetric" : "general";
    std::vector<Tup<>> w0; std::vector<Tup<int>> w2; std::vector<Tup<double>> w3; for (auto& [a, b, x, y] : all) { w0.push_back({a, b}); w2.push_back({a, b, x}); w3.push_back({a, b, y}); if (D == directedness::undirected && !sym) { w0.push_back({b, a}); w2.push_back({b, a, x}); w3.push_back({b, a, y}); } }
    auto dims = [&](const Parsed& p) { if (p.n0 != g.n || p.n1 != g.n) c.die(k, fmt("%zux%zu for %zu vertices", p.n0, p.n1, g.n)); if (p.symmetry != s) c.die(k, "symmetry " + p.symmetry); };
    nwg::write_mm(path, el, s); auto p = parse(c, k, get_file(path)); dims(p); if (p.field != "pattern") c.die(k, "field " + p.field); if (auto d = differ(bare(p), w0); !d.empty()) c.die(k, d);
    if (c.rng.coin()) { auto r = nwg::read_mm<D>(path); auto d = differ(content(r), D == directedness::undirected && !sym ? w0 : w0); if (!d.empty()) c.die(k + ":reread", d); c.check(nwg::num_vertices(r) == g.n, k.c_str(), "vertices after rereading"); }
    nwg::write_mm<2, int>(path, el, s); p = parse(c, k + ":int", get_file(path)); dims(p); if (p.field != "integer") c.die(k, "field " + p.field); if (auto d = differ(values<int>(p), w2); !d.empty()) c.die(k + ":int", d);
    { auto r = nwg::read_mm<D, int>(path); auto d = differ(content(r), w2); if (!d.empty()) c.die(k + ":int:reread", d); }
    nwg::write_mm<3, double>(path, el, s); p = parse(c, k + ":real", get_file(path)); dims(p); if (p.field != "real") c.die(k, "field " + p.field); if (auto d = differ(values<double>(p), w3); !d.empty()) c.die(k + ":real", d);
    { auto r = nwg::read_mm<D, double>(path); auto d = differ(content(r), w3); if (!d.empty()) c.die(k + ":real:reread", d); }
    if (auto d = differ(content(el), all); !d.empty()) c.die(k + ":original", d);
  };
  go(std::integral_constant<directedness, directedness::directed>{}); go(std::integral_constant<directedness, directedness::undirected>{});
}
NWV_FAMILY(write_adjacency, 500, 12000) {
  G g = pick(c); std::vector<Tup<int, double>> all; for (auto& [a, b] : g.e) all.push_back({a, b, (int)c.rng.below(100000) - 50000, weight(c)}); auto path = c.tmpdir + "/w.mtx"; std::vector<Tup<>> w0; std::vector<Tup<int>> w1; std::vector<Tup<double>> w2; for (auto& [a, b, x, y] : all) { w0.push_back({a, b}); w1.push_back({a, b, x}); w2.push_back({a, b, y}); }
  auto go = [&]<int idx>(std::integral_constant<int, idx>) {
    std::string k = fmt("adjacency<%d>", idx); nwg::edge_list<directedness::directed, int, double> el(g.n); push_all(el, all); nwg::adjacency<idx, int, double> a(el, c.rng.coin());
    auto dims = [&](const Parsed& p) { if (p.n0 != g.n || p.n1 != g.n) c.die(k, fmt("%zux%zu for %zu vertices", p.n0, p.n1, g.n)); if (p.symmetry != "general") c.die(k, "symmetry " + p.symmetry); };
    nwg::write_mm(path, a); auto p = parse(c, k, get_file(path)); dims(p); if (auto d = differ(bare(p), w0); !d.empty()) c.die(k, d);
    nwg::write_mm<1, int>(path, a); p = parse(c, k + ":int", get_file(path)); dims(p); if (p.field != "integer") c.die(k, "field"); if (auto d = differ(values<int>(p), w1); !d.empty()) c.die(k + ":int", d);
    nwg::write_mm<2, double>(path, a); p = parse(c, k + ":real", get_file(path)); dims(p); if (p.field != "real") c.die(k, "field"); if (auto d = differ(values<double>(p), w2); !d.empty()) c.die(k + ":real", d);
    auto r = nwg::read_mm<directedness::directed, double>(path); if (auto d = differ(content(r), w2); !d.empty()) c.die(k + ":reread", d);
  };
  go(std::integral_constant<int, 0>{}); go(std::integral_constant<int, 1>{});
}
NWV_FAMILY(write_biadjacency, 400, 10000) {
  size_t nl = c.rng.logsize(1, 40), nr = c.rng.logsize(1, 40); std::vector<Tup<double>> all; for (size_t i = 0, m = c.rng.below(100); i < m; ++i) all.push_back({(V)c.rng.below(nl), (V)c.rng.below(nr), weight(c)}); std::string ds = fmt("%zu x %zu:", nl, nr); for (auto& t : all) ds += show(t); c.describe(ds); c.interesting(all.size() > 1); auto path = c.tmpdir + "/w.mtx";
  auto go = [&]<int idx>(std::integral_constant<int, idx>) {
    std::string k = fmt("biadjacency<%d>", idx); nwg::bi_edge_list<directedness::directed, double> el(nl, nr); push_all(el, all); nwg::biadjacency<idx, double> a(el); nwg::write_mm<1, double>(path, a); auto p = parse(c, k, get_file(path));
    if (p.n0 != nl || p.n1 != nr) c.die(k, fmt("%zux%zu for %zu left and %zu right vertices", p.n0, p.n1, nl, nr)); if (auto d = differ(values<double>(p), all); !d.empty()) c.die(k, d);
  };
  go(std::integral_constant<int, 0>{}); go(std::integral_constant<int, 1>{});
}
// vectors of one-based indices
NWV_FAMILY(vectors, 200, 4000) {
  size_t n = c.rng.below(60); std::vector<V> v; std::string t = fmt("%%%%MatrixMarket matrix array %s general\n", c.rng.coin() ? "integer" : "real"); if (c.rng.coin()) t += "% comment\n"; t += std::to_string(n) + " 1\n"; for (size_t i = 0; i < n; ++i) { v.push_back((V)c.rng.below(1u << 31)); t += std::to_string((uint64_t)v.back() + 1) + "\n"; }
  c.describe(fmt("%zu values %llu", n, (unsigned long long)hash_str(t))); c.interesting(n > 1); std::vector<V> got; if (c.rng.coin()) { std::istringstream s(t); got = nwg::read_mm_vector<V>(s); } else got = nwg::read_mm_vector<V>(put_file(c.tmpdir, t)); c.check(got == v, "vector", "differs"); c.count("vector values read", n);
}
// what cannot be read is refused
NWV_FAMILY(refuse, 600, 15000) {
  MMOpt o; o.square = true; MM f = random_mm(c.rng, o); if (f.entries.empty()) return; std::string t = f.text, why; auto line = [&](size_t k) { size_t at = 0; while (k--) at = t.find('\n', at) + 1; return at; };
  auto sub = [&](const std::string& a, const std::string& b) { t.replace(t.find(a), a.size(), b); }; std::vector<std::string> ls; { std::istringstream s(t); std::string l; while (std::getline(s, l)) ls.push_back(l); } (void)line;
  auto join = [&] { t.clear(); for (auto& l : ls) t += l + "\n"; }; size_t size_line = 1; while (ls[size_line][0] == '%' || ls[size_line].find_first_not_of(" \r\t") == std::string::npos) ++size_line; size_t entry = ls.size(); do entry = size_line + 1 + c.rng.below(ls.size() - size_line - 1); while (ls[entry].find_first_not_of(" \r\t") == std::string::npos);
  switch (c.rng.below(12)) {
    case 0: why = "no banner"; t = t.substr(t.find('\n') + 1); break;
    case 1: why = "another banner"; sub("%%MatrixMarket", c.rng.of({"%MatrixMarket", "%%matrixmarket_", "MatrixMarket", "%%BGL17"})); break;
    case 2: why = "array format"; sub("coordinate", "array"); break;
    case 3: why = "complex values"; sub(f.field, "complex"); break;
    case 4: why = "another symmetry"; sub(f.symmetry, c.rng.of({"skew-symmetric", "hermitian", "unsymmetric", "x"})); break;
    case 5: why = "another object"; sub("matrix", "vector"); break;
    case 6: why = "no size line"; ls.resize(size_line); join(); break;
    case 7: why = "two sizes"; ls[size_line] = "3 3"; ls.resize(size_line + 1); join(); break;
    case 8: why = "fewer entries than declared"; ls[entry] = ""; join(); break;
    case 9: why = "an entry that is no number"; ls[entry] = c.rng.of({"x y 1", "1 ? 2", "% 1 2", "one"}); join(); break;
    case 10: why = "index 0"; ls[entry] = c.rng.of({"0 1 1", "1 0 1", "0 0 0"}); join(); break;
    case 11: why = "an index that does not fit"; ls[entry] = c.rng.of({"4294967297 1 1", "1 99999999999999999999 1", "-1 1 2", "1 -5 1", "18446744073709551615 2 2"}); join(); break;
  }
  c.describe(why + (t.size() < 300 ? " [" + t + "]" : "")); c.interesting(); std::string how; auto refused = [&](auto fn) { try { fn(); return false; } catch (const std::exception&) { return true; } };
  auto s = [&](auto r) { if (!refused(r)) c.fail(why, "is not refused"); c.count("refusals observed"); };
  s([&] { std::istringstream i(t); nwg::read_mm<directedness::directed>(i); }); s([&] { std::istringstream i(t); nwg::read_mm<directedness::undirected>(i); }); s([&] { std::istringstream i(t); nwg::read_mm<directedness::directed, double>(i); }); s([&] { std::istringstream i(t); nwg::read_mm<directedness::undirected, double>(i); });
  auto p = put_file(c.tmpdir, t); s([&] { nwg::read_mm<directedness::directed, double>(p); });
  if (why == "no banner" || why == "another banner") { if (nwg::is_mm(p)) c.fail("is_mm", "says yes: " + why); s([&] { nwg::get_mm_symmetry(p); }); }
  s([&] { nwg::read_mm<directedness::directed>(c.tmpdir + "/does-not-exist"); });
}
NWV_MAIN
