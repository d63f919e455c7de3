// P28: malformed Matrix Market files end in an exception or in a list of edges, never in memory corruption (the sanitizers decide),
// and a list that is returned holds no more than the file declares.
#include <nwv/edges.hpp>
#include <nwv/mm.hpp>
#include <nwgraph/io/mmio.hpp>
#include <nwgraph/io/MatrixMarketFile.hpp>
using namespace nwv;
using nwg::directedness;
using std::size_t;
static std::string token(Rng& r) { return r.of({"0", "1", "-1", "2", "3", "7", "999999", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1e3", "1.5", "nan", "inf", "-0", "+1", "0x10", "abc", "", "%", "#", "1,1", "\t", "\x01", "\xff\xfe", "general", "symmetric", "array", "complex"}); }
static std::string mutate(Rng& r, std::string t, size_t from) {
  for (size_t k = 1 + r.below(r.coin(0.7) ? 3 : 20); k--;) {
    if (t.size() <= from) { t += token(r); continue; }
    size_t at = from + r.below(t.size() - from), end = std::min(t.size(), at + 1 + r.below(12));
    auto tok = [&](size_t& b, size_t& e) { b = at; while (b > from && !isspace((unsigned char)t[b - 1])) --b; e = at; while (e < t.size() && !isspace((unsigned char)t[e])) ++e; };
    size_t b, e;
    switch (r.below(11)) {
      case 0: t[at] = (char)r.below(256); break;
      case 1: t[at] = r.of({'0', '1', '9', '-', '.', 'e', ' ', '\n', '\r', '%', '\0', '\t', '+'}); break;
      case 2: t.erase(at, end - at); break;
      case 3: t.insert(at, t.substr(at, end - at)); break;
      case 4: t.resize(at); break;
      case 5: tok(b, e); t.replace(b, e - b, token(r)); break;
      case 6: tok(b, e); t.replace(b, e - b, token(r)); break;
      case 7: t.insert(at, token(r)); break;
      case 8: { size_t l = t.find('\n', at); if (l != std::string::npos) { size_t l2 = t.find('\n', l + 1); if (l2 != std::string::npos) { std::string line = t.substr(l + 1, l2 - l); if (r.coin()) t.erase(l + 1, l2 - l); else t.insert(from + (t.size() > from ? 0 : 0), line); } } break; }
      case 9: t.insert(at, std::string(1 + r.below(300), r.of({' ', '\n', '9', 'x', '%'}))); break;
      default: { size_t o = from + r.below(t.size() - from); std::swap(t[at], t[o]); }
    }
  }
  return t;
}
// declared number of entries, as any reader of the format would find it; -1 when there is none
static bool reasonable(const std::string& t, size_t& nnz) {
  std::istringstream s(t); std::string l; std::getline(s, l); nnz = 0; while (std::getline(s >> std::ws, l)) if (l[0] != '%') break;
  size_t a = 0, b = 0; std::istringstream h(l); if (!(h >> a >> b >> nnz)) { nnz = 0; }
  size_t two = 2 * nnz; return (nnz <= 1000000 || nnz > (size_t)1 << 62) && (two <= 2000000 || two > (size_t)1 << 62) && a <= 1000000000ul;
}
template <directedness D, class... A> static auto build(nwg::edge_list<D, A...>& el) { return nwg::adjacency<0, A...>(el); }
static std::string k_(size_t) { return "graph"; }
template <class F> static void attempt(Ctx& c, const std::string& k, size_t nnz, F f) {
  try { auto el = f(); size_t m = el.size(); if (m > 2 * nnz) c.fail(k, fmt("%zu edges from %zu declared entries", m, nnz)); size_t s = 0; for (auto&& e : el) s += std::get<0>(e) + std::get<1>(e); c.input(s); c.count("accepted"); c.interesting();
    size_t top = 0; for (auto&& e : el) top = std::max<size_t>(top, std::max(std::get<0>(e), std::get<1>(e)));
    if (top < 100000 && nwg::num_vertices(el) < 100000) { auto a = build(el); size_t k = 0; for (auto&& row : a) for (auto&& e : row) { k += std::get<0>(e) < a.size() ? 1 : 1000000; } if (k > 4 * nnz) c.fail(k_(k), fmt("%zu edges in the graph of %zu entries", k, nnz)); c.count("graphs built from accepted files"); }
  } catch (const std::exception&) { c.count("refused"); c.interesting(); }
}
static void read_all(Ctx& c, const std::string& t) {
  size_t nnz; if (!reasonable(t, nnz)) return;
  c.input(hash_str(t)); c.describe(fmt("%zu bytes", t.size()) + (t.size() < 260 ? " [" + t + "]" : ""));
  attempt(c, "directed", nnz, [&] { std::istringstream i(t); return nwg::read_mm<directedness::directed>(i); });
  attempt(c, "undirected", nnz, [&] { std::istringstream i(t); return nwg::read_mm<directedness::undirected>(i); });
  attempt(c, "directed double", nnz, [&] { std::istringstream i(t); return nwg::read_mm<directedness::directed, double>(i); });
  attempt(c, "undirected int", nnz, [&] { std::istringstream i(t); return nwg::read_mm<directedness::undirected, int>(i); });
  auto p = put_file(c.tmpdir, t); attempt(c, "file", nnz, [&] { return nwg::read_mm<directedness::directed, float>(p); });
  try { (void)nwg::is_mm(p); (void)nwg::get_mm_symmetry(p); } catch (const std::exception&) {}
  if (nnz <= 100000) { auto body = t.find('\n'); std::istringstream i(body == std::string::npos ? "" : t.substr(body + 1)); nwg::bi_edge_list<directedness::directed> el(5, 5); try { nwg::mm_fill(i, el, nnz, false, true); } catch (const std::exception&) {} }
}
static MM source(Ctx& c) { MMOpt o; o.max_m = c.rng.of({3, 10, 60}); o.max_n = 30; return random_mm(c.rng, o); }
NWV_FAMILY(entries, 2500, 80000) { MM f = source(c); size_t from = 0; { std::istringstream s(f.text); std::string l; std::getline(s, l); while (std::getline(s, l) && (l[0] == '%' || l.find_first_not_of(" \r\t") == std::string::npos)) {} from = s.tellg() == std::istringstream::pos_type(-1) ? f.text.size() : (size_t)s.tellg(); } read_all(c, mutate(c.rng, f.text, from)); }
NWV_FAMILY(anywhere, 2500, 80000) { MM f = source(c); read_all(c, mutate(c.rng, f.text, c.rng.coin() ? 0 : 14)); }
NWV_FAMILY(noise, 800, 20000) { std::string t = c.rng.coin(0.7) ? c.rng.of({"%%MatrixMarket matrix coordinate real general\n", "%%MatrixMarket matrix coordinate pattern symmetric\n", "%%MatrixMarket", "%%MatrixMarket matrix coordinate integer general\n3 3 3\n"}) : ""; bool text = c.rng.coin(); for (size_t k = c.rng.logsize(0, 400); k--;) t += text ? c.rng.of({'1', '2', '3', '0', ' ', '\n', '-', '.', 'e', '%', ' ', '\n'}) : (char)c.rng.below(256); read_all(c, t); }
NWV_FAMILY(vectors, 800, 20000) {    // dense vectors
  size_t n = c.rng.below(30); std::string t = fmt("%%%%MatrixMarket matrix array %s general\n%zu 1\n", c.rng.coin() ? "real" : "integer", n); for (size_t i = 0; i < n; ++i) t += std::to_string(c.rng.below(100)) + "\n";
  t = mutate(c.rng, t, 0); std::istringstream s(t); std::string l; std::getline(s, l); while (std::getline(s >> std::ws, l)) if (l[0] != '%') break; size_t a = 0; std::istringstream(l) >> a; if (a > 100000) return; c.input(hash_str(t)); c.describe(t.substr(0, 300));
  try { std::istringstream i(t); auto v = nwg::read_mm_vector<double>(i); c.check(v.size() == a, "vector", "%zu values, %zu declared", v.size(), a); c.count("vectors accepted"); } catch (const std::exception&) { c.count("vectors refused"); } c.interesting();
}
// the memory-mapped reader refuses bad headers by ending the program; what it makes of bad entries stays inside the file
NWV_FAMILY(mapped, 800, 20000) {
  MM f = source(c); std::istringstream s(f.text); std::string l; std::getline(s, l); while (std::getline(s, l) && (l[0] == '%' || l.find_first_not_of(" \r\t") == std::string::npos)) {} size_t from = s.tellg() == std::istringstream::pos_type(-1) ? f.text.size() : (size_t)s.tellg(); if (from >= f.text.size()) return;
  std::string t = mutate(c.rng, f.text, from); for (size_t i = from; i < t.size(); ++i) if (t[i] == '-') t[i] = ' ';    // (an index below the least int is out of domain)
  c.input(hash_str(t)); c.describe(t.size() < 300 ? t : fmt("%zu bytes", t.size())); c.interesting(); mmio::MatrixMarketFile m(put_file(c.tmpdir, t)); size_t lines = 0; double sum = 0;
  for (auto i = m.begin<double>(), e = m.end<double>(); i != e; ++i) { auto [a, b, x] = *i; sum += a * 1e-9 + b * 1e-9; if (++lines > t.size() + 2) c.die("mapped", "does not reach the end"); } c.input((uint64_t)lines); c.count("mapped lines read", lines);
  for (int k = 0; k <= m.getNEdges(); ++k) for (auto [a, b] : mmio::edges(m, 0, k)) { sum += a; if (++lines > 40 * (t.size() + 2)) break; }
}
NWV_MAIN
