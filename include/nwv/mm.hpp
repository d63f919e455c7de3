// nwv/mm.hpp: Matrix Market texts and their entries, generated and parsed without the library under test.
#pragma once
#include "core.hpp"
#include <array>
#include <fstream>
#include <sstream>
#include <tuple>
namespace nwv {
struct MM {
  size_t n0 = 0, n1 = 0; std::string field, symmetry, text; bool trailing = true;
  std::vector<std::tuple<uint32_t, uint32_t, double>> entries;    // zero-based, one per line
  bool big = false;                                               // some integers do not fit 32 bits
  std::vector<std::string> values;                                // as written
  bool symmetric() const { return symmetry == "symmetric"; }
  bool pattern() const { return field == "pattern"; }
};
struct MMOpt { bool square = false, blanks = true, allow_no_newline = true, bipartite = false, huge = false /* ids beyond int */; size_t max_n = 60, max_m = 120, min_m = 1; };
inline MM random_mm(Rng& r, MMOpt o = {}) {
  MM f; f.field = r.of({"pattern", "integer", "real"}); f.symmetry = o.bipartite ? "general" : r.of({"general", "symmetric"});
  f.n0 = r.logsize(1, o.max_n); f.n1 = (f.symmetric() || o.square || r.coin()) ? f.n0 : r.logsize(1, o.max_n);
  if (r.coin(0.2)) { f.n0 += r.below(1000); f.n1 = f.symmetric() || o.square ? f.n0 : f.n1; }
  if (r.coin(0.05)) { f.n0 = 100000 + r.below(900000); f.n1 = f.symmetric() || o.square ? f.n0 : f.n1; }
  if (o.huge && r.coin(0.1)) { f.n0 = 0x7fffff00u + r.below(0x7fffff00u); f.n1 = f.symmetric() || o.square ? f.n0 : f.n1; }
  size_t m = r.coin(0.05) && o.min_m < 2 ? 0 : r.logsize(o.min_m, o.max_m); double padded = r.coin(0.15) ? 0.5 : 0; f.big = f.field == "integer" && r.coin(0.1);
  auto pad = [&](std::string t) { if (!r.coin(padded)) return t; size_t at = t[0] == '-' || t[0] == '+'; t.insert(at, std::string(1 + r.below(4), '0')); return t; }; bool shorter = r.coin(0.3);
  std::string nl = r.coin(0.1) ? "\r\n" : "\n"; auto sp = [&] { return std::string(r.coin(0.8) ? " " : r.coin() ? "\t" : "   "); };
  f.text = "%%MatrixMarket" + sp() + "matrix" + sp() + "coordinate" + sp() + f.field + sp() + f.symmetry + nl;
  for (size_t i = 0, k = r.below(5); i < k; ++i) f.text += r.of({"%", "% a comment", "%%", "%1 2 3", "%-----------------------------------", "% 7 7 7 %"}) + nl;
  if (o.blanks && r.coin(0.15)) f.text += (r.coin() ? nl : "  " + nl);
  if (r.coin(0.1)) f.text += " ";
  f.text += std::to_string(f.n0) + sp() + std::to_string(f.n1) + sp() + std::to_string(m) + (r.coin(0.1) ? " " : "") + nl;
  for (size_t i = 0; i < m; ++i) {
    uint32_t a, b; if (shorter) { a = (uint32_t)r.below(std::min<size_t>(f.n0, 9)); b = (uint32_t)r.below(std::min<size_t>(f.n1, 9)); } else { a = (uint32_t)r.below(f.n0); b = (uint32_t)r.below(f.n1); }
    if (r.coin(0.05)) { a = (uint32_t)f.n0 - 1; } if (r.coin(0.05)) b = (uint32_t)f.n1 - 1; if (r.coin(0.05) && a < f.n1) b = a;
    if (f.symmetric() && a < b && r.coin(0.9)) std::swap(a, b);    // usually the lower triangle
    std::string v; if (f.field == "integer") v = std::to_string((long)r.below(2000) - (r.coin(0.3) ? 1000 : 0));
    if (f.big && r.coin(0.3)) v = std::to_string((long)(r() >> (1 + r.below(40))) * (r.coin() ? 1 : -1));
    bool sign = false;
    if (f.field == "real") { char buf[64]; double x = (r.unit() - 0.3) * (r.coin(0.1) ? 1e12 : r.coin(0.1) ? 1e-12 : 100); const char* form = r.coin(0.3) ? "%.17g" : r.coin(0.4) ? "%.3e" : r.coin(0.3) ? "%.2E" : r.coin() ? "%.4f" : "%g"; snprintf(buf, sizeof buf, form, x); v = buf; }
    if (!v.empty()) { if (v[0] != '-' && r.coin(padded)) sign = true; v = pad(v); if (sign) v = "+" + v; }
    f.entries.push_back({a, b, v.empty() ? 1.0 : strtod(v.c_str(), nullptr)}); f.values.push_back(v);
    if (r.coin(0.05)) f.text += sp();
    f.text += pad(std::to_string(a + 1)) + sp() + pad(std::to_string(b + 1)) + (v.empty() ? "" : sp() + v) + (r.coin(0.05) ? " " : "");
    if (i + 1 < m) f.text += nl; else if (o.allow_no_newline && r.coin(0.2)) f.trailing = false; else f.text += nl;
    if (o.blanks && i + 1 < m && r.coin(0.01)) f.text += nl;
  }
  return f;
}
inline std::string put_file(const std::string& dir, const std::string& text, const char* name = "m.mtx") { std::string p = dir + "/" + name; std::ofstream(p, std::ios::binary) << text; return p; }
inline std::string get_file(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
}    // namespace nwv
