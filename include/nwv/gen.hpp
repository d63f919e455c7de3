// nwv/gen.hpp: graph generation and reference answers, written without using the library under test.
#pragma once
#include "core.hpp"
#include <deque>
#include <limits>
#include <numeric>
#include <queue>
#include <set>
#include <tuple>
#include <utility>

namespace nwv {
using V = uint32_t;
using E = std::pair<V, V>;
static constexpr uint64_t INF = std::numeric_limits<uint64_t>::max();

struct G {
  size_t         n = 0;
  std::vector<E> e;
  std::string    kind;
  uint64_t digest() const {
    uint64_t h = mix(n * 31 + e.size());
    for (auto& [a, b] : e) h = mix(h ^ (((uint64_t)a << 32) | b));
    return h;
  }
  std::string str() const {
    std::string s = fmt("%s n=%zu m=%zu", kind.c_str(), n, e.size());
    if (e.size() <= 24) {
      s += " {";
      for (auto& [a, b] : e) s += fmt("%u-%u ", a, b);
      s += "}";
    }
    return s;
  }
};

struct GenOpt {
  bool   loops = true, dups = true;   // may contain self-loops / parallel edges
  bool   simple_undirected = false;   // each unordered pair at most once, no loops
  size_t max_n = 60;
  double density = 3;                 // average degree scale
};

// The edges are to be read as directed (u->v) or undirected as the caller likes.
inline G random_graph(Rng& r, GenOpt o = {}) {
  G      g;
  size_t n = r.logsize(1, o.max_n);
  int    k = (int)r.below(16);
  auto   add = [&](uint64_t a, uint64_t b) { if (a < n && b < n) g.e.push_back({(V)a, (V)b}); };
  switch (k) {
    case 0: g.kind = "er-sparse"; for (size_t i = 0, m = (size_t)(n * r.unit() * 1.2); i < m; ++i) add(r.below(n), r.below(n)); break;
    case 1: case 2: case 3:
      g.kind = "er"; for (size_t i = 0, m = (size_t)(n * o.density * r.unit()) + 1; i < m; ++i) add(r.below(n), r.below(n)); break;
    case 4: { g.kind = "powerlaw"; for (size_t i = 0, m = (size_t)(n * o.density * (0.3 + r.unit())); i < m; ++i) {
      double a = r.unit(), b = r.unit(); add((uint64_t)(a * a * a * n), (uint64_t)(b * b * n)); } break; }
    case 5: g.kind = "path"; for (size_t i = 0; i + 1 < n; ++i) r.coin(0.8) ? add(i, i + 1) : add(i + 1, i); break;
    case 6: g.kind = "cycle"; for (size_t i = 0; i < n; ++i) add(i, (i + 1) % n); break;
    case 7: { g.kind = "star"; size_t c = r.below(n); for (size_t i = 0; i < n; ++i) if (i != c) r.coin() ? add(c, i) : add(i, c); break; }
    case 8: { g.kind = "grid"; size_t w = std::max<size_t>(1, (size_t)std::sqrt((double)n));
      for (size_t i = 0; i < n; ++i) { if ((i + 1) % w) add(i, i + 1); add(i, i + w); } break; }
    case 9: { g.kind = "clique"; size_t c = std::min<size_t>(n, 4 + r.below(14)); n = std::max(n, c); size_t b = n > c ? r.below(n - c) : 0;
      for (size_t i = 0; i < c; ++i) for (size_t j = i + 1; j < c; ++j) add(b + i, b + j); break; }
    case 10: { g.kind = "tree"; for (size_t i = 1; i < n; ++i) r.coin() ? add(r.below(i), i) : add(i, r.below(i)); break; }
    case 11: { g.kind = "blocks"; size_t b = 1 + r.below(5); for (size_t i = 0, m = n * 2; i < m; ++i) { uint64_t x = r.below(n), y = r.below(n); if (x % b == y % b) add(x, y); } break; }
    case 12: { g.kind = "bipartite"; size_t h = std::max<size_t>(1, n / 2); for (size_t i = 0, m = n * 2; i < m; ++i) add(r.below(h), h + r.below(n - h + 1)); break; }
    case 13: { g.kind = "dag"; for (size_t i = 0, m = (size_t)(n * o.density); i < m; ++i) { uint64_t a = r.below(n), b = r.below(n); if (a != b) add(std::min(a, b), std::max(a, b)); } break; }
    case 14: { g.kind = "layers"; size_t w = 1 + r.below(6);   // many equal-length shortest paths
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < w; ++j) add(i, (i / w + 1) * w + j); break; }
    default: { g.kind = "hubs"; size_t h = 1 + r.below(4); for (size_t i = 0; i < n; ++i) { add(r.below(std::min(h, n)), i); if (r.coin(0.3)) add(i, r.below(n)); } break; }
  }
  g.n = n;
  // sometimes shift everything so that low vertices are isolated, sometimes add isolated trailing vertices
  if (r.coin(0.15)) { size_t s = 1 + r.below(6); for (auto& x : g.e) { x.first += s; x.second += s; } g.n += s; g.kind += "+low"; }
  if (r.coin(0.25)) { g.n += 1 + r.below(8); g.kind += "+trail"; }
  if (r.coin(0.3) && g.n) {    // random renaming
    std::vector<V> p(g.n); std::iota(p.begin(), p.end(), 0); r.shuffle(p);
    for (auto& x : g.e) { x.first = p[x.first]; x.second = p[x.second]; } g.kind += "+perm";
  }
  if (o.loops && !o.simple_undirected && r.coin(0.2) && g.n) { for (size_t i = 0; i < 1 + r.below(4); ++i) { V a = (V)r.below(g.n); g.e.push_back({a, a}); } g.kind += "+loops"; }
  if (o.dups && !o.simple_undirected && r.coin(0.2) && !g.e.empty()) { for (size_t i = 0, m = 1 + r.below(5); i < m; ++i) g.e.push_back(g.e[r.below(g.e.size())]); g.kind += "+dups"; }
  if (!o.loops || o.simple_undirected) g.e.erase(std::remove_if(g.e.begin(), g.e.end(), [](E x) { return x.first == x.second; }), g.e.end());
  if (o.simple_undirected) {
    std::set<E> s; std::vector<E> out;
    for (auto x : g.e) if (s.insert({std::min(x.first, x.second), std::max(x.first, x.second)}).second) out.push_back(x);
    g.e = out;
  } else if (!o.dups) {
    std::set<E> s; std::vector<E> out;
    for (auto x : g.e) if (s.insert(x).second) out.push_back(x);
    g.e = out;
  }
  if (r.coin(0.5)) r.shuffle(g.e);
  return g;
}
// a larger random graph with m edges (for parallel splitting)
inline G big_graph(Rng& r, size_t n, size_t m, GenOpt o = {}) {
  G g; g.n = n; g.kind = "big";
  int k = (int)r.below(4);
  std::vector<E> v; v.reserve(m);
  if (k == 0) { g.kind = "big-er"; for (size_t i = 0; i < m; ++i) v.push_back({(V)r.below(n), (V)r.below(n)}); }
  else if (k == 1) { g.kind = "big-powerlaw"; for (size_t i = 0; i < m; ++i) { double a = r.unit(), b = r.unit(); v.push_back({(V)(a * a * a * n), (V)(b * b * n)}); } }
  else if (k == 2) { g.kind = "big-local"; for (size_t i = 0; i < m; ++i) { V a = (V)r.below(n); v.push_back({a, (V)((a + 1 + r.below(8)) % n)}); } }
  else { g.kind = "big-hub"; for (size_t i = 0; i < m; ++i) v.push_back({(V)(r.coin(0.3) ? r.below(4) % n : r.below(n)), (V)r.below(n)}); }
  if (!o.loops || o.simple_undirected) v.erase(std::remove_if(v.begin(), v.end(), [](E x) { return x.first == x.second; }), v.end());
  if (o.simple_undirected) { for (auto& x : v) if (x.first > x.second) std::swap(x.first, x.second); }
  if (o.simple_undirected || !o.dups) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); if (r.coin()) r.shuffle(v); }
  g.e = std::move(v);
  return g;
}

// shapes whose degrees, depths, counts or numbers of parts exceed 16 bits
inline G scale_graph(Rng& r, bool simple = false, bool deep = true, bool windmill = true /* false: nothing that takes quadratic time to intersect */) {
  G g; size_t n = 66000 + r.below(9000); auto add = [&](uint64_t a, uint64_t b) { g.e.push_back({(V)a, (V)b}); };
  switch (r.below(deep ? 7 : 5)) {
    case 0: { g.kind = "scale-star"; size_t h = r.coin() ? 0 : r.below(n); int d = (int)r.below(3); for (size_t i = 0; i < n; ++i) if (i != h) (d == 0 || (d == 1 && r.coin())) ? add(h, i) : add(i, h); break; }
    case 1: { g.kind = "scale-hubs"; size_t h = 2 + r.below(2); n = 33500 + r.below(6000); for (size_t i = h; i < n; ++i) for (size_t j = 0; j < h; ++j) add(j, i); break; }
    case 2: g.kind = "scale-pairs"; for (size_t i = 0; i + 1 < 2 * n; i += 2) add(i, i + 1); n *= 2; break;
    case 3: g.kind = "scale-isolated"; for (size_t i = 0; i < 50; ++i) { size_t a = r.below(n), b = r.below(n); if (a != b) add(std::min(a, b), std::max(a, b)); } break;
    case 4: if (!windmill) n = 1501; { g.kind = "scale-windmill"; for (size_t i = 1; i + 1 < n; i += 2) { add(0, i); add(0, i + 1); add(i, i + 1); } break; }
    case 5: g.kind = "scale-path"; for (size_t i = 0; i + 1 < n; ++i) add(i, i + 1); break;
    default: g.kind = "scale-cycle"; for (size_t i = 0; i < n; ++i) add(i, (i + 1) % n);
  }
  g.n = n;
  if (windmill && r.coin(0.4)) { std::vector<V> p(n); std::iota(p.begin(), p.end(), 0); r.shuffle(p); for (auto& x : g.e) { x.first = p[x.first]; x.second = p[x.second]; } g.kind += "+perm"; }
  if (r.coin(0.4)) r.shuffle(g.e);
  if (simple) { std::set<E> s; std::vector<E> o; for (auto x : g.e) if (x.first != x.second && s.insert({std::min(x.first, x.second), std::max(x.first, x.second)}).second) o.push_back(x); g.e = o; }
  return g;
}
inline G clique_graph(Rng& r, size_t k) { G g; g.kind = "big-clique"; g.n = k + r.below(20); size_t b = r.below(g.n - k + 1); for (size_t i = 0; i < k; ++i) for (size_t j = i + 1; j < k; ++j) g.e.push_back({(V)(b + i), (V)(b + j)}); if (r.coin()) r.shuffle(g.e); return g; }

// -------------------------------------------------------------------------------------------- adjacency & oracles
using Adj = std::vector<std::vector<V>>;
inline Adj out_adj(const G& g) { Adj a(g.n); for (auto& [u, v] : g.e) a[u].push_back(v); return a; }
inline Adj in_adj(const G& g) { Adj a(g.n); for (auto& [u, v] : g.e) a[v].push_back(u); return a; }
inline Adj und_adj(const G& g) { Adj a(g.n); for (auto& [u, v] : g.e) { a[u].push_back(v); a[v].push_back(u); } return a; }
inline G symmetric(const G& g) { G h = g; for (auto& [u, v] : g.e) h.e.push_back({v, u}); h.kind += "+sym"; return h; }
inline G transpose(const G& g) { G h = g; for (auto& x : h.e) std::swap(x.first, x.second); return h; }

inline std::vector<uint64_t> bfs_levels(const Adj& a, size_t s) {
  std::vector<uint64_t> d(a.size(), INF); std::deque<V> q;
  d[s] = 0; q.push_back((V)s);
  while (!q.empty()) { V u = q.front(); q.pop_front(); for (V v : a[u]) if (d[v] == INF) { d[v] = d[u] + 1; q.push_back(v); } }
  return d;
}
inline std::vector<V> components(const G& g) {    // smallest vertex of the component
  std::vector<V> p(g.n); std::iota(p.begin(), p.end(), 0);
  std::function<V(V)> f; auto find = [&](V x) { while (p[x] != x) { p[x] = p[p[x]]; x = p[x]; } return x; };
  for (auto& [u, v] : g.e) { V a = find(u), b = find(v); if (a < b) p[b] = a; else p[a] = b; }
  for (V i = 0; i < g.n; ++i) p[i] = find(i);
  return p;
}
template <class W>
inline std::vector<W> sssp(size_t n, const std::vector<std::tuple<V, V, W>>& e, size_t s, W inf) {
  std::vector<std::vector<std::pair<V, W>>> a(n);
  for (auto& [u, v, w] : e) a[u].push_back({v, w});
  std::vector<W> d(n, inf); std::priority_queue<std::pair<W, V>, std::vector<std::pair<W, V>>, std::greater<>> q;
  d[s] = 0; q.push({0, (V)s});
  while (!q.empty()) { auto [x, u] = q.top(); q.pop(); if (x != d[u]) continue; for (auto& [v, w] : a[u]) { W y = x + w; if (y < d[v]) { d[v] = y; q.push({y, v}); } } }
  return d;
}
inline uint64_t triangles(const G& g) {    // of the underlying simple graph
  std::vector<std::vector<V>> a(g.n);
  for (auto [u, v] : g.e) if (u != v) { a[std::min(u, v)].push_back(std::max(u, v)); }
  for (auto& x : a) { std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); }
  uint64_t t = 0; std::vector<char> mark(g.n, 0);
  for (size_t u = 0; u < g.n; ++u) {
    for (V v : a[u]) mark[v] = 1;
    for (V v : a[u]) for (V w : a[v]) t += mark[w];
    for (V v : a[u]) mark[v] = 0;
  }
  return t;
}
}    // namespace nwv
