// P32: union-find keeps exactly the equivalence of the unions made.
#include <nwv/nw.hpp>
#include <nwgraph/util/disjoint_set.hpp>
#include <list>
using namespace nwv;
using Sub = std::vector<std::pair<nwg::vertex_id_type, size_t>>;
struct Model {    // partition as explicit member lists
  std::vector<V> cls; std::vector<std::vector<V>> mem;
  explicit Model(size_t n) : cls(n), mem(n) { for (V i = 0; i < n; ++i) { cls[i] = i; mem[i] = {i}; } }
  bool unite(V a, V b) { a = cls[a]; b = cls[b]; if (a == b) return false; if (mem[a].size() < mem[b].size()) std::swap(a, b); for (V x : mem[b]) { cls[x] = a; mem[a].push_back(x); } mem[b].clear(); return true; }
};
static bool agrees(Ctx& c, Sub& s, Model& m, const char* when) {
  std::map<V, V> rep;
  for (V v = 0; v < s.size(); ++v) {
    V r = nwg::disjoint_find(s, v);
    if (r >= s.size() || m.cls[r] != m.cls[v]) { c.fail("find", fmt("%s: representative of %u is %u, which no union connects to it", when, v, r)); return false; }
    auto [i, f] = rep.try_emplace(m.cls[v], r);
    if (!f && i->second != r) { c.fail("find", fmt("%s: %u has representative %u but its set has %u", when, v, r, i->second)); return false; }
    if (nwg::disjoint_find(s, v) != r || nwg::disjoint_find(s, r) != r) { c.fail("idempotent", fmt("%s: finding the representative of %u changed it", when, v)); return false; }
  }
  c.count("partitions compared"); c.count("finds", s.size() * 3);
  return true;
}
static void run(Ctx& c, size_t n, size_t ops, int bias) {
  Sub s(n); for (size_t i = 0; i < n; ++i) s[i] = {(V)i, 0};
  Model m(n); size_t depthmax = 0;
  for (size_t k = 0; k < ops; ++k) {
    V a, b;
    switch (bias) {
      case 0: a = (V)c.rng.below(n); b = (V)c.rng.below(n); break;
      case 1: a = (V)(k % n); b = (V)((k + 1) % n); break;                                    // chain
      case 2: { size_t st = (size_t)1 << (k * 8 / std::max<size_t>(1, ops)); a = (V)c.rng.below(n); b = (V)((a + st) % n); break; }    // binomial trees: deep ranks
      default: a = (V)c.rng.below(1 + n / 8); b = (V)c.rng.below(n); break;
    }
    c.input(((uint64_t)a << 32) | b);
    int op = (int)c.rng.below(3);
    if (op == 0) { nwg::disjoint_union(s, a, b); m.unite(a, b); c.count("disjoint_union"); }
    else if (op == 1) { bool w = m.unite(a, b), g = nwg::disjoint_union_find(s, a, b); c.count("disjoint_union_find"); if (w != g) { c.fail("joined", fmt("union of %u and %u reports %d instead of %d", a, b, g, w)); return; } }
    else { bool w = m.cls[a] == m.cls[b]; bool g = nwg::disjoint_find(s, a) == nwg::disjoint_find(s, b); c.count("same-set queries"); if (w != g) { c.fail("same", fmt("%u and %u same set: %d instead of %d", a, b, g, w)); return; } }
    if (k % (1 + ops / 6) == 0 && !agrees(c, s, m, "during")) return;
  }
  agrees(c, s, m, "at the end");
  for (V v = 0; v < n; ++v) { size_t d = 0; for (V x = v; s[x].first != x; x = s[x].first) if (++d > n) { c.fail("cycle", "parent pointers form a cycle"); return; } depthmax = std::max(depthmax, d); }
  c.count("deepest path sum", depthmax);
}
NWV_FAMILY(small, 6000, 150000) { size_t n = c.rng.logsize(1, 40), ops = c.rng.below(4 * n + 4); int b = (int)c.rng.below(4); c.describe(fmt("n=%zu ops=%zu pattern=%d", n, ops, b)); c.interesting(ops > 2 && n > 2); run(c, n, ops, b); }
NWV_FAMILY(big, 150, 3000) { size_t n = c.rng.logsize(500, 20000), ops = c.rng.below(2 * n); int b = (int)c.rng.below(4); c.describe(fmt("n=%zu ops=%zu pattern=%d", n, ops, b)); c.interesting(ops > 2); run(c, n, ops, b); }
NWV_FAMILY(scale, 3, 60) { size_t n = 66000 + c.rng.below(100000), ops = n + c.rng.below(n); int b = (int)c.rng.below(4); c.describe(fmt("n=%zu ops=%zu pattern=%d", n, ops, b)); c.interesting(); run(c, n, ops, b); }
NWV_MAIN
