// Shared by P12_bfs.cpp and P12_bfs_exp.cpp.
#pragma once
#define NWGRAPH_VERIFY_HOOKS
#include <nwv/nw.hpp>
#include <nwv/perturb.hpp>
#include <nwgraph/util/atomic.hpp>
using namespace nwv;

static const V NUL = std::numeric_limits<V>::max();

template <class P>
static void check_tree(Ctx& c, const char* algo, const Adj& out, const std::vector<uint64_t>& lev, size_t root, const P& par, bool root_self = true) {
  size_t n = out.size();
  std::string A = algo;
  if (par.size() != n) { c.fail(A + ":size", fmt("%zu parents for %zu vertices", (size_t)par.size(), n)); return; }
  std::vector<std::vector<V>> sorted;
  size_t tree = 0;
  for (size_t v = 0; v < n; ++v) {
    uint64_t p = (uint64_t)par[v];
    bool has = p != (uint64_t)std::numeric_limits<std::decay_t<decltype(par[v])>>::max();
    if (v == root) { if (root_self && p != root) { c.fail(A + ":root", fmt("parent of root %zu is %llu", root, (unsigned long long)p)); return; } continue; }
    if (has != (lev[v] != INF)) { c.fail(A + ":reach", fmt("vertex %zu: parent %llu but hop distance %lld from %zu", v, (unsigned long long)p, (long long)lev[v], root)); return; }
    if (!has) continue;
    if (p >= n) { c.fail(A + ":range", fmt("parent of %zu is %llu", v, (unsigned long long)p)); return; }
    if (lev[p] + 1 != lev[v]) { c.fail(A + ":hop", fmt("parent %llu (hop %lld) of vertex %zu (hop %lld), root %zu", (unsigned long long)p, (long long)lev[p], v, (long long)lev[v], root)); return; }
    ++tree;
  }
  // parent edges exist
  for (size_t v = 0; v < n; ++v) {
    if (v == root || lev[v] == INF) continue;
    V p = (V)par[v];
    const auto& o = out[p];
    bool ok = o.size() < 64 ? std::find(o.begin(), o.end(), (V)v) != o.end() : std::binary_search(o.begin(), o.end(), (V)v);
    if (!ok) { c.fail(A + ":edge", fmt("no edge %u -> %zu", p, v)); return; }
  }
  c.count(A + " runs");
  c.count("tree edges checked", tree);
}

static void sort_rows(Adj& a) { for (auto& r : a) std::sort(r.begin(), r.end()); }

struct Setup { G g; Adj out; size_t root; std::vector<uint64_t> lev; uint64_t depth = 0; size_t reach = 0; };
static size_t pick_root(Rng& r, const G& g) {
  if (!g.e.empty() && r.coin(0.7)) return r.pick(const_cast<std::vector<E>&>(g.e)).first;
  return r.below(g.n);
}
static Setup finish(Ctx& c, G g) {
  Setup s; s.g = std::move(g); s.out = out_adj(s.g); sort_rows(s.out);
  s.root = pick_root(c.rng, s.g); s.lev = bfs_levels(s.out, s.root);
  for (auto l : s.lev) if (l != INF) { ++s.reach; s.depth = std::max(s.depth, l); }
  c.input(s.g.digest()); c.input(s.root);
  c.describe(s.g.str() + fmt(" root=%zu reach=%zu depth=%llu", s.root, s.reach, (unsigned long long)s.depth));
  c.interesting(s.reach > 1);
  return s;
}
static void before(Ctx& c) { Perturb::seed(c.rng); }

static int pick_alpha(Rng& r) { return r.of({1, 2, 4, 15, 15, 100, 1000000}); }
static int pick_beta(Rng& r) { return r.of({1, 2, 4, 18, 18, 100, 1000000}); }
static G huge_graph(Ctx& c) {    // larger than the frontier bitmap's splitting grain (2^15 words of 64 bits)
  size_t n = 2097152 + 64 * (1 + c.rng.below(20000));
  G g; g.n = n; g.kind = "huge";
  size_t hubs = 1 + c.rng.below(3);
  for (size_t i = 0; i < n; ++i) {
    int k = (int)(mix(i ^ c.seed) & 7);
    if (k < 3) { V h = (V)c.rng.below(hubs); g.e.push_back({h, (V)i}); g.e.push_back({(V)i, h}); }
    else if (k < 6) { V b = (V)c.rng.below(n); g.e.push_back({(V)i, b}); g.e.push_back({b, (V)i}); }
    else if (k == 6 && i + 1 < n) { g.e.push_back({(V)i, (V)(i + 1)}); g.e.push_back({(V)(i + 1), (V)i}); }
  }
  return g;
}
static G contended_graph(Ctx& c) {
  G g; g.kind = "contended";
  size_t w = 2 + c.rng.below(64), layers = 2 + c.rng.below(6), t = 1 + c.rng.below(64);
  g.n = 1 + layers * (w + t);
  for (size_t i = 0; i < w; ++i) g.e.push_back({0, (V)(1 + i)});
  size_t base = 1, cw = w;
  for (size_t l = 0; l + 1 < layers * 2; ++l) {
    size_t nb = base + cw, nw_ = (l % 2 == 0) ? t : w;
    if (nb + nw_ > g.n) break;
    for (size_t i = 0; i < cw; ++i) for (size_t j = 0; j < nw_; ++j) g.e.push_back({(V)(base + i), (V)(nb + j)});
    base = nb; cw = nw_;
  }
  if (c.rng.coin()) g = symmetric(g);
  return g;
}
static G big_one(Ctx& c, size_t hi = 20000) {
  size_t n = c.rng.logsize(500, hi);
  G g = big_graph(c.rng, n, (size_t)(n * (0.7 + 6 * c.rng.unit())));
  if (c.rng.coin()) g = symmetric(g);
  return g;
}
static G deep_one(Ctx& c) { G g = scale_graph(c.rng); if (c.rng.coin(0.6)) g = symmetric(g); return g; }
static G small_one(Ctx& c) {
  GenOpt o; o.max_n = c.rng.of({8, 30, 80, 200});
  G g = random_graph(c.rng, o);
  if (c.rng.coin(0.4)) g = symmetric(g);
  if (g.n == 0) g.n = 1;
  return g;
}
static int run_main(int argc, char** argv) {
  Perturb::install(&nwg::verify_atomic_hook);
  hooks().after = [](Ctx& c) { c.count("atomic accesses perturbed (yields)", Perturb::yields().exchange(0)); c.count("atomic accesses seen", Perturb::hits().exchange(0)); };
  return nwv::main(argc, argv);
}
