// P14: connected components partition vertices exactly by reachability.
#include <nwv/conc.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#if PART == 0
#include <nwgraph/algorithms/connected_components.hpp>
#else
#include <nwgraph/util/parallel_for.hpp>
#include <nwgraph/experimental/algorithms/connected_components.hpp>
#endif
#include <execution>
#include <unordered_map>
using namespace nwv;
using nwg::directedness;

struct Case { G g; std::vector<V> comp; size_t ncomp = 0; };
static Case gen(Ctx& c, int size) {
  Case k;
  if (size == 2) { size_t n = c.rng.logsize(2000, 30000); k.g = big_graph(c.rng, n, (size_t)(n * (0.2 + 3 * c.rng.unit()))); }
  else if (size == 1) {    // many components of similar size, long chains, adversarial orders
    size_t n = c.rng.logsize(200, 4000), b = 1 + c.rng.below(20); k.g.n = n; k.g.kind = "chains";
    std::vector<V> p(n); std::iota(p.begin(), p.end(), 0); int o = (int)c.rng.below(3);
    if (o == 0) c.rng.shuffle(p); else if (o == 1) std::reverse(p.begin(), p.end());
    for (size_t i = b; i < n; ++i) if (c.rng.coin(0.98)) k.g.e.push_back({p[i - b], p[i]});
    for (size_t i = 0; i < n / 10; ++i) { size_t x = c.rng.below(n), y = (x + b * c.rng.below(n / b + 1)) % n; if (x % b == y % b && c.rng.coin(0.4)) k.g.e.push_back({p[x], p[y]}); }
    if (c.rng.coin()) c.rng.shuffle(k.g.e);
  } else { GenOpt o; o.max_n = c.rng.of({2, 6, 20, 60, 200}); o.density = c.rng.of({0.4, 1.0, 3.0}); k.g = random_graph(c.rng, o); }
  k.comp = components(k.g);
  for (size_t i = 0; i < k.g.n; ++i) k.ncomp += k.comp[i] == i;
  c.input(k.g.digest()); c.describe(k.g.str() + fmt(" components=%zu", k.ncomp)); c.interesting(k.ncomp > 1 && k.ncomp < k.g.n);
  return k;
}
template <class L> static void verify(Ctx& c, const std::string& A, const Case& k, const L& lab) {
  if (lab.size() != k.g.n) { c.fail(A + ":size", fmt("%zu labels for %zu vertices", (size_t)lab.size(), k.g.n)); return; }
  std::unordered_map<uint64_t, V> of; std::unordered_map<V, uint64_t> lo;
  for (size_t v = 0; v < k.g.n; ++v) {
    uint64_t l = (uint64_t)lab[v];
    auto [i, fresh] = lo.try_emplace(k.comp[v], l);
    if (!fresh && i->second != l) { c.fail(A + ":split", fmt("vertices %u and %zu are connected but have labels %llu and %llu", k.comp[v], v, (unsigned long long)i->second, (unsigned long long)l)); return; }
    auto [j, f2] = of.try_emplace(l, k.comp[v]);
    if (!f2 && j->second != k.comp[v]) { c.fail(A + ":merged", fmt("vertices %u and %zu are not connected but share label %llu", j->second, v, (unsigned long long)l)); return; }
  }
  c.count(A + " runs"); c.count("labels checked", k.g.n);
}
static int rounds(Rng& r) { return r.of({0, 1, 2, 2, 3, 5, 100}); }
#if PART == 0
static void all(Ctx& c, const Case& k) {
  Threads th(c.rng);
  std::execution::parallel_unsequenced_policy pu; std::execution::sequenced_policy sq; std::execution::parallel_policy pp;
  auto a = make_csr<0>(k.g, c.rng.coin()); auto t = make_csr<1>(k.g, c.rng.coin());
  { int r = rounds(c.rng); auto l = nwg::afforest(pu, a, t, r); verify(c, "afforest-directed", k, l);
    if (k.g.n && !nwg::CCVerifier(a, t, l)) c.fail("verifier:rejects", "CCVerifier rejects a labelling that is correct"); }
  if (c.rng.coin(0.4)) { auto l = nwg::afforest(pp, a, t); verify(c, "afforest-directed-default", k, l); }
  if (c.rng.coin(0.3)) { auto l = nwg::afforest(sq, t, a, rounds(c.rng)); verify(c, "afforest-reversed", k, l); }
  auto el = make_el<directedness::undirected>(k.g);
  nwg::adjacency<0> s(el); nwg::adjacency<1> none(0);
  for (int i = 0; i < 2; ++i) { auto l = nwg::afforest(pu, s, none, rounds(c.rng)); verify(c, "afforest-undirected", k, l); }
  { auto l = nwg::afforest(pu, s, s); verify(c, "afforest-undirected-both", k, l); }
  if (k.g.n && k.g.n <= 300) {    // the verifier must tell wrong labellings from right ones
    std::vector<V> l(k.comp); bool ok = nwg::CCVerifier(a, t, l);
    c.check(ok, "verifier:rejects", "CCVerifier rejects the reference labelling");
    V v = (V)c.rng.below(k.g.n), w = (V)c.rng.below(k.g.n);
    auto x = l; x[v] = l[w];
    bool valid = x[v] == l[v];
    c.check(nwg::CCVerifier(a, t, x) == valid, "verifier:accepts", "CCVerifier says %d for label of %u changed from %u to %u", !valid, v, l[v], x[v]);
    for (auto& y : x) y = l[&y - &x[0]] == l[v] ? l[w] : l[&y - &x[0]];    // two components under one label
    c.check(nwg::CCVerifier(a, t, x) == (l[v] == l[w]), "verifier:accepts", "CCVerifier accepts two components with one label");
    c.count("verifier verdicts", 3);
  }
}
#else
static void all(Ctx& c, const Case& k) {
  Threads th(c.rng);
  std::execution::parallel_unsequenced_policy pu;
  auto el = make_el<directedness::undirected>(k.g);
  nwg::adjacency<0> s(el, c.rng.coin()), none(0);
  verify(c, "ccv1", k, nwg::ccv1(s));
  verify(c, "ccv5", k, nwg::ccv5(s));
  verify(c, "cc_v2", k, nwg::compute_connected_components_v2(s));
  if (k.g.n) verify(c, "lpcc", k, nwg::lpcc(pu, s));
  if (k.g.n) verify(c, "lpcc_cyclic", k, nwg::lpcc_cyclic(pu, s));
  verify(c, "Afforest", k, nwg::Afforest(s, none, (size_t)rounds(c.rng)));
  verify(c, "sv_v6", k, nwg::sv_v6(s));
  verify(c, "sv_v8", k, nwg::sv_v8(s));
  verify(c, "sv_v9", k, nwg::sv_v9(s));
  verify(c, "cc_v1", k, nwg::compute_connected_components_v1(s));
}
#endif
NWV_FAMILY(big, PART ? 40 : 150, 1500) { all(c, gen(c, 2)); }
#if PART == 0
NWV_FAMILY(scale, 6, 120) { Case k; k.g = scale_graph(c.rng); k.comp = components(k.g); for (size_t i = 0; i < k.g.n; ++i) k.ncomp += k.comp[i] == i; c.input(k.g.digest()); c.describe(k.g.str()); c.interesting(k.ncomp > 1 && k.ncomp < k.g.n); all(c, k); }
#endif
// vertices that a parallel loop reaches at about the same time hook the same root, whose number is higher than theirs
NWV_FAMILY(contended, PART ? 20 : 60, 800) {
  Case k; size_t n = c.rng.logsize(2000, 40000), hubs = n / c.rng.of({2, 3, 8, 40}), L = n - hubs; k.g.n = n; k.g.kind = "contended"; size_t s = std::max<size_t>(1, n >> c.rng.range(1, 6)), o = c.rng.below(2);
  for (size_t i = 0; i < L; ++i) if (o == 0) k.g.e.push_back({(V)i, (V)(L + (i % s) % hubs)}); else { k.g.e.push_back({(V)i, (V)(L + (i % s) % hubs)}); if (c.rng.coin(0.1)) k.g.e.push_back({(V)i, (V)(L + c.rng.below(hubs))}); }
  k.comp = components(k.g); for (size_t i = 0; i < n; ++i) k.ncomp += k.comp[i] == i; c.input(k.g.digest()); c.describe(k.g.str() + fmt(" components=%zu", k.ncomp)); c.interesting(k.ncomp > 1 && k.ncomp < n);
#if PART == 0
  for (int i = 0; i < 4; ++i) { std::execution::parallel_unsequenced_policy pu; auto el = make_el<directedness::undirected>(k.g); nwg::adjacency<0> a(el); nwg::adjacency<1> none(0); auto l = nwg::afforest(pu, a, none, c.rng.range(1, 2)); verify(c, "afforest-contended", k, l); }
#endif
  all(c, k);
}
NWV_FAMILY(chains, PART ? 100 : 400, 4000) { all(c, gen(c, 1)); }
NWV_FAMILY(small, PART ? 900 : 4000, 30000) { all(c, gen(c, 0)); }
NWV_FAMILY(empty, 3, 3) { Case k; k.g.n = c.index; k.comp = components(k.g); c.input(c.index); all(c, k); }
NWV_CONC_MAIN
