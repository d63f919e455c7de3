// P17: triangle counting counts each triangle once.
#include <nwv/conc.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/adaptors/cyclic_range_adaptor.hpp>
#include <nwgraph/util/parallel_for.hpp>
#include <nwgraph/vovos.hpp>
#include <nwgraph/algorithms/triangle_count.hpp>
#if PART == 1
#include <nwgraph/experimental/algorithms/triangle_count.hpp>
#endif
using namespace nwv;
using nwg::directedness;

struct Case { G up, lo; uint64_t want = 0; };
static Case gen(Ctx& c, int size) {
  Case k; GenOpt o; o.simple_undirected = true;
  if (size == 3) k.up = c.rng.coin(0.3) ? clique_graph(c.rng, 260 + c.rng.below(80)) : scale_graph(c.rng, true, false, false); else
  if (size == 2) { size_t n = c.rng.logsize(300, 4000); k.up = big_graph(c.rng, n, (size_t)(n * (1 + 10 * c.rng.unit())), o); }
  else if (size == 1) {    // dense: many triangles, long overlapping rows
    size_t n = 20 + c.rng.below(180); k.up.n = n; k.up.kind = "dense"; double p = c.rng.of({0.2, 0.5, 0.9, 1.0});
    for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (c.rng.coin(p)) k.up.e.push_back({(V)i, (V)j});
    c.rng.shuffle(k.up.e);
  } else { o.max_n = c.rng.of({3, 8, 20, 60, 120}); o.density = c.rng.of({3, 8, 14}); k.up = random_graph(c.rng, o); }
  for (auto& e : k.up.e) if (e.first > e.second) std::swap(e.first, e.second);
  k.lo = transpose(k.up); k.want = triangles(k.up);
  c.input(k.up.digest()); c.describe(k.up.str() + fmt(" triangles=%llu", (unsigned long long)k.want)); c.interesting(k.want > 0);
  return k;
}
static void ver(Ctx& c, const std::string& A, const Case& k, double got) {
  if (got != (double)k.want) c.fail(A, fmt("%.0f triangles instead of %llu", got, (unsigned long long)k.want));
  c.count(A + " runs"); c.count("triangles", k.want);
}
static size_t nthreads(Rng& r) { return r.coin(0.1) ? 17 + (size_t)r.below(r.coin(0.2) ? 300 : 60) : (size_t)r.of({1, 2, 3, 5, 7, 8, 13, 16}); }
#if PART == 0
static void all(Ctx& c, const Case& k) {
  Threads th(c.rng);
  auto u = make_csr<0>(k.up, true), l = make_csr<0>(k.lo, true);
  ver(c, "triangle_count(upper)", k, (double)nwg::triangle_count(u));
  ver(c, "triangle_count(lower)", k, (double)nwg::triangle_count(l));
  for (int i = 0; i < 3; ++i) ver(c, "triangle_count(upper,threads)", k, (double)nwg::triangle_count(u, nthreads(c.rng)));
  if (c.rng.coin(0.3)) {
    auto el = make_el<directedness::directed>(k.up); auto w = k.up;
    nwg::sort_by<1>(el); nwg::stable_sort_by<0>(el);
    nwg::vov<0> v(el);
    ver(c, "triangle_count(vov)", k, (double)nwg::triangle_count(v));
    ver(c, "triangle_count(vov,threads)", k, (double)nwg::triangle_count(v, nthreads(c.rng)));
    nwg::adjacency<1> l1(el, true);
    ver(c, "triangle_count(by-target)", k, (double)nwg::triangle_count(l1));
    std::vector<std::tuple<double>> at(k.up.e.size()); auto ew = make_el<directedness::directed, double>(k.up, at);
    nwg::adjacency<0, double> aw(ew, true);
    ver(c, "triangle_count(weighted)", k, (double)nwg::triangle_count(aw));
    ver(c, "triangle_count(weighted,threads)", k, (double)nwg::triangle_count(aw, nthreads(c.rng)));
  }
  if (c.rng.coin(0.3)) {    // the documented preparation: degree relabelling, triangularising, sorting
    auto el = make_el<directedness::undirected>(k.up);
    if (c.rng.coin(0.7)) nwg::relabel_by_degree<0>(el, c.rng.coin() ? "ascending" : "descending");
    bool up = c.rng.coin();
    nwg::swap_to_triangular<0>(el, up ? nwg::succession::successor : nwg::succession::predecessor);
    nwg::lexical_sort_by<0>(el); nwg::uniq(el);
    nwg::adjacency<0> a(k.up.n); nwg::push_back_fill(el, a);
    ver(c, "triangle_count(prepared)", k, (double)nwg::triangle_count(a));
    if (up) ver(c, "triangle_count(prepared,threads)", k, (double)nwg::triangle_count(a, nthreads(c.rng)));
  }
}
#else
static void all(Ctx& c, const Case& k) {
  Threads th(c.rng);
  auto u = make_csr<0>(k.up, true), l = make_csr<0>(k.lo, true);
  size_t t = nthreads(c.rng); int stride = (int)c.rng.of({1, 2, 3, 7, 16, 64}), s0 = std::min<int>(stride, std::max<int>(1, (int)k.up.n));
  for (auto* g : {&u, &l}) {
    std::string o = g == &u ? "(upper)" : "(lower)";
    ver(c, "vc" + o, k, (double)nwg::triangle_count_vc(*g));
    ver(c, "v15" + o, k, (double)nwg::triangle_count_v15(*g));
    ver(c, "v2" + o, k, (double)nwg::triangle_count_v2(*g));
    ver(c, "v3" + o, k, (double)nwg::triangle_count_v3(*g));
    ver(c, "v6" + o, k, (double)nwg::triangle_count_v6(g->begin(), g->end(), t));
    ver(c, "v10" + o, k, (double)nwg::triangle_count_v10(*g));
    ver(c, "v10seq" + o, k, (double)nwg::triangle_count_v10(*g, std::execution::seq, std::execution::seq, std::execution::par));
    ver(c, "v13" + o, k, (double)nwg::triangle_count_v13(*g, s0));
    ver(c, "v14" + o, k, (double)nwg::triangle_count_v14(*g));
    ver(c, "edgesplit" + o, k, (double)nwg::triangle_count_edgesplit(*g, t));
  }
  ver(c, "v1", k, (double)nwg::triangle_count_v1(u));
  ver(c, "v4", k, (double)nwg::triangle_count_v4(u.begin(), u.end(), t));
  ver(c, "v5", k, (double)nwg::triangle_count_v5(u.begin(), u.end(), t));
  ver(c, "v7", k, (double)nwg::triangle_count_v7(u));
  ver(c, "v7par", k, (double)nwg::triangle_count_v7(u, std::execution::par, std::execution::par));
  ver(c, "v12", k, (double)nwg::triangle_count_v12(u, s0));
  ver(c, "v14par", k, (double)nwg::triangle_count_v14(u, std::execution::par));
  ver(c, "edgesplit_upper", k, (double)nwg::triangle_count_edgesplit_upper(u, t));
}
#endif
NWV_FAMILY(big, PART ? 30 : 120, 2000) { all(c, gen(c, 2)); }
#if PART == 0
NWV_FAMILY(scale, 2, 80) { all(c, gen(c, 3)); }
#endif
NWV_FAMILY(dense, PART ? 30 : 120, 2000) { all(c, gen(c, 1)); }
NWV_FAMILY(small, PART ? 600 : 2500, 40000) { all(c, gen(c, 0)); }
NWV_FAMILY(empty, 3, 3) { Case k; k.up.n = k.lo.n = c.index; c.input(c.index); all(c, k); }
NWV_CONC_MAIN
