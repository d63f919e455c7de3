// P12: every BFS returns a shortest-hop tree of the reachable set (library proper).
#include "P12_common.hpp"
#include <nwgraph/vovos.hpp>
#include <nwgraph/algorithms/bfs.hpp>

template <class Go, class Gi>
static void run_do(Ctx& c, const Setup& s, const Go& go, const Gi& gi) {
  int al = pick_alpha(c.rng), be = pick_beta(c.rng), bins = c.rng.of({1, 2, 3, 5, 8, 31, 32, 33, 64});
  c.describe(fmt("bins=%d alpha=%d beta=%d", bins, al, be));
  check_tree(c, "bfs-do", s.out, s.lev, s.root, nwg::bfs(go, gi, (V)s.root, bins, al, be));
}
NWV_FAMILY(huge, 2, 12) {
  Setup s = finish(c, huge_graph(c));
  Perturb::rate().store(0);
  Threads t(8);
  auto a = make_csr<0>(s.g); auto b = make_csr<1>(s.g);
  for (int beta : {1, 2, 18}) check_tree(c, "bfs-do", s.out, s.lev, s.root, nwg::bfs(a, b, (V)s.root, 32, 15, beta));
}
NWV_FAMILY(big, 120, 2500) {
  before(c);
  Setup s = finish(c, big_one(c));
  Threads t(c.rng);
  auto a = make_csr<0>(s.g, c.rng.coin()); auto b = make_csr<1>(s.g, c.rng.coin());
  check_tree(c, "bfs", s.out, s.lev, s.root, nwg::bfs(a, (V)s.root));
  for (int k = 0; k < 4; ++k) run_do(c, s, a, b);
  check_tree(c, "bfs-do-default", s.out, s.lev, s.root, nwg::bfs(a, b, (V)s.root));
}
NWV_FAMILY(scale, 4, 60) {
  Setup s = finish(c, deep_one(c)); Perturb::rate().store(0); Threads t(c.rng);
  auto a = make_csr<0>(s.g); auto b = make_csr<1>(s.g);
  check_tree(c, "bfs", s.out, s.lev, s.root, nwg::bfs(a, (V)s.root)); run_do(c, s, a, b);
}
NWV_FAMILY(contended, 200, 6000) {    // several frontier vertices competing for the same successors
  before(c);
  Setup s = finish(c, contended_graph(c));
  Threads th(c.rng.of({2, 4, 8}));
  auto a = make_csr<0>(s.g); auto b = make_csr<1>(s.g);
  for (int k = 0; k < 6; ++k) run_do(c, s, a, b);
}
NWV_FAMILY(small, 1200, 30000) {
  before(c);
  Setup s = finish(c, small_one(c));
  Threads t(c.rng);
  auto a = make_csr<0>(s.g, c.rng.coin()); auto b = make_csr<1>(s.g, c.rng.coin());
  check_tree(c, "bfs", s.out, s.lev, s.root, nwg::bfs(a, (V)s.root));
  run_do(c, s, a, b); run_do(c, s, a, b);
  check_tree(c, "bfs-do-default", s.out, s.lev, s.root, nwg::bfs(a, b, (V)s.root));
}
NWV_FAMILY(weighted_and_containers, 250, 5000) {    // edges carrying attributes; other containers
  before(c);
  Setup s = finish(c, small_one(c));
  Threads t(c.rng);
  std::vector<double> w(s.g.e.size()); for (auto& x : w) x = c.rng.unit();
  auto a = make_csr_w<0, double>(s.g, w); auto b = make_csr_w<1, double>(s.g, w);
  check_tree(c, "bfs", s.out, s.lev, s.root, nwg::bfs(a, (V)s.root));
  run_do(c, s, a, b);
  auto el = make_el<nwg::directedness::directed>(s.g);
  nwg::vov<0> x(el); check_tree(c, "bfs-vov", s.out, s.lev, s.root, nwg::bfs(x, (V)s.root));
  std::vector<std::vector<V>> plain = s.out;
  check_tree(c, "bfs-stdvec", s.out, s.lev, s.root, nwg::bfs(plain, (V)s.root));
}
int main(int argc, char** argv) { return run_main(argc, argv); }
