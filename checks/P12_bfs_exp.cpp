// P12: every BFS returns a shortest-hop tree of the reachable set (experimental variants).
#include "P12_common.hpp"
#include <nwgraph/experimental/algorithms/bfs.hpp>

template <class A, class B>
static void run_all(Ctx& c, const Setup& s, const A& a, const B& b) {
  check_tree(c, "bfs_v1", s.out, s.lev, s.root, nwg::bfs_v1(a, b, (V)s.root, 32, pick_alpha(c.rng), pick_beta(c.rng)));
  check_tree(c, "bfs_v2", s.out, s.lev, s.root, nwg::bfs_v2(a, b, (V)s.root, 32, pick_alpha(c.rng), pick_beta(c.rng)));
  check_tree(c, "bfs_v6", s.out, s.lev, s.root, nwg::bfs_v6(a, (V)s.root));
  check_tree(c, "bfs_v7", s.out, s.lev, s.root, nwg::bfs_v7(a, (V)s.root));
  check_tree(c, "bfs_v8", s.out, s.lev, s.root, nwg::bfs_v8(a, (V)s.root));
  check_tree(c, "bfs_v9", s.out, s.lev, s.root, nwg::bfs_v9(a, (V)s.root));
  check_tree(c, "bfs_top_down", s.out, s.lev, s.root, nwg::bfs_top_down(a, (V)s.root));
  check_tree(c, "bfs_top_down_bitmap", s.out, s.lev, s.root, nwg::bfs_top_down_bitmap(a, (V)s.root));
  check_tree(c, "bfs_bottom_up", s.out, s.lev, s.root, nwg::bfs_bottom_up(a, b, (V)s.root));
}
NWV_FAMILY(x_huge, 1, 6) {
  Setup s = finish(c, huge_graph(c));
  Perturb::rate().store(0);
  Threads t(8);
  auto a = make_csr<0>(s.g); auto b = make_csr<1>(s.g);
  for (int beta : {1, 18}) {
    check_tree(c, "bfs_v1", s.out, s.lev, s.root, nwg::bfs_v1(a, b, (V)s.root, 32, 15, beta));
    check_tree(c, "bfs_v2", s.out, s.lev, s.root, nwg::bfs_v2(a, b, (V)s.root, 32, 15, beta));
  }
}
NWV_FAMILY(x_big, 50, 1000) { before(c); Setup s = finish(c, big_one(c, 6000)); Threads t(c.rng); auto a = make_csr<0>(s.g); auto b = make_csr<1>(s.g); run_all(c, s, a, b); }
NWV_FAMILY(x_contended, 100, 2500) { before(c); Setup s = finish(c, contended_graph(c)); Threads t(c.rng.of({2, 4, 8})); auto a = make_csr<0>(s.g); auto b = make_csr<1>(s.g); run_all(c, s, a, b); }
NWV_FAMILY(x_small, 500, 10000) { before(c); Setup s = finish(c, small_one(c)); Threads t(c.rng); auto a = make_csr<0>(s.g, c.rng.coin()); auto b = make_csr<1>(s.g, c.rng.coin()); run_all(c, s, a, b); }
int main(int argc, char** argv) { return run_main(argc, argv); }
