// nwv/nw.hpp: conversions between the reference representation and the library's types.
#pragma once
#include "gen.hpp"
#include <nwgraph/edge_list.hpp>
#include <nwgraph/adjacency.hpp>
#include <nwgraph/build.hpp>
#include <oneapi/tbb/global_control.h>
#include <memory>

namespace nwv {
namespace nwg = nw::graph;

template <nwg::directedness D, class... Attrs>
inline nwg::edge_list<D, Attrs...> make_el(const G& g, const std::vector<std::tuple<Attrs...>>& attrs = {}) {
  nwg::edge_list<D, Attrs...> el(g.n);
  el.open_for_push_back();
  for (size_t i = 0; i < g.e.size(); ++i) {
    if constexpr (sizeof...(Attrs) == 0) el.push_back(g.e[i].first, g.e[i].second);
    else std::apply([&](auto... a) { el.push_back(g.e[i].first, g.e[i].second, a...); }, attrs[i]);
  }
  el.close_for_push_back();
  return el;
}
// CSR of directed edges g (no attributes)
template <int idx = 0>
inline nwg::adjacency<idx> make_csr(const G& g, bool sorted = false) {
  auto el = make_el<nwg::directedness::directed>(g);
  nwg::adjacency<idx> a(el, sorted);
  return a;
}
template <int idx, class W>
inline nwg::adjacency<idx, W> make_csr_w(const G& g, const std::vector<W>& w, bool sorted = false) {
  std::vector<std::tuple<W>> at; at.reserve(w.size());
  for (auto& x : w) at.push_back({x});
  auto el = make_el<nwg::directedness::directed, W>(g, at);
  nwg::adjacency<idx, W> a(el, sorted);
  return a;
}
// rows of any library graph through iteration
template <class Graph>
inline Adj rows_of(Graph& g) {
  Adj a;
  for (auto&& row : g) { a.emplace_back(); for (auto&& x : row) a.back().push_back((V)nwg::target(g, x)); }
  return a;
}
inline std::vector<int>& thread_menu() { static std::vector<int> m{1, 2, 3, 4, 8}; return m; }
struct Threads {    // limit TBB parallelism for one case
  std::unique_ptr<tbb::global_control> gc; size_t n;
  explicit Threads(Rng& r) : n((size_t)r.pick(thread_menu())) { gc.reset(new tbb::global_control(tbb::global_control::max_allowed_parallelism, n)); }
  explicit Threads(size_t k) : n(k) { gc.reset(new tbb::global_control(tbb::global_control::max_allowed_parallelism, n)); }
};
}    // namespace nwv
