// nwv/edges.hpp: edge lists with attributes as vectors of tuples, and multiset comparison.
#pragma once
#include "nw.hpp"
namespace nwv {
template <class... A> using Tup = std::tuple<V, V, A...>;
// attribute values are derived from a unique id, so that a value identifies the edge it was pushed with
template <class T> T attr_of(uint64_t id) {
  if constexpr (std::is_same_v<T, std::string>) return "edge-with-a-rather-long-label-" + std::to_string(id);
  else if constexpr (std::is_floating_point_v<T>) return (T)id + (T)0.5;
  else return (T)(id * 2654435761u);
}
template <class... A> std::vector<Tup<A...>> with_attrs(const G& g) {
  std::vector<Tup<A...>> v; uint64_t id = 0;
  for (auto& [a, b] : g.e) { v.push_back(Tup<A...>{a, b, attr_of<A>(id)...}); ++id; }
  return v;
}
template <class EL, class T> void push_all(EL& el, const std::vector<T>& v) {
  el.open_for_push_back();
  for (auto& t : v) std::apply([&](auto... x) { el.push_back(x...); }, t);
  el.close_for_push_back();
}
template <class EL> auto content(const EL& el) {
  using T = typename EL::element; std::vector<T> v;
  for (auto&& e : el) v.push_back(T(e));
  return v;
}
template <class T> T swapped(T t) { std::swap(std::get<0>(t), std::get<1>(t)); return t; }
// (row, target, attributes...) triples of a compressed graph, in iteration order
template <class T, class Graph> std::vector<T> csr_content(Graph&& g) {
  std::vector<T> v; V u = 0;
  for (auto&& row : g) { for (auto&& x : row) v.push_back(std::tuple_cat(std::tuple<V>(u), x)); ++u; }
  return v;
}
template <class T> std::vector<T> sorted(std::vector<T> v) { std::sort(v.begin(), v.end()); return v; }
template <class T> std::string show(const T& t) { std::string s = "("; std::apply([&](auto&&... x) { ((s += ([&] { if constexpr (std::is_convertible_v<decltype(x), std::string>) return std::string(x); else return std::to_string(x); }()) + " "), ...); }, t); return s + ")"; }
// the multiset difference in words, empty when equal
template <class T> std::string differ(std::vector<T> got, std::vector<T> want) {
  if (got.size() != want.size()) return fmt("%zu entries instead of %zu", got.size(), want.size());
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) return "sorted entry " + std::to_string(i) + " is " + show(got[i]) + " instead of " + show(want[i]);
  return "";
}
}    // namespace nwv
