// P06: structure of arrays, array of structures and zips behave as one sequence of tuples.
// The reference model is a std::vector of tuples; every result is compared element by element.
#include <nwv/edges.hpp>
#include <nwgraph/containers/aos.hpp>
#include <nwgraph/containers/zip.hpp>
#include <deque>
#include <list>
#include <span>
using namespace nwv;
namespace ex = std::execution;

template <class T> static T rnd(Rng& r, int range) {
  if constexpr (std::is_same_v<T, std::string>) return std::string(1 + r.below(30), (char)('a' + r.below(3))) + std::to_string(r.below(range));
  else if constexpr (std::is_floating_point_v<T>) return (T)((int64_t)r.below(range) - range / 2) / 2;
  else return (T)r.below(range);
}
template <class Tp> struct RndTup;
template <class... A> struct RndTup<std::tuple<A...>> { static std::tuple<A...> get(Rng& r, int range) { return std::tuple<A...>{rnd<A>(r, range)...}; } };
template <class T> static std::vector<T> model(Rng& r, size_t n, int range) { std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(RndTup<T>::get(r, range)); return v; }
// the three kinds of sequence, each made from a model and read back through its underlying arrays
template <class T> struct Soa;
template <class... A> struct Soa<std::tuple<A...>> {
  static constexpr const char* name = "soa"; nwg::struct_of_arrays<A...> s;
  explicit Soa(const std::vector<std::tuple<A...>>& m) { for (auto& t : m) s.push_back(t); }
  auto& seq() { return s; }
  std::vector<std::tuple<A...>> read() const { std::vector<std::tuple<A...>> v; [&]<size_t... I>(std::index_sequence<I...>) { for (size_t i = 0; i < std::get<0>(s).size(); ++i) v.push_back({std::get<I>(s).at(i)...}); }(std::index_sequence_for<A...>{}); return v; }
};
template <class T> struct Aos;
template <class... A> struct Aos<std::tuple<A...>> {
  static constexpr const char* name = "aos"; nwg::array_of_structs<A...> s;
  explicit Aos(const std::vector<std::tuple<A...>>& m) { for (auto& t : m) s.push_back(t); }
  auto& seq() { return s; }
  std::vector<std::tuple<A...>> read() const { std::vector<std::tuple<A...>> v; for (size_t i = 0; i < s.size(); ++i) v.push_back(s.at(i)); return v; }
};
template <class T> struct Zip;
template <class A, class B> struct Zip<std::tuple<A, B>> {
  static constexpr const char* name = "zip"; std::vector<A> a; std::deque<B> b; nwg::zipped<std::vector<A>, std::deque<B>> s;
  explicit Zip(const std::vector<std::tuple<A, B>>& m) : s(nwg::make_zipped(a, b)) { for (auto& [x, y] : m) { a.push_back(x); b.push_back(y); } }
  auto& seq() { return s; }
  std::vector<std::tuple<A, B>> read() const { std::vector<std::tuple<A, B>> v; for (size_t i = 0; i < a.size(); ++i) v.push_back({a.at(i), b.at(i)}); return v; }
};
template <class A, class B, class C> struct Zip<std::tuple<A, B, C>> {    // the second component is itself a structure of arrays' column
  static constexpr const char* name = "zip3"; std::vector<A> a; std::vector<B> b; std::vector<C> d; nwg::zipped<std::vector<A>, std::vector<B>, std::vector<C>> s;
  explicit Zip(const std::vector<std::tuple<A, B, C>>& m) : s(nwg::make_zipped(a, b, d)) { for (auto& [x, y, z] : m) { a.push_back(x); b.push_back(y); d.push_back(z); } }
  auto& seq() { return s; }
  std::vector<std::tuple<A, B, C>> read() const { std::vector<std::tuple<A, B, C>> v; for (size_t i = 0; i < a.size(); ++i) v.push_back({a.at(i), b.at(i), d.at(i)}); return v; }
};

template <class T> static void same(Ctx& c, const std::string& op, const std::vector<T>& got, const std::vector<T>& want) {
  if (got.size() != want.size()) c.die(op, fmt("%zu elements instead of %zu", got.size(), want.size()));
  for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == want[i])) c.die(op, fmt("element %zu is %s instead of %s", i, show(got[i]).c_str(), show(want[i]).c_str()));
  c.count("elements compared", got.size()); c.count("operations checked");
}
template <class T, class It> static void at(Ctx& c, const std::string& op, It it, const T& want) { if (!(T(*it) == want)) c.die(op, show(T(*it)) + " instead of " + show(want)); }

template <class It> static auto arrow(It it) { auto p = it.operator->(); if constexpr (std::is_pointer_v<decltype(p)>) return *p; else return *p.operator->(); }
// a random walk of iterator operations, mirrored by an index
template <class T, class It> static void walk(Ctx& c, const std::string& nm, It first, It last, const std::vector<T>& m) {
  auto& r = c.rng; int64_t n = (int64_t)m.size();
  auto req = [&](bool ok, const char* what) { if (!ok) c.die(nm + ":" + what, "iterator identity violated"); };
  req(last - first == n && first - last == -n, "distance"); req((first == last) == (n == 0), "equal"); req(std::distance(first, last) == n, "std-distance");
  It it = first, jt = last; int64_t i = 0, j = n;
  for (int k = 0; k < 40; ++k) {
    int64_t d = r.range(-i, n - i);
    switch (r.below(14)) {
      case 0: if (i < n) { ++it; ++i; } break;
      case 1: if (i > 0) { --it; --i; } break;
      case 2: if (i < n) { It o = it++; req(o - first == i, "postincrement"); req(it - first == i + 1, "postincrement"); at(c, nm + ":postincrement", o, m[i]); ++i; } break;
      case 3: if (i > 0) { It o = it--; req(o - first == i && it - first == i - 1, "postdecrement"); --i; } break;
      case 4: it += d; i += d; break;
      case 5: it -= -d; i += d; break;
      case 6: it = it + d; i += d; break;
      case 7: it = d + it; i += d; break;
      case 8: it = it - (-d); i += d; break;
      case 9: { It o = it; std::swap(it, jt); std::swap(i, j); req(jt == o, "swap"); break; }
      case 10: { It o; o = it; req(o == it && !(o != it), "assign"); break; }
      case 11: if (n) { int64_t t = r.below(n); if (!(T(it[t - i]) == m[t])) c.die(nm + ":subscript", fmt("it[%lld] from %lld", (long long)(t - i), (long long)i)); } break;
      case 12: if (i < n) { if (!(std::get<0>(arrow(it)) == std::get<0>(m[i]))) c.die(nm + ":arrow", "-> reaches another element"); } break;
      default: if (i < n && i > 0) { auto rt = std::make_reverse_iterator(it); at(c, nm + ":reverse", rt, m[i - 1]); } break;
    }
    req(it - first == i && last - it == n - i && it - jt == i - j, "difference");
    req((it == jt) == (i == j) && (it != jt) == (i != j) && (it < jt) == (i < j) && (it <= jt) == (i <= j) && (it > jt) == (i > j) && (it >= jt) == (i >= j), "comparison");
    if (i < n) at(c, nm + ":dereference", it, m[i]);
    c.count("iterator steps");
  }
}
template <class T> struct SumTup;
template <class... A> struct SumTup<std::tuple<A...>> { static std::tuple<A...> add(const std::tuple<A...>& x, const std::tuple<A...>& y) { return [&]<size_t... I>(std::index_sequence<I...>) { return std::tuple<A...>{(A)(std::get<I>(x) + std::get<I>(y))...}; }(std::index_sequence_for<A...>{}); } };

template <template <class> class K, class T> static void seq(Ctx& c, bool large) {
  auto& r = c.rng; Threads th(r); using S = K<T>;
  size_t n = large ? 400 + r.below(c.thorough ? 8000 : 3000) : r.logsize(0, 60); int range = r.of<int>({2, 10, 1000, 1000000});
  auto m = model<T>(r, n, range); S x(m); const auto& cx = x.seq(); std::string nm = S::name;
  c.describe(fmt("%s n=%zu range=%d", nm.c_str(), n, range)); c.input(mix(n * 1000003 + range) ^ r.s); c.interesting(n > 1);
  same(c, nm + ":fill", x.read(), m);
  if (x.seq().size() != n) c.die(nm + ":size", "size()");
  { std::vector<T> v; for (auto&& t : x.seq()) v.push_back(T(t)); same(c, nm + ":iterate", v, m); v.clear(); for (auto&& t : cx) v.push_back(T(t)); same(c, nm + ":iterate-const", v, m); }
  walk<T>(c, nm + ":iterator", x.seq().begin(), x.seq().end(), m);
  walk<T>(c, nm + ":const_iterator", cx.begin(), cx.end(), m);
  if (n) for (int k = 0; k < 6; ++k) {    // writes through references
    size_t i = r.below(n), j = r.below(n); T t = RndTup<T>::get(r, range); auto it = x.seq().begin();
    switch (r.below(7)) {
      case 0: it[i] = t; m[i] = t; break;
      case 1: *(it + i) = t; m[i] = t; break;
      case 2: x.seq()[i] = t; m[i] = t; break;
      case 3: std::get<0>(it[i]) = std::get<0>(t); std::get<0>(m[i]) = std::get<0>(t); break;
      case 4: { auto&& ref = *(it + i); std::get<1>(ref) = std::get<1>(t); std::get<1>(m[i]) = std::get<1>(t); break; }
      case 5: std::swap(it[i], it[j]); std::swap(m[i], m[j]); break;
      default: { T a = it[i]; it[i] = it[j]; it[j] = a; std::swap(m[i], m[j]); }
    }
    same(c, nm + ":write", x.read(), m);
  }
  auto key = [](const auto& a, const auto& b) { return std::get<0>(a) < std::get<0>(b); };
  auto key1 = [](const auto& a, const auto& b) { return std::get<1>(a) < std::get<1>(b); };
  auto full = [](const auto& a, const auto& b) { return T(a) < T(b); };
  for (int step = 0; step < (large ? 3 : 5); ++step) {
    auto b = x.seq().begin(), e = x.seq().end(); size_t i = r.below(n + 1), j = i + r.below(n - i + 1);
    int op = (int)r.below(22); std::string on = nm;
    switch (op) {
      case 0: on += ":sort"; std::sort(b + i, b + j, full); std::sort(m.begin() + i, m.begin() + j); break;
      case 1: on += ":sort-par"; std::sort(ex::par_unseq, b + i, b + j, full); std::sort(m.begin() + i, m.begin() + j); break;
      case 2: on += ":stable_sort"; std::stable_sort(b + i, b + j, key); std::stable_sort(m.begin() + i, m.begin() + j, key); break;
      case 3: on += ":stable_sort-par"; std::stable_sort(ex::par_unseq, b + i, b + j, key1); std::stable_sort(m.begin() + i, m.begin() + j, key1); break;
      case 4: on += ":sort-default"; std::sort(b, e); std::sort(m.begin(), m.end()); break;
      case 5: on += ":reverse"; std::reverse(b + i, b + j); std::reverse(m.begin() + i, m.begin() + j); break;
      case 6: on += ":rotate"; { size_t k = i + r.below(j - i + 1); std::rotate(b + i, b + k, b + j); std::rotate(m.begin() + i, m.begin() + k, m.begin() + j); } break;
      case 7: on += ":transform"; { auto f = [](auto&& t) { T u(t); std::get<0>(u) = SumTup<T>::add(u, u) == u ? std::get<0>(u) : std::get<0>(SumTup<T>::add(u, u)); return u; }; std::transform(b + i, b + j, b + i, f); std::transform(m.begin() + i, m.begin() + j, m.begin() + i, f); } break;
      case 8: on += ":transform-par"; { auto f = [](auto&& t) { T u(t); std::get<1>(u) = std::get<1>(SumTup<T>::add(u, u)); return u; }; std::transform(ex::par_unseq, b + i, b + j, b + i, f); std::transform(m.begin() + i, m.begin() + j, m.begin() + i, f); } break;
      case 9: on += ":inclusive_scan"; if (n > 200) break; { auto f = [](const auto& p, const auto& q) { return SumTup<T>::add(T(p), T(q)); }; if (r.coin()) { T z = RndTup<T>::get(r, 5); std::inclusive_scan(b + i, b + j, b + i, f, z); std::inclusive_scan(m.begin() + i, m.begin() + j, m.begin() + i, f, z); } else { std::partial_sum(b + i, b + j, b + i, f); std::partial_sum(m.begin() + i, m.begin() + j, m.begin() + i, f); } } break;
      case 10: on += ":exclusive_scan"; if (n > 200) break; { auto f = [](const auto& p, const auto& q) { return SumTup<T>::add(T(p), T(q)); }; T z = RndTup<T>::get(r, 5); std::exclusive_scan(b + i, b + j, b + i, z, f); std::exclusive_scan(m.begin() + i, m.begin() + j, m.begin() + i, z, f); } break;
      case 11: on += ":copy"; { S y(model<T>(r, n, range)); std::copy(ex::par_unseq, b, e, y.seq().begin()); same(c, on, y.read(), m); } break;
      case 12: on += ":copy_backward"; { size_t k = r.below(n - j + 1); std::copy_backward(b + i, b + j, b + j + k); std::copy_backward(m.begin() + i, m.begin() + j, m.begin() + j + k); } break;
      case 13: on += ":remove_if"; { auto p = [](const auto& t) { T u(t); return u < SumTup<T>::add(u, u); }; auto q = std::remove_if(b, e, p); auto w = std::remove_if(m.begin(), m.end(), p); if (q - b != w - m.begin()) c.die(on, "different count"); size_t k = (size_t)(w - m.begin()); auto g = x.read(); g.resize(k); auto h = m; h.resize(k); same(c, on, g, h); m = x.read(); } break;
      case 14: on += ":unique"; std::stable_sort(b, e, key); std::stable_sort(m.begin(), m.end(), key); { auto eq = [](const auto& p, const auto& q) { return std::get<0>(p) == std::get<0>(q); }; auto q = std::unique(b, e, eq); auto w = std::unique(m.begin(), m.end(), eq); if (q - b != w - m.begin()) c.die(on, "different count"); size_t k = (size_t)(w - m.begin()); auto g = x.read(); g.resize(k); auto h = m; h.resize(k); same(c, on, g, h); m = x.read(); } break;
      case 15: on += ":lower_bound"; { std::stable_sort(b, e, full); std::stable_sort(m.begin(), m.end()); T t = n && r.coin() ? m[r.below(n)] : RndTup<T>::get(r, range); auto p = std::lower_bound(b, e, t, full) - b; auto q = std::upper_bound(b, e, t, full) - b; if (p != std::lower_bound(m.begin(), m.end(), t) - m.begin() || q != std::upper_bound(m.begin(), m.end(), t) - m.begin()) c.die(on, "bounds differ"); } break;
      case 16: on += ":nth_element"; if (i < j) { size_t k = i + r.below(j - i); auto ref = m; std::nth_element(b + i, b + k, b + j, full); std::nth_element(ref.begin() + i, ref.begin() + k, ref.begin() + j); auto g = x.read(); if (!(g[k] == ref[k])) c.die(on, "the nth element differs"); for (size_t q = i; q < j; ++q) if (q < k ? g[k] < g[q] : g[q] < g[k]) c.die(on, "not partitioned"); same(c, on, sorted(g), sorted(m)); m = g; } break;
      case 17: on += ":partition"; { auto p = [&](const auto& t) { return std::get<0>(T(t)) < std::get<0>(SumTup<T>::add(T(t), T(t))); }; std::stable_partition(m.begin(), m.end(), p); std::stable_partition(b, e, p); } break;
      case 18: on += ":for_each-par"; std::for_each(ex::par_unseq, b + i, b + j, [](auto&& t) { std::get<0>(t) = std::get<0>(SumTup<T>::add(T(t), T(t))); }); for (size_t k = i; k < j; ++k) std::get<0>(m[k]) = std::get<0>(SumTup<T>::add(m[k], m[k])); break;
      case 19: on += ":merge"; { std::sort(b + i, b + j, full); std::sort(b + j, e, full); std::sort(m.begin() + i, m.begin() + j); std::sort(m.begin() + j, m.end()); std::inplace_merge(b + i, b + j, e, full); std::inplace_merge(m.begin() + i, m.begin() + j, m.end()); } break;
      case 20: on += ":heap"; std::make_heap(b, e, full); std::sort_heap(b, e, full); std::sort(m.begin(), m.end()); break;
      default: on += ":count"; { auto p = [&](const auto& t) { return n && std::get<0>(t) == std::get<0>(m[0]); }; if (std::count_if(ex::par_unseq, b, e, p) != std::count_if(m.begin(), m.end(), p)) c.die(on, "different count"); if (n) { T t = m[r.below(n)]; if (std::find(b, e, t) - b != std::find(m.begin(), m.end(), t) - m.begin()) c.die(on, "find"); } }
    }
    same(c, on, x.read(), m);
  }
  {    // comparing whole sequences
    S y(m); if (!(x.seq() == y.seq())) c.die(nm + ":equal", "equal sequences compare different");
    auto m2 = m; if (n) { size_t i = r.below(n); if (r.coin()) m2.pop_back(); else std::get<1>(m2[i]) = std::get<1>(SumTup<T>::add(m2[i], RndTup<T>::get(r, 1000000))); }
    S z(m2); bool want = m == m2; if ((x.seq() == z.seq()) != want || (z.seq() == x.seq()) != want) c.die(nm + ":equal", fmt("sequences of %zu and %zu elements compare wrongly", m.size(), m2.size()));
    if ((x.seq() != z.seq()) == want) c.die(nm + ":unequal", "!= disagrees with ==");
  }
}
// container operations of the structure of arrays
template <class... A> static void soa_ops(Ctx& c) {
  using S = nwg::struct_of_arrays<A...>; using T = std::tuple<A...>; auto& r = c.rng; Threads th(r);
  auto cols = [&](const std::vector<T>& m) { std::tuple<std::vector<A>...> v; for (auto& t : m) [&]<size_t... I>(std::index_sequence<I...>) { (std::get<I>(v).push_back(std::get<I>(t)), ...); }(std::index_sequence_for<A...>{}); return v; };
  auto read = [](const S& s) { std::vector<T> v; [&]<size_t... I>(std::index_sequence<I...>) { const size_t n = s.size(); if (((std::get<I>(s).size() != n) || ...)) { v.assign(n + 1, T{}); return; } for (size_t i = 0; i < n; ++i) v.push_back({std::get<I>(s).at(i)...}); }(std::index_sequence_for<A...>{}); return v; };
  std::vector<T> m; std::unique_ptr<S> s;
  size_t n = r.logsize(0, 30);
  auto fresh = [&] { return model<T>(r, r.coin(0.3) ? 0 : r.below(30), 50); };
  switch (r.below(6)) {
    case 0: s.reset(new S()); break;
    case 1: s.reset(new S(n)); m.assign(n, T{}); break;
    case 2: m = fresh(); std::apply([&](auto&... v) { s.reset(new S(v...)); }, *std::make_unique<std::tuple<std::vector<A>...>>(cols(m))); break;
    case 3: m = fresh(); { auto v = cols(m); s.reset(new S(v)); } break;
    case 4: m = fresh(); s.reset(new S(cols(m))); break;
    default: { auto a = RndTup<T>::get(r, 9), b = RndTup<T>::get(r, 9); s.reset(new S{a, b, a}); m = {a, b, a}; }
  }
  same(c, "construct", read(*s), m);
  c.interesting();
  size_t steps = 1 + r.below(25);
  for (size_t k = 0; k < steps; ++k) {
    std::string op; T t = RndTup<T>::get(r, 50);
    switch (r.below(12)) {
      case 0: op = "push_back args"; std::apply([&](auto... a) { s->push_back(a...); }, t); m.push_back(t); break;
      case 1: op = "push_back tuple"; s->push_back(t); m.push_back(t); break;
      case 2: op = "push_at"; if (m.empty()) break; { size_t i = r.below(m.size()); if (r.coin()) s->push_at(i, t); else std::apply([&](auto... a) { s->push_at(i, a...); }, t); m[i] = t; } break;
      case 3: op = "resize"; { size_t z = r.below(40); s->resize(z); m.resize(z); } break;
      case 4: op = "reserve"; s->reserve(r.below(200)); break;
      case 5: op = "clear"; if (r.coin(0.3)) { s->clear(); m.clear(); } break;
      case 6: op = "copy object"; { S o(*s); o.push_back(t); same(c, "original after changing its copy", read(*s), m); auto m2 = m; m2.push_back(t); same(c, "copy", read(o), m2); *s = o; m = m2; } break;
      case 7: op = "move object"; { S o(std::move(*s)); *s = S(); *s = std::move(o); } break;
      case 8: op = "move columns"; { m = fresh(); auto v = cols(m); std::apply([&](auto&... w) { s->move(std::move(w)...); }, v); } break;
      case 9: op = "move tuple of columns"; { m = fresh(); s->move(cols(m)); } break;
      case 10: op = "copy columns"; { m = fresh(); s->resize(m.size()); auto v = cols(m); if (r.coin()) s->copy(v); else std::apply([&](auto&... w) { s->copy(w...); }, v); } break;
      default: op = "index"; if (!m.empty()) { size_t i = r.below(m.size()); const S& cs = *s; if (!(T(cs[i]) == m[i]) || !(T(*(cs.cbegin() + i)) == m[i]) || cs.cend() - cs.cbegin() != (std::ptrdiff_t)m.size()) c.die("index", "element differs"); }
    }
    if (s->size() != m.size()) c.die(op, fmt("size %zu instead of %zu", s->size(), m.size()));
    same(c, op, read(*s), m);
    c.input(mix(m.size() * 31 + k));
  }
  c.input(r.s);
}
#if PART == 0
using T0 = std::tuple<uint32_t, double>;
NWV_FAMILY(soa, 1500, 50000) { seq<Soa, T0>(c, false); }
NWV_FAMILY(soa_large, 60, 2000) { seq<Soa, T0>(c, true); }
NWV_FAMILY(soa_operations, 1500, 50000) { soa_ops<uint32_t, double>(c); }
NWV_FAMILY(soa_operations_labels, 800, 30000) { soa_ops<std::string, int, double>(c); }
#elif PART == 1
using T1 = std::tuple<uint32_t, double, int64_t>;
NWV_FAMILY(soa3, 1500, 50000) { seq<Soa, T1>(c, false); }
NWV_FAMILY(soa3_large, 60, 2000) { seq<Soa, T1>(c, true); }
#elif PART == 2
using T2 = std::tuple<uint32_t, double>;
NWV_FAMILY(zip, 1500, 50000) { seq<Zip, T2>(c, false); }
NWV_FAMILY(zip_large, 60, 2000) { seq<Zip, T2>(c, true); }
#elif PART == 3
using T3 = std::tuple<uint32_t, double, int64_t>;
NWV_FAMILY(zip3, 1500, 50000) { seq<Zip, T3>(c, false); }
NWV_FAMILY(zip3_large, 60, 2000) { seq<Zip, T3>(c, true); }
#else
using T4 = std::tuple<uint32_t, double>;
NWV_FAMILY(aos, 1000, 30000) { seq<Aos, T4>(c, false); }
NWV_FAMILY(aos_large, 40, 1000) { seq<Aos, T4>(c, true); }
#endif
NWV_MAIN
