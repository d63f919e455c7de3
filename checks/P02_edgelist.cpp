// P02: edge lists keep exactly what was pushed.  A pool of edge lists is driven by a random history and compared
// with a reference model (a vector of tuples and two counters) after every operation.
#include <nwv/edges.hpp>
using namespace nwv;
using nwg::directedness;

template <class... A> struct Model { std::vector<Tup<A...>> e; size_t n[2] = {0, 0}; };

template <bool bip, directedness D, class... A> struct Pool {
  using EL = std::conditional_t<bip, nwg::bi_edge_list<D, A...>, nwg::edge_list<D, A...>>;
  using T = Tup<A...>; using M = Model<A...>;
  Ctx& c; uint64_t id = 0; std::string op;
  std::vector<std::unique_ptr<EL>> els; std::vector<M> ms;
  explicit Pool(Ctx& c) : c(c) {}
  static std::unique_ptr<EL> make(size_t a, size_t b) { if constexpr (bip) return std::make_unique<EL>(a, b); else return std::make_unique<EL>(a); }
  T edge(size_t range) { return T{(V)c.rng.below(range), (V)c.rng.below(range), attr_of<A>(id++)...}; }
  void grow(M& m, const T& t) {
    V a = std::get<0>(t), b = std::get<1>(t);
    if (bip) { m.n[0] = std::max<size_t>(m.n[0], a + 1ul); m.n[1] = std::max<size_t>(m.n[1], b + 1ul); }
    else m.n[0] = std::max<size_t>(m.n[0], std::max(a, b) + 1ul);
    m.e.push_back(t);
  }
  void verify(size_t k) {
    EL& el = *els[k]; const EL& cel = el; M& m = ms[k];
    auto bad = [&](const char* what, const std::string& s) { c.die(what, op + ": list " + std::to_string(k) + ": " + s); };
    if (el.size() != m.e.size() || el.num_edges() != m.e.size() || nwg::num_edges(cel) != m.e.size()) bad("num_edges", fmt("size %zu num_edges %zu instead of %zu", (size_t)el.size(), (size_t)el.num_edges(), m.e.size()));
    if ((size_t)nwg::num_vertices(cel) != m.n[0] || (size_t)el.num_vertices()[0] != m.n[0]) bad("num_vertices", fmt("%zu instead of %zu", (size_t)nwg::num_vertices(cel), m.n[0]));
    if constexpr (bip) if ((size_t)nwg::num_vertices(cel, 0) != m.n[0] || (size_t)nwg::num_vertices(cel, 1) != m.n[1] || (size_t)el.num_vertices()[1] != m.n[1]) bad("num_vertices1", fmt("%zu instead of %zu", (size_t)nwg::num_vertices(cel, 1), m.n[1]));
    if ((size_t)(el.end() - el.begin()) != m.e.size() || (size_t)(cel.end() - cel.begin()) != m.e.size()) bad("distance", "end - begin is not the number of edges");
    size_t i = 0;
    for (auto&& x : el) {
      if (i >= m.e.size()) bad("content", "iteration runs past the edges pushed");
      if (!(T(x) == m.e[i])) bad("content", fmt("edge %zu is %s instead of %s", i, show(T(x)).c_str(), show(m.e[i]).c_str()));
      if (nwg::source(el, x) != std::get<0>(m.e[i]) || nwg::target(el, x) != std::get<1>(m.e[i])) bad("endpoint", fmt("source/target of edge %zu", i));
      ++i;
    }
    if (i != m.e.size()) bad("content", "iteration stops early");
    i = 0;
    for (auto it = cel.cbegin(); it != cel.cend(); ++it, ++i) if (!(T(*it) == m.e[i])) bad("const-content", fmt("edge %zu", i));
    if (!m.e.empty()) { size_t j = c.rng.below(m.e.size()); if (!(T(el[j]) == m.e[j]) || !(T(cel[j]) == m.e[j]) || !(T(el.begin()[j]) == m.e[j])) bad("index", fmt("edge %zu by index", j)); }
    c.count("states compared"); c.count("edges compared", m.e.size());
  }
  void add(std::unique_ptr<EL> e, M m) { els.push_back(std::move(e)); ms.push_back(std::move(m)); }
  void run(size_t steps) {
    auto& r = c.rng;
    { size_t a = r.below(10), b = r.below(10); M m; m.n[0] = a; m.n[1] = bip ? b : 0; add(make(a, b), m); op = "construct"; verify(0); }
    size_t range = r.of<size_t>({1, 3, 8, 40, 1000, 70000, 0xffffffffu});
    for (size_t s = 0; s < steps; ++s) {
      size_t k = r.below(els.size()); EL& el = *els[k]; M& m = ms[k];
      switch (r.below(16)) {
        case 0: case 1: case 2: { op = "push arguments"; el.open_for_push_back(); for (size_t i = r.below(6); i-- > 0;) { auto t = edge(range); grow(m, t); std::apply([&](auto... x) { el.push_back(x...); }, t); } el.close_for_push_back(); break; }
        case 3: case 4: { op = "push tuples"; el.open_for_push_back(); for (size_t i = r.below(6); i-- > 0;) { auto t = edge(range); grow(m, t); el.push_back(t); } if (r.coin()) el.close_for_push_back(); break; }
        case 5: { op = "open and close"; el.open_for_push_back(); el.close_for_push_back(); break; }
        case 6: { op = "reserve"; el.reserve(r.below(100)); break; }
        case 7: { if (!r.coin(0.4)) break; op = "clear"; el.clear(); m.e.clear(); break; }
        case 8: { if (els.size() > 6) break; op = "copy construct"; add(std::make_unique<EL>(el), m); verify(els.size() - 1); break; }
        case 9: { size_t j = r.below(els.size()); op = "copy assign"; *els[j] = el; ms[j] = M(m); verify(j); break; }
        case 10: { if (els.size() > 6) break; op = "move construct"; auto copy = el; M mm = m; add(std::make_unique<EL>(std::move(copy)), mm); verify(els.size() - 1); break; }
        case 11: { size_t j = r.below(els.size()); if (j == k) break; op = "move assign"; auto copy = el; *els[j] = std::move(copy); ms[j] = M(m); verify(j); break; }
        case 12: {
          op = "compare"; size_t j = r.below(els.size()); bool want = ms[j].e == m.e && ms[j].n[0] == m.n[0] && ms[j].n[1] == m.n[1];
          bool eq = el == *els[j], ne = el != *els[j];
          if (eq != want || ne == want) c.die("compare", fmt("lists %zu and %zu compare %s, != %s, but they are %s", k, j, eq ? "equal" : "unequal", ne ? "true" : "false", want ? "equal" : "different"));
          EL other(el); M om(m);
          if (r.coin() && !om.e.empty()) {    // change one thing
            size_t i = r.below(om.e.size());
            if constexpr (sizeof...(A) > 0) { if (r.coin()) std::get<2>(other[i]) = attr_of<std::tuple_element_t<0, std::tuple<A...>>>(1000000 + id++); else std::get<1>(other[i]) ^= 1; } else std::get<0>(other[i]) ^= 1;
            if (el == other || !(el != other) || other == el) c.die("compare-changed", fmt("a list that differs from its copy at edge %zu compares equal", i));
          } else if (!(el == other) || el != other) c.die("compare-copy", "a list differs from its copy");
          c.count("comparisons");
          break;
        }
        case 13: { if (els.size() > 6) break; op = "initializer list"; auto a = edge(range), b = edge(range), d = edge(range); M mm; grow(mm, a); grow(mm, b); grow(mm, d); add(std::make_unique<EL>(std::initializer_list<T>{a, b, d}), mm); verify(els.size() - 1); break; }
        case 14: {    // write through a reference
          if (m.e.empty()) break; op = "write"; size_t i = r.below(m.e.size());
          auto t = edge(m.n[0] && (!bip || m.n[1]) ? std::max<size_t>(1, bip ? std::min(m.n[0], m.n[1]) : m.n[0]) : 1);
          if (r.coin()) { el[i] = t; } else { *(el.begin() + i) = t; }
          m.e[i] = t; break;
        }
        case 15: { if (!r.coin(0.3)) break; op = "push many"; el.open_for_push_back(); for (size_t i = r.below(3000); i-- > 0;) { auto t = edge(range); grow(m, t); el.push_back(t); } el.close_for_push_back(); break; }
      }
      verify(k);
      if (s + 1 == steps) for (size_t j = 0; j < els.size(); ++j) verify(j);
    }
    uint64_t h = 0; for (auto& m : ms) { h = mix(h ^ m.e.size() ^ m.n[0] * 31); for (auto& t : m.e) h = mix(h ^ ((uint64_t)std::get<0>(t) << 32 | std::get<1>(t))); }
    c.input(h); c.interesting(ms.size() > 1 || !ms[0].e.empty());
    c.count("operations", steps);
  }
};
template <bool bip, directedness D, class... A> static void hist(Ctx& c) { Threads th(c.rng); Pool<bip, D, A...> p(c); p.run(1 + c.rng.below(c.thorough ? 80 : 40)); }
constexpr auto DIR = directedness::directed, UND = directedness::undirected;
NWV_FAMILY(plain, 2500, 30000) { c.rng.coin() ? hist<false, DIR>(c) : hist<false, UND>(c); }
NWV_FAMILY(weighted, 2500, 30000) { c.rng.coin() ? hist<false, DIR, double>(c) : hist<false, UND, double>(c); }
NWV_FAMILY(labelled, 1800, 20000) { c.rng.coin() ? hist<false, DIR, std::string, int>(c) : hist<false, UND, std::string>(c); }
NWV_FAMILY(bipartite, 2500, 30000) { c.rng.coin() ? hist<true, DIR>(c) : hist<true, DIR, double>(c); }
NWV_FAMILY(bipartite_labelled, 1500, 20000) { c.rng.coin() ? hist<true, DIR, std::string>(c) : hist<true, UND, int, std::string>(c); }
NWV_FAMILY(capacity, 8, 60) {    // many pushes, with and without reserving
  auto el = nwg::edge_list<DIR, int>(c.rng.below(5)); size_t m = 200000 + c.rng.below(100000), n = 1; std::vector<Tup<int>> v;
  if (c.rng.coin()) el.reserve(c.rng.below(2 * m));
  size_t n0 = nwg::num_vertices(el), big = n0;
  for (size_t i = 0; i < m; ++i) { if (i % 1000 == 0) n = 1 + c.rng.below(1000000); Tup<int> t{(V)c.rng.below(n), (V)c.rng.below(n), (int)i}; v.push_back(t); big = std::max<size_t>(big, 1 + std::max(std::get<0>(t), std::get<1>(t))); el.push_back(t); }
  el.close_for_push_back();
  c.check(el.size() == m && nwg::num_edges(el) == m, "num_edges", "%zu instead of %zu", el.size(), m);
  c.check(nwg::num_vertices(el) == big, "num_vertices", "%zu instead of %zu", (size_t)nwg::num_vertices(el), big);
  if (content(el) != v) c.fail("content", "the list differs from what was pushed");
  auto copy = el; if (!(copy == el)) c.fail("copy", "copy differs");
  std::get<2>(copy[m - 1]) ^= 1; if (copy == el) c.fail("compare", "comparison misses a change of the last edge");
  c.input(mix(m) ^ big); c.interesting(); c.count("edges compared", m);
}
NWV_MAIN
