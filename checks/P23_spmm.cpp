// P23: sparse matrix products equal the dense product.
#include <nwv/edges.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/algorithms/spMatspMat.hpp>
using namespace nwv;
using nwg::directedness;
template <class T> struct Min { T operator()(T a, T b) const { return std::min(a, b); } };
template <class T> struct Max { T operator()(T a, T b) const { return std::max(a, b); } };
template <class T> struct First { T operator()(T a, T) const { return a; } };
template <class T> struct Mix { T operator()(T a, T b) const { return a * 3 - b; } };    // not commutative
template <class T> using Mat = std::vector<std::tuple<V, V, T>>;

template <class T> static Mat<T> matrix(Rng& r, size_t rows, size_t cols, size_t nnz, bool dups) {
  std::map<std::pair<V, V>, T> m; Mat<T> v;
  auto val = [&]() -> T { return r.coin(0.1) ? T(0) : T(r.range(-20, 20)); };
  int kind = (int)r.below(4);
  for (size_t i = 0; rows && cols && i < nnz; ++i) {
    V a = (V)r.below(rows), b = (V)r.below(cols);
    if (kind == 1) b = (V)((a + r.below(3)) % cols);
    if (kind == 2 && r.coin()) a = (V)r.below(1 + rows / 8);
    if (kind == 3 && r.coin()) b = (V)r.below(1 + cols / 8);
    if (dups) v.push_back({a, b, val()}); else m[{a, b}] = val();
  }
  for (auto& [k, x] : m) v.push_back({k.first, k.second, x});
  r.shuffle(v);
  return v;
}
template <class T, class Map, class Red> static void prod(Ctx& c, const char* ops, size_t n, size_t k, size_t m, bool ordered) {
  bool dups = !ordered && c.rng.coin(0.3);
  Mat<T> A = matrix<T>(c.rng, n, k, c.rng.below(1 + 3 * (n + k)), dups), B = matrix<T>(c.rng, k, m, c.rng.below(1 + 3 * (k + m)), dups);
  std::map<std::pair<V, V>, T> want; Map map; Red red;
  if (ordered) { std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end()); }
  std::vector<std::vector<std::pair<V, T>>> br(k); for (auto& [x, y, w] : B) br[x].push_back({y, w});
  for (auto& [i, x, a] : A) for (auto& [j, b] : br[x]) { T p = map(a, b); auto [it, fresh] = want.try_emplace({i, j}, p); if (!fresh) it->second = red(it->second, p); }
  for (auto& [x, y, w] : A) c.input(x * 1000003u + y + (uint64_t)(int64_t)(w * 7)); for (auto& [x, y, w] : B) c.input(x * 7919u + y + (uint64_t)(int64_t)(w * 5));
  c.describe(fmt("%zux%zu * %zux%zu nnz %zu and %zu, product nnz %zu, %s%s", n, k, k, m, A.size(), B.size(), want.size(), ops, ordered ? " ordered" : ""));
  c.interesting(want.size() > 2 && want.size() < n * m);
  auto judge = [&](const char* alg, auto& C) {
    std::map<std::pair<V, V>, T> got;
    for (auto&& [i, j, v] : C) { if (!got.try_emplace({(V)i, (V)j}, v).second) { c.fail(std::string(alg) + ":twice", fmt("entry (%u,%u) is returned twice", (V)i, (V)j)); return; } }
    for (auto& [p, v] : want) { auto it = got.find(p); if (it == got.end()) { c.fail(std::string(alg) + ":missing", fmt("entry (%u,%u) = %g is missing", p.first, p.second, (double)v)); return; }
      if (it->second != v) { c.fail(std::string(alg) + ":value", fmt("entry (%u,%u) is %g instead of %g", p.first, p.second, (double)it->second, (double)v)); return; } }
    for (auto& [p, v] : got) if (!want.count(p)) { c.fail(std::string(alg) + ":extra", fmt("entry (%u,%u) = %g has no contributing pair", p.first, p.second, (double)v)); return; }
    c.count(std::string(alg) + " runs"); c.count("entries checked", want.size());
  };
  if (!ordered) {
    nwg::edge_list<directedness::directed, T> ea(n), eb(k); push_all(ea, A); push_all(eb, B);
    nwg::adjacency<0, T> a(n, ea), b(k, eb);
    if constexpr (std::is_same_v<Map, std::multiplies<T>> && std::is_same_v<Red, std::plus<T>>) { if (c.rng.coin()) { auto C = nwg::spMatspMat<T>(a, b); judge("A*B", C); return; } }
    auto C = nwg::spMatspMat<T, nwg::adjacency<0, T>, nwg::adjacency<0, T>, Map, Red>(a, b); judge("A*B-ops", C);
    using Rows = std::vector<std::vector<std::tuple<V, T>>>;    // plain containers are graphs too
    Rows ra(n), rb(k); for (auto& [x, y, w] : A) ra[x].push_back({y, w}); for (auto& [x, y, w] : B) rb[x].push_back({y, w});
    auto D = nwg::spMatspMat<T, Rows, Rows, Map, Red>(ra, rb); judge("A*B-rows", D);
  } else {    // rows sorted, no entry stored twice; B given by its transpose
    nwg::edge_list<directedness::directed, T> ea(n), eb(0); push_all(ea, A);
    Mat<T> BT; for (auto& [x, y, w] : B) BT.push_back({y, x, w}); std::sort(BT.begin(), BT.end());
    nwg::edge_list<directedness::directed, T> et(m); push_all(et, BT);
    nwg::lexical_sort_by<0>(ea); nwg::lexical_sort_by<0>(et);
    nwg::adjacency<0, T> a(n, ea, true), b(m, et, true);
    for (auto* g : {&a, &b}) for (auto&& row : *g) { V last = 0; bool f = true; for (auto&& e : row) { if (!f && std::get<0>(e) <= last) throw std::runtime_error("rows not sorted"); last = std::get<0>(e); f = false; } }
    if constexpr (std::is_same_v<Map, std::multiplies<T>> && std::is_same_v<Red, std::plus<T>>) { if (c.rng.coin()) { auto C = nwg::spMatspMatT<T>(a, b); judge("A*BT", C); return; } }
    auto C = nwg::spMatspMatT<T, nwg::adjacency<0, T>, nwg::adjacency<0, T>, Map, Red>(a, b); judge("A*BT-ops", C);
    using Rows = std::vector<std::vector<std::tuple<V, T>>>;
    Rows ra(n), rt(m); for (auto& [x, y, w] : A) ra[x].push_back({y, w}); for (auto& [x, y, w] : BT) rt[x].push_back({y, w});
    auto D = nwg::spMatspMatT<T, Rows, Rows, Map, Red>(ra, rt); judge("A*BT-rows", D);
  }
}
template <class T> static void pick(Ctx& c, bool ordered) {
  size_t z = c.rng.of({3, 8, 20, 60});
  size_t n = 1 + c.rng.below(z), k = 1 + c.rng.below(z), m = 1 + c.rng.below(z);
  switch (c.rng.below(5)) {
    case 0: return prod<T, std::multiplies<T>, std::plus<T>>(c, "multiply,plus", n, k, m, ordered);
    case 1: return prod<T, std::plus<T>, Min<T>>(c, "plus,min", n, k, m, ordered);
    case 2: return prod<T, Min<T>, Max<T>>(c, "min,max", n, k, m, ordered);
    case 3: return prod<T, Mix<T>, std::plus<T>>(c, "mix,plus", n, k, m, ordered);
    default: return prod<T, First<T>, Max<T>>(c, "first,max", n, k, m, ordered);
  }
}
NWV_FAMILY(product, 12000, 200000) { int t = (int)c.rng.below(2); t ? pick<double>(c, false) : pick<int64_t>(c, false); }
NWV_FAMILY(product_transposed, 8000, 150000) { int t = (int)c.rng.below(2); t ? pick<double>(c, true) : pick<int64_t>(c, true); }
NWV_MAIN
