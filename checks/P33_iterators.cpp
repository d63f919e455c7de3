// P33: counting and permutation iterators, and proxy sorting. Oracle: plain arrays and integer arithmetic.
#include <nwv/edges.hpp>
#include <nwgraph/util/permutation_iterator.hpp>
#include <nwgraph/util/proxysort.hpp>
#include <nwgraph/adaptors/vertex_range.hpp>
using namespace nwv;
template <class T> static void counting(Ctx& c) {
  using It = nwg::counting_iterator<T>; using D = typename It::difference_type; bool neg = std::is_signed_v<T>;
  int64_t lo = neg ? -50 : 0, hi = sizeof(T) == 1 ? 60 : 1000, a = c.rng.range(lo, hi); It i((T)a); int64_t b = c.rng.range(lo, hi); It j((T)b);
  if (sizeof(T) > 1 && c.rng.coin(0.3)) { int64_t big = neg ? (int64_t)(std::numeric_limits<T>::max() - 2000) : (int64_t)((uint64_t)std::numeric_limits<T>::max() / (sizeof(T) == 8 ? 2 : 1)) - 2000; a += big; b += big; i = It((T)a); j = It((T)b); lo += big; hi += big; }
  else if (sizeof(T) >= 4 && c.rng.coin(0.4)) { hi = sizeof(T) == 4 ? (int64_t)1 << 30 : (int64_t)1 << 60; lo = neg ? 1 - hi : 0; auto far = [&] { int64_t x = (int64_t)c.rng.below((uint64_t)1 << c.rng.range(1, sizeof(T) == 4 ? 30 : 60)); return neg && c.rng.coin() ? -x : x; }; a = far(); b = far(); i = It((T)a); j = It((T)b); }    // far apart
  std::string nm = fmt("counting_iterator<%s%zu>", neg ? "int" : "uint", sizeof(T) * 8); c.describe(fmt("%s from %lld and %lld", nm.c_str(), (long long)a, (long long)b)); c.input(mix((uint64_t)a * 4099 + (uint64_t)b) + sizeof(T)); c.interesting();
  auto is = [&](const char* what, bool ok) { if (!ok) c.die(nm, fmt("%s with iterators at %lld and %lld", what, (long long)a, (long long)b)); };
  for (int step = 0; step < 60; ++step) {
    switch (c.rng.below(12)) {
      case 0: if (a < hi) { is("++i", &++i == &i); ++a; } break;
      case 1: if (a > lo) { is("--i", &--i == &i); --a; } break;
      case 2: if (a < hi) { It o = i++; is("i++ value", *o == (T)a); ++a; } break;
      case 3: if (a > lo) { It o = i--; is("i-- value", *o == (T)a); --a; } break;
      case 4: { int64_t d = c.rng.range(lo - a, hi - a); if (sizeof(T) == 1 && (d > 100 || d < -100)) break; is("i += d", &(i += (D)d) == &i); a += d; break; }
      case 5: { int64_t d = c.rng.range(a - hi, a - lo); if (sizeof(T) == 1 && (d > 100 || d < -100)) break; is("i -= d", &(i -= (D)d) == &i); a -= d; break; }
      case 6: { int64_t d = c.rng.range(lo - a, hi - a); if (sizeof(T) == 1 && (d > 100 || d < -100)) break; It x = i + (D)d, y = (D)d + i; is("i + d", *x == (T)(a + d) && x == y); is("(i + d) - i", (int64_t)(x - i) == d); is("i[d]", i[(D)d] == (T)(a + d)); break; }
      case 7: { int64_t d = c.rng.range(a - hi, a - lo); if (sizeof(T) == 1 && (d > 100 || d < -100)) break; is("i - d", *(i - (D)d) == (T)(a - d)); break; }
      case 8: std::swap(i, j); std::swap(a, b); break;
      case 9: { It k(i); j = k; b = a; break; }
      case 10: { const It k = i; is("*const", *k == (T)a); is("const i[0]", k[0] == (T)a); break; }
      default: break;
    }
    is("*i", *i == (T)a); is("*j", *j == (T)b); int64_t d = a - b;
    is("i - j", (int64_t)(i - j) == d); is("i == j", (i == j) == (a == b)); is("i != j", (i != j) == (a != b)); is("i < j", (i < j) == (a < b)); is("i > j", (i > j) == (a > b)); is("i <= j", (i <= j) == (a <= b)); is("i >= j", (i >= j) == (a >= b));
    c.count("iterator identities checked", 9);
  }
}
NWV_FAMILY(counting_iterators, 400, 20000) {
  switch (c.rng.below(7)) { case 0: counting<int8_t>(c); break; case 1: counting<int16_t>(c); break; case 2: counting<uint16_t>(c); break; case 3: counting<int32_t>(c); break; case 4: counting<uint32_t>(c); break; case 5: counting<uint64_t>(c); break; default: counting<int64_t>(c); }
}
NWV_FAMILY(counting_algorithms, 60, 2000) {    // generic algorithms over a counted range
  size_t n = c.rng.below(2000); nwg::counting_iterator<uint32_t> b(0u), e((uint32_t)n); c.input(n); c.interesting(n > 1); c.describe(fmt("n=%zu", n));
  if ((size_t)std::distance(b, e) != n) c.die("distance", "wrong"); std::vector<uint32_t> v; std::copy(b, e, std::back_inserter(v)); if (v.size() != n) c.die("copy", "wrong length"); for (size_t i = 0; i < n; ++i) if (v[i] != i) c.die("copy", fmt("element %zu", i));
  uint32_t x = c.rng.below(n + 5); auto it = std::lower_bound(b, e, x); if (*it != std::min<uint32_t>(x, n)) c.die("lower_bound", "wrong");
  std::vector<std::atomic<int>> hits(n); std::for_each(std::execution::par, b, e, [&](uint32_t i) { if (i < n) hits[i]++; }); for (size_t i = 0; i < n; ++i) if (hits[i] != 1) c.die("for_each(par)", fmt("element %zu visited %d times", i, (int)hits[i])); c.count("elements visited", n);
}
NWV_FAMILY(permutation_iterators, 200, 8000) {
  size_t n = c.rng.below(200); std::vector<std::string> v; std::vector<uint32_t> p(n); for (size_t i = 0; i < n; ++i) v.push_back(fmt("s%zu", i)); std::iota(p.begin(), p.end(), 0); c.rng.shuffle(p); if (c.rng.coin() && n) for (auto& x : p) x = c.rng.below(n);    // not only bijections
  uint64_t h = n; for (auto x : p) h = mix(h ^ x); c.input(h); c.interesting(n > 1); c.describe(fmt("n=%zu", n)); auto f = [&](size_t i) { return p[i]; };
  nwg::permutation_iterator b(v.begin(), 0, f), e(v.begin(), n, f); size_t i = 0;
  for (; b != e; ++b, ++i) { if (i >= n) c.die("permutation_iterator", "does not end"); if (*b != v[p[i]]) c.die("permutation_iterator", fmt("position %zu is not element %u", i, p[i])); auto copy = b; if (*copy != *b) c.die("permutation_iterator", "copy"); auto& r = *copy; if (&r != &v[p[i]]) c.die("permutation_iterator", "not a reference to the element"); }
  if (i != n) c.die("permutation_iterator", fmt("%zu of %zu", i, n)); if (n) { size_t k = c.rng.below(n); nwg::permutation_iterator m(v.begin(), k, f); if (*m != v[p[k]]) c.die("permutation_iterator", "started inside"); *m = "written"; if (v[p[k]] != "written") c.die("permutation_iterator", "write"); }
  c.count("elements visited", n);
}
template <class P, class K, class Cmp> static void order(Ctx& c, const std::string& nm, const K& keys, const std::vector<P>& perm, Cmp lt) {
  if (perm.size() != keys.size()) c.die(nm, "wrong length"); std::vector<bool> seen(keys.size()); for (auto x : perm) { if ((size_t)x >= keys.size() || seen[x]) c.die(nm, "not a permutation"); seen[x] = true; }
  for (size_t i = 1; i < perm.size(); ++i) if (lt(keys[perm[i]], keys[perm[i - 1]])) c.die(nm, fmt("keys at positions %zu and %zu are out of order", i - 1, i)); c.count("sorted positions checked", perm.size());
}
NWV_FAMILY(proxysorts, 300, 8000) {
  size_t n = c.rng.of({(size_t)1, (size_t)c.rng.range(1, 20), (size_t)c.rng.range(1, 3000)}); size_t spread = c.rng.of({(size_t)1, (size_t)4, 10 * n}); std::vector<int> k(n); for (auto& x : k) x = (int)c.rng.below(spread) - (int)spread / 2; if (c.rng.coin(0.2)) std::sort(k.begin(), k.end());
  uint64_t h = n; for (auto x : k) h = mix(h ^ (uint64_t)(uint32_t)x); c.input(h); c.interesting(n > 1); c.describe(fmt("n=%zu spread=%zu", n, spread)); auto keep = k; namespace u = nw::util;
  order(c, "proxysort less", k, u::proxysort(k, std::less<int>{}), std::less<int>{}); order(c, "proxysort greater", k, u::proxysort<uint64_t>(k, std::greater<int>{}), std::greater<int>{});
  std::vector<uint32_t> p(n); for (auto& x : p) x = c.rng.below(1000); u::proxysort(k, p, std::less<int>{}); order(c, "proxysort in place", k, p, std::less<int>{}); u::proxysort(k, p, std::greater<int>{}, std::execution::seq); order(c, "proxysort in place seq", k, p, std::greater<int>{});
  std::vector<std::string> s; for (auto x : k) s.push_back(fmt("%d", x)); order(c, "proxysort strings", s, u::proxysort<int>(s, std::less<std::string>{}), std::less<std::string>{});
  auto by = [](int a, int b) { return std::abs(a) < std::abs(b); }; order(c, "proxysort by magnitude", k, u::proxysort<int64_t>(k, by), by); if (k != keep) c.die("proxysort", "the keys changed");
}
NWV_MAIN
