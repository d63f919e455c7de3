// P11: concurrent bit vectors and atomic helpers lose no update and publish what was written before them.
// Oracle: recorded results of every operation, checked offline: chains of read-modify-write results (each operation must
// have started from the value another one left), winners per bit, monotone reads; publication is judged by
// ThreadSanitizer in the tsan build (an acquire that does not synchronise with its release is a race on the payload).
#include <nwv/conc.hpp>
#include <nwgraph/util/AtomicBitVector.hpp>
#include <nwgraph/util/atomic.hpp>
#include <thread>
using namespace nwv;
// threads that start together
template <class F> static void race(size_t k, F&& f) {
  std::atomic<size_t> ready{0}; std::atomic<bool> go{false}; std::vector<std::thread> t;
  for (size_t i = 0; i < k; ++i) t.emplace_back([&, i] { ready.fetch_add(1); while (!go.load()) sched_yield(); f(i); });
  while (ready.load() < k) sched_yield();
  go.store(true); for (auto& x : t) x.join();
}
static size_t threads(Ctx& c) { return c.rng.of({2, 2, 3, 4, 8}); }
template <class T> static std::string tname() { return fmt("%s%zu", std::is_same_v<T, bool> ? "bool" : std::is_floating_point_v<T> ? "float" : std::is_signed_v<T> ? "int" : "uint", sizeof(T) * 8); }

// ---------------------------------------------------------------------------------------------------- bit vectors
template <class Word> static void bits(Ctx& c) {
  const size_t W = sizeof(Word) * 8; size_t n = c.rng.of({(size_t)c.rng.range(1, 5), W - 1, W, W + 1, (size_t)c.rng.range(1, 300), 64 * (size_t)c.rng.range(1, 20)}), k = threads(c);
  std::string nm = fmt("AtomicBitVector<%zu>", W); c.describe(fmt("bits=%zu words of %zu, %zu threads", n, W, k)); c.input(mix(n * 64 + k) + W); c.interesting(n > 1);
  nwg::AtomicBitVector<Word> b0(n); std::vector<bool> pre(n); double pp = c.rng.of({0.0, 0.2});
  for (size_t i = 0; i < n; ++i) if (c.rng.coin(pp)) { pre[i] = true; if (b0.set(i)) c.die(nm + ":set", "a clear bit was reported set"); }
  nwg::AtomicBitVector<Word> b(std::move(b0));
  // each thread sets a random subset in random order
  std::vector<std::vector<size_t>> todo(k); double p = c.rng.of({0.1, 0.5, 1.0});
  for (auto& t : todo) { for (size_t i = 0; i < n; ++i) if (c.rng.coin(p)) { t.push_back(i); if (c.rng.coin(0.1)) t.push_back(i); } c.rng.shuffle(t); }
  std::vector<std::vector<std::pair<size_t, bool>>> first(k); std::vector<std::string> bad(k); bool plain = c.rng.coin(0.3);
  race(k, [&](size_t me) {
    for (size_t i : todo[me]) {
      Word old = plain ? b.template set<std::memory_order_acq_rel>(i) : b.atomic_set(i); if (old & ~(Word(1) << (i % W))) bad[me] = "the result of a set has other bits";
      first[me].push_back({i, old == 0}); Word g = b.atomic_get(i); if (!g) bad[me] = fmt("bit %zu reads clear right after it was set", i); if (g & ~(Word(1) << (i % W))) bad[me] = "the result of a get has other bits"; }
  });
  for (auto& s : bad) if (!s.empty()) c.die(nm + ":get", s);
  std::vector<int> wins(n), tries(n); size_t ops = 0; for (auto& v : first) for (auto& [i, f] : v) { ++tries[i]; wins[i] += f; ++ops; }
  for (size_t i = 0; i < n; ++i) {
    int want = tries[i] && !pre[i] ? 1 : 0; if (wins[i] != want) c.die(nm + ":winner", fmt("%d of %d sets of bit %zu were told they were first instead of %d", wins[i], tries[i], i, want));
    bool on = tries[i] || pre[i]; if ((b.get(i) != 0) != on || (b.atomic_get(i) != 0) != on) c.die(nm + ":final", fmt("bit %zu is %s", i, on ? "lost" : "set without being asked for"));
  }
  auto it = b.begin(); size_t seen = 0; for (size_t i = 0; i < n; ++i) if (tries[i] || pre[i]) { if (!(it != b.end())) c.die(nm + ":iterate", fmt("stops before bit %zu", i)); if (*it != i) c.die(nm + ":iterate", fmt("bit %zu instead of %zu", (size_t)*it, i)); auto before = it; if (c.rng.coin()) { auto old = it++; if (old != before) c.die(nm + ":iterate", "post-increment returned a moved iterator"); } else ++it; if (it == before) c.die(nm + ":iterate", "equal after increment"); ++seen; }
  if (it != b.end() || !(it == b.end())) c.die(nm + ":iterate", "goes on after the last set bit");
  size_t k2 = 0; auto nz = b.non_zeros(1 + c.rng.below(4)); for (auto i = nz.begin(); i != nz.end(); ++i) ++k2; if (k2 != seen) c.die(nm + ":non_zeros", fmt("%zu of %zu", k2, seen));
  b.clear(); if (b.begin() != b.end()) c.die(nm + ":clear", "bits remain"); for (size_t i = 0; i < n; ++i) if (b.get(i)) c.die(nm + ":clear", "bit remains");
  c.count("bit operations recorded", ops); c.count("contended bits", std::count_if(tries.begin(), tries.end(), [](int t) { return t > 1; }));
}
// what a thread wrote before it set a bit is visible to whoever finds the bit set
template <class Word> static void publish_bits(Ctx& c) {
  size_t n = c.rng.range(1, 200), k = threads(c); c.input(n * 16 + k + sizeof(Word) * 7777); c.interesting(); c.describe(fmt("bits=%zu threads=%zu", n, k));
  nwg::AtomicBitVector<Word> b(n); std::vector<uint64_t> data(n, 0); std::vector<std::vector<size_t>> order(k); for (auto& o : order) { o.resize(n); std::iota(o.begin(), o.end(), 0); c.rng.shuffle(o); }
  std::vector<size_t> owner(n); for (auto& x : owner) x = c.rng.below(k);
  std::atomic<size_t> wrong{0}, seen{0};
  race(k, [&](size_t me) {
    for (size_t i : order[me]) {
      if (owner[i] == me) { data[i] = mix(i); b.atomic_set(i); }
      else for (size_t t = 0; t < 30; ++t) if (b.atomic_get(i)) { if (data[i] != mix(i)) ++wrong; ++seen; break; } else if (t % 4 == 3) sched_yield();
    }
  });
  if (wrong) c.die("publish", fmt("a bit was seen set %zu times without the data written before it", wrong.load()));
  c.count("publications through bits observed", seen);
}
// ---------------------------------------------------------------------------------------------------- helpers
template <class T, bool Atomic> struct Cell { std::conditional_t<Atomic, std::atomic<T>, T> x; };
template <class T, bool Atomic> static T now(Cell<T, Atomic>& s) { if constexpr (Atomic) return s.x.load(); else return s.x; }
template <class T> static std::string chain(std::vector<std::pair<T, T>> v, T from, T to) {    // (old, new) pairs must form one path
  std::sort(v.begin(), v.end()); T at = from; for (auto& [o, n] : v) { if (o != at) return fmt("an operation started from %g while the chain of updates was at %g", (double)o, (double)at); at = n; }
  return at == to ? "" : fmt("final value %g instead of %g", (double)to, (double)at);
}
template <class T, bool A> static void adds(Ctx& c) {
  std::string nm = "fetch_add " + std::string(A ? "atomic " : "plain ") + tname<T>(); size_t k = threads(c), each = std::is_same_v<T, float> || sizeof(T) > 2 ? c.rng.range(1, 200) : c.rng.range(1, 120 / k); T inc = sizeof(T) == 1 || c.rng.coin() ? T(1) : T(c.rng.range(1, 3)); if (sizeof(T) == 1) each = std::min<size_t>(each, 120 / k);
  Cell<T, A> s; s.x = T(0); std::vector<std::vector<std::pair<T, T>>> log(k); c.input(mix(k * 1000 + each) ^ hash_str(nm)); c.interesting(each > 1); c.describe(nm);
  race(k, [&](size_t me) { for (size_t i = 0; i < each; ++i) { T o = nwg::fetch_add(s.x, inc); log[me].push_back({o, T(o + inc)}); } });
  std::vector<std::pair<T, T>> all; for (auto& l : log) { for (size_t i = 1; i < l.size(); ++i) if (!(l[i - 1].first < l[i].first)) c.die(nm, "one thread saw the sum go back"); all.insert(all.end(), l.begin(), l.end()); }
  auto e = chain<T>(all, T(0), now(s)); if (!e.empty()) c.die(nm, e + fmt(" (%zu threads, %zu adds each)", k, each)); c.count("read-modify-write operations recorded", all.size());
}
template <class T, bool A> static void ors(Ctx& c) {
  std::string nm = "fetch_or " + std::string(A ? "atomic " : "plain ") + tname<T>(); using U = std::make_unsigned_t<T>; size_t k = threads(c), B = sizeof(T) * 8; c.input(k * 7 ^ hash_str(nm) ^ c.rng.s); c.interesting(); c.describe(nm);
  Cell<T, A> s; s.x = T(0); std::vector<std::vector<T>> masks(k); U want = 0; for (auto& m : masks) { for (size_t i = 0, e = c.rng.range(1, 12); i < e; ++i) { U x = U(1) << c.rng.below(B); if (c.rng.coin()) x |= U(1) << c.rng.below(B); m.push_back((T)x); want |= x; } }
  std::vector<std::vector<std::pair<U, U>>> log(k); race(k, [&](size_t me) { for (T m : masks[me]) { T o = nwg::fetch_or(s.x, m); log[me].push_back({(U)o, U(U(o) | U(m))}); } });
  // the value only grows: order by (popcount of old, of new) is the order of the chain, up to operations that changed nothing
  std::vector<std::pair<U, U>> all; for (auto& l : log) all.insert(all.end(), l.begin(), l.end());
  std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return std::make_tuple(__builtin_popcountll(a.first), __builtin_popcountll(a.second)) < std::make_tuple(__builtin_popcountll(b.first), __builtin_popcountll(b.second)); });
  U at = 0; for (auto& [o, n] : all) { if (o != at) c.die(nm, fmt("an operation started from %llx while the chain was at %llx", (unsigned long long)o, (unsigned long long)at)); at = n; }
  if (at != want || (U)now(s) != want) c.die(nm, "lost bits"); c.count("read-modify-write operations recorded", all.size());
}
template <class T, bool A> static void cases(Ctx& c) {
  std::string nm = "cas " + std::string(A ? "atomic " : "plain ") + tname<T>(); size_t k = threads(c), each = c.rng.range(1, 60); if (sizeof(T) == 1) each = std::min<size_t>(each, 120 / k); c.input(mix(k * 1000 + each) ^ hash_str(nm)); c.interesting(); c.describe(nm);
  Cell<T, A> s; s.x = T(0); std::vector<std::vector<std::pair<T, T>>> log(k); std::vector<std::string> bad(k); std::atomic<size_t> fails{0};
  race(k, [&](size_t me) {
    for (size_t i = 0; i < each; ++i) { T e = nwg::acquire(s.x); for (;;) { T was = e, nw = T(e + 1); if (nwg::cas(s.x, e, nw)) { if (e != was) bad[me] = "a successful compare-and-swap changed the expected value"; log[me].push_back({was, nw}); break; } ++fails; if (e == was) { bad[me] = "a failed compare-and-swap reports the expected value as current"; break; } if (e < was) { bad[me] = "value went back"; break; } } }
  });
  for (auto& b : bad) if (!b.empty()) c.die(nm, b);
  std::vector<std::pair<T, T>> all; for (auto& l : log) all.insert(all.end(), l.begin(), l.end()); auto e = chain<T>(all, T(0), now(s)); if (!e.empty() || all.size() != k * each) c.die(nm, e); c.count("read-modify-write operations recorded", all.size()); c.count("failed compare-and-swaps seen", fails);
  T e2 = T(now(s) + 1), keep = now(s); if (nwg::cas(s.x, e2, T(0))) c.die(nm, "succeeded on a different value"); if (e2 != keep || now(s) != keep) c.die(nm, "a failed compare-and-swap must return the current value and leave it");
}
template <class T, bool A> static void rw(Ctx& c) {    // one writer, monotone readers, and publication of a payload
  std::string nm = "load/store " + std::string(A ? "atomic " : "plain ") + tname<T>(); size_t k = threads(c), steps = sizeof(T) == 1 ? (std::is_same_v<T, bool> ? 1 : 100) : 300; c.input(k ^ hash_str(nm) ^ c.rng.s); c.interesting(); c.describe(nm);
  Cell<T, A> s; s.x = T(0); std::vector<uint64_t> data(steps + 1, 0); std::vector<std::string> bad(k); std::atomic<size_t> seen{0}, distinct{0};
  race(k, [&](size_t me) {
    if (me == 0) { for (size_t i = 1; i <= steps; ++i) { data[i] = mix(i); nwg::release(s.x, T(i)); } nwg::relaxed(s.x, T(steps)); return; }
    T last = T(0); size_t n = 0; for (size_t t = 0; t < 3000; ++t) { T v = nwg::acquire(s.x); if (v < last) { bad[me] = "reads went back"; break; } if (v != T(size_t(v)) || size_t(v) > steps) { bad[me] = "read a value never written"; break; } if (size_t(v)) { for (size_t i : {size_t(v), size_t(1)}) if (data[i] != mix(i)) { bad[me] = fmt("payload %zu is not visible", i); } } if (v != last) ++n; last = v; if (v == T(steps)) break; T r = nwg::relaxed(s.x); if (r < v) bad[me] = "relaxed read went back"; if (t % 64 == 63) sched_yield(); }
    seen += 1; distinct += n;
  });
  for (auto& b : bad) if (!b.empty()) c.die(nm, b); if (now(s) != T(steps)) c.die(nm, "the last store was lost");
  c.count("readers observed", seen); c.count("distinct values readers saw", distinct);
}
template <class T> static void lock(Ctx& c) {    // mutual exclusion and publication through cas/release and through fetch_add/acquire
  size_t k = threads(c), each = c.rng.range(1, 60); c.input(mix(k * 1000 + each) ^ sizeof(T)); c.interesting(); c.describe("lock from cas and release, ticket lock from fetch_add and acquire, " + tname<T>());
  T l = T(0); uint64_t total = 0; race(k, [&](size_t) { for (size_t i = 0; i < each; ++i) { for (;;) { T e = T(0); if (nwg::cas(l, e, T(1))) break; sched_yield(); } ++total; nwg::release(l, T(0)); } });
  if (total != k * each) c.die("cas lock", fmt("%zu of %zu increments", (size_t)total, k * each));
  uint32_t next = 0, serving = 0; uint64_t t2 = 0; race(k, [&](size_t) { for (size_t i = 0; i < each; ++i) { uint32_t my = nwg::fetch_add(next, 1u); while (nwg::acquire(serving) != my) sched_yield(); ++t2; nwg::fetch_add(serving, 1u); } });
  if (t2 != k * each) c.die("ticket lock", fmt("%zu of %zu increments", (size_t)t2, k * each));
  // a shared counter hands over what each thread wrote before adding to it
  std::vector<uint64_t> slot(k, 0); T done = T(0); std::atomic<size_t> wrong{0}; race(k, [&](size_t me) { slot[me] = mix(me); if (size_t(nwg::fetch_add(done, T(1))) == k - 1) for (size_t i = 0; i < k; ++i) if (slot[i] != mix(i)) ++wrong; });
  if (wrong) c.die("fetch_add publication", "the last thread to add does not see what the others wrote");
  uint32_t mask = 0; std::fill(slot.begin(), slot.end(), 0); race(k, [&](size_t me) { slot[me] = mix(me); uint32_t o = nwg::fetch_or(mask, 1u << me); for (size_t i = 0; i < k; ++i) if (o >> i & 1) if (slot[i] != mix(i)) ++wrong; });
  if (wrong) c.die("fetch_or publication", "a thread does not see what those before it wrote");
  c.count("critical sections observed", 2 * k * each);
}
template <class F> static void each_type(Ctx& c, F&& f) {
  switch (c.rng.below(10)) { case 0: f(int8_t{}); break; case 1: f(uint8_t{}); break; case 2: f(int16_t{}); break; case 3: f(uint16_t{}); break; case 4: f(int32_t{}); break; case 5: f(uint32_t{}); break; case 6: f(int64_t{}); break; case 7: f(uint64_t{}); break; case 8: f(float{}); break; default: f(double{}); }
}
NWV_FAMILY(bit_vectors, 150, 4000) { switch (c.rng.below(4)) { case 0: bits<uint8_t>(c); break; case 1: bits<uint16_t>(c); break; case 2: bits<uint32_t>(c); break; default: bits<uint64_t>(c); } }
NWV_FAMILY(published_bits, 60, 1500) { switch (c.rng.below(3)) { case 0: publish_bits<uint8_t>(c); break; case 1: publish_bits<uint32_t>(c); break; default: publish_bits<uint64_t>(c); } }
NWV_FAMILY(fetch_adds, 150, 4000) { each_type(c, [&](auto t) { using T = decltype(t); if (c.rng.coin()) adds<T, true>(c); else adds<T, false>(c); }); }
NWV_FAMILY(fetch_ors, 100, 3000) { each_type(c, [&](auto t) { using T = decltype(t); if constexpr (std::is_integral_v<T>) { if (c.rng.coin()) ors<T, true>(c); else ors<T, false>(c); } else c.rng.coin() ? ors<uint64_t, true>(c) : ors<uint64_t, false>(c); }); }
NWV_FAMILY(compare_and_swap, 120, 3000) { each_type(c, [&](auto t) { using T = decltype(t); if (c.rng.coin()) cases<T, true>(c); else cases<T, false>(c); }); }
NWV_FAMILY(loads_and_stores, 120, 3000) { if (c.rng.coin(0.1)) { if (c.rng.coin()) rw<bool, true>(c); else rw<bool, false>(c); return; } each_type(c, [&](auto t) { using T = decltype(t); if (c.rng.coin()) rw<T, true>(c); else rw<T, false>(c); }); }
NWV_FAMILY(locks, 60, 1500) { switch (c.rng.below(4)) { case 0: lock<uint8_t>(c); break; case 1: lock<int32_t>(c); break; case 2: lock<double>(c); break; default: lock<uint64_t>(c); } }
NWV_CONC_MAIN
