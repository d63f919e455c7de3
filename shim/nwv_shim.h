// A stand-in for the task scheduler behind tbb::parallel_* and std::execution::par*, force-included (-include) before
// anything else in harnesses built in a shim mode (see bin/check.py).
//
//  * Work is cut into pieces at random (down to single elements), the pieces are permuted, and threads claim them in
//    any order; random delays between pieces.
//  * All coordination among threads is invisible to ThreadSanitizer (native atomics in uninstrumented functions), except
//    the two edges a parallel loop guarantees: caller -> every piece, every piece -> return of the loop. So pieces of one
//    loop are unordered for the race detector even when they happen to run one after another on the machine.
//
// The include guards of the real headers are defined here, so they come out empty when included later.
#pragma once
#define NWV_SHIM 1
#define __TBB_parallel_for_H
#define __TBB_parallel_reduce_H
#define __TBB_parallel_for_each_H
#define __TBB_parallel_scan_H
#define __TBB_parallel_invoke_H
#define __TBB_parallel_sort_H
#define __TBB_parallel_pipeline_H
#define __TBB_task_arena_H
#define __TBB_task_group_H
#define __TBB_partitioner_H
#define __TBB_flow_graph_H
#define __TBB_collaborative_call_once_H
#define __TBB_task_scheduler_observer_H
#define _PSTL_PARALLEL_BACKEND_TBB_H

#include <algorithm>
#include <atomic>
#include <climits>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include <linux/futex.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <oneapi/tbb/detail/_config.h>
#include <oneapi/tbb/detail/_range_common.h>
#include <oneapi/tbb/blocked_range.h>
#include <oneapi/tbb/blocked_range2d.h>
#include <oneapi/tbb/blocked_range3d.h>
#include <oneapi/tbb/global_control.h>
#include <oneapi/tbb/cache_aligned_allocator.h>
#include <oneapi/tbb/tbb_allocator.h>

// Memory of TBB containers comes from malloc, which the sanitizers watch, not from tbbmalloc, which they do not.
namespace tbb::detail::r1 {
inline void* nwv_alloc(std::size_t n) { void* p = nullptr; if (posix_memalign(&p, 128, n ? n : 1)) throw std::bad_alloc(); return p; }
__attribute__((visibility("default"))) void* cache_aligned_allocate(std::size_t n) { return nwv_alloc(n); }
__attribute__((visibility("default"))) void  cache_aligned_deallocate(void* p) { std::free(p); }
__attribute__((visibility("default"))) void* allocate_memory(std::size_t n) { return nwv_alloc(n); }
__attribute__((visibility("default"))) void  deallocate_memory(void* p) { std::free(p); }
}    // namespace tbb::detail::r1

namespace nwv_shim {
#define NWV_NATIVE __attribute__((no_sanitize("thread"), no_sanitize_address, noinline))
NWV_NATIVE inline int      n_load(const int* p) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
NWV_NATIVE inline void*    n_load_p(void* const* p) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
NWV_NATIVE inline void     n_store_p(void** p, void* v) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
NWV_NATIVE inline int      n_add(int* p, int v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
NWV_NATIVE inline uint64_t n_add64(uint64_t* p, uint64_t v) { return __atomic_fetch_add(p, v, __ATOMIC_RELAXED); }
NWV_NATIVE inline uint64_t n_load64(const uint64_t* p) { return __atomic_load_n(p, __ATOMIC_RELAXED); }
NWV_NATIVE inline void     n_store64(uint64_t* p, uint64_t v) { __atomic_store_n(p, v, __ATOMIC_RELAXED); }
NWV_NATIVE inline bool     n_cas_p(void** p, void* e, void* v) { return __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }

struct Stats { uint64_t loops = 0, pieces = 0, by_workers = 0, threads_used = 0; };
inline Stats& stats() { static Stats s; return s; }

inline uint64_t g_seed = 1;    // set between cases
inline int      g_epoch = 0;
struct ThreadRng {
  uint64_t s = 0; int ep = -1;
};
inline int& my_index() { thread_local int i = 0; return i; }    // 0: not a pool thread
NWV_NATIVE inline uint64_t rnd() {
  thread_local ThreadRng r;
  int ep = n_load(&g_epoch);
  if (r.ep != ep) { r.ep = ep; r.s = n_load64(&g_seed) * 0x9e3779b97f4a7c15ull + (uint64_t)my_index() * 0xbf58476d1ce4e5b9ull; }
  r.s += 0x9e3779b97f4a7c15ull;
  uint64_t x = r.s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
inline void     seed(uint64_t s) { n_store64(&g_seed, s); n_add(&g_epoch, 1); }

inline void nap(uint64_t r) {
  if ((r & 7) < 4) return;
  if ((r & 7) < 6) sched_yield();
  else if ((r & 63) < 62) for (volatile int i = 0; i < 200; i = i + 1) ;
  else { timespec t{0, 30000}; nanosleep(&t, nullptr); }
}

struct Job {
  std::atomic<int>   start{0}, end{0};       // the two edges ThreadSanitizer sees
  int                next = 0, joined = 0;    // native
  int                n = 0;
  void (*run)(void*, size_t) = nullptr;
  void*              ctx = nullptr;
  std::vector<int>   order;
  std::exception_ptr error;
  std::atomic_flag   error_set = ATOMIC_FLAG_INIT;
};
struct Slot { void* owner = nullptr; void* job = nullptr; int users = 0; };    // a slot is free again only when its last user has left
inline constexpr int NSLOT = 64;
inline Slot          g_slots[NSLOT];
inline int           g_wake = 0, g_started = 0;

inline int limit() {
  size_t m = tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism);
  return (int)std::min<size_t>(std::max<size_t>(m, 1), 8);
}
inline void work(Job& j, bool worker) {
  for (;;) {
    int k = n_add(&j.next, 1);
    if (k >= j.n) return;
    if (worker) n_add64(&stats().by_workers, 1);
    nap(rnd());
    try { j.run(j.ctx, (size_t)j.order[k]); }
    catch (...) { if (!j.error_set.test_and_set(std::memory_order_relaxed)) j.error = std::current_exception(); }
    if (worker || j.n > 4) nap(rnd());
  }
}
NWV_NATIVE inline void futex_wait(int* p, int v) { timespec t{0, 50000000}; syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, &t, nullptr, 0); }
NWV_NATIVE inline void futex_wake(int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0); }
inline bool scan() {
  bool any = false;
  int  off = (int)below(NSLOT);
  for (int i = 0; i < NSLOT; ++i) {
    Slot& s = g_slots[(i + off) % NSLOT];
    if (!n_load_p(&s.job)) continue;
    n_add(&s.users, 1);
    if (Job* j = (Job*)n_load_p(&s.job)) {
      if (j->start.load(std::memory_order_acquire)) {
        if (n_load(&j->next) < j->n && my_index() < limit()) { any = true; n_add(&j->joined, 1); work(*j, true); }
        j->end.fetch_add(1, std::memory_order_release);
      }
    }
    n_add(&s.users, -1);
  }
  return any;
}
inline void pool_main(int index) {
  my_index() = index;
  for (;;) {
    int w = n_load(&g_wake);
    for (int k = 0; k < 20; ++k) { if (scan()) k = 0; else sched_yield(); }
    futex_wait(&g_wake, w);
  }
}
inline void start_pool() {
  int want = limit() - 1;
  while (n_load(&g_started) < want) { int k = n_add(&g_started, 1); if (k >= 7) { break; } std::thread(pool_main, k + 1).detach(); }
}
// Run f(i) for i in [0, n): pieces of one parallel loop.
template <class F>
void run_pieces(size_t n, F&& f) {
  if (!n) return;
  n_add64(&stats().loops, 1); n_add64(&stats().pieces, n);
  std::vector<int> order(n); for (size_t i = 0; i < n; ++i) order[i] = (int)i;
  if (rnd() & 3) for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[below(i)]);
  int P = limit();
  if (P <= 1 || n == 1) { for (int i : order) f((size_t)i); return; }
  start_pool();
  using FF = std::remove_reference_t<F>;
  Job j; j.n = (int)n; j.order = std::move(order); j.ctx = (void*)std::addressof(f);
  j.run = [](void* c, size_t i) { (*(FF*)c)(i); };
  j.start.store(1, std::memory_order_release);
  int s = -1;
  for (int i = 0; i < NSLOT; ++i) if (n_cas_p(&g_slots[i].owner, nullptr, &j)) { n_store_p(&g_slots[i].job, &j); s = i; break; }
  if (s >= 0) {
    n_add(&g_wake, 1); futex_wake(&g_wake);
    // usually let others have a go first
    if (rnd() & 7) for (int k = 0; k < 60 && !n_load(&j.joined); ++k) { if (k < 40) sched_yield(); else { timespec t{0, 20000}; nanosleep(&t, nullptr); } }
  }
  work(j, false);
  if (s >= 0) { n_store_p(&g_slots[s].job, nullptr); while (n_load(&g_slots[s].users)) sched_yield(); n_store_p(&g_slots[s].owner, nullptr); }
  j.end.load(std::memory_order_acquire);
  if (j.error) std::rethrow_exception(j.error);
}
inline size_t piece_target(size_t most) {    // how many pieces to aim for
  size_t P = (size_t)limit();
  switch (below(5)) { case 0: return 1 + below(2); case 1: return P; case 2: return 2 + below(3 * P); case 3: return most < 200 ? most : 4 * P; default: return 2 + below(P); }
}
// Cut a TBB range at random; the pieces are in the order of the splitting constructor's convention (new piece = right).
template <class R>
std::vector<std::unique_ptr<R>> cut(const R& whole) {
  std::list<std::unique_ptr<R>> l; l.push_back(std::make_unique<R>(whole));
  size_t target = piece_target(200);
  // breadth-first over the pieces, skipping some, so that sizes differ
  bool more = true;
  while (more && l.size() < target) {
    more = false;
    for (auto i = l.begin(); i != l.end() && l.size() < target; ++i) {
      if (!(*i)->is_divisible()) continue;
      if (below(4) == 0) { more = true; continue; }
      auto n = std::make_unique<R>(**i, tbb::split());
      i = l.insert(std::next(i), std::move(n)); more = true;
    }
  }
  std::vector<std::unique_ptr<R>> v; for (auto& p : l) v.push_back(std::move(p));
  return v;
}
// Cut [first, last) at random
template <class I>
std::vector<std::pair<I, I>> cut_index(I first, I last) {
  using D = decltype(last - first);
  D n = last - first; std::vector<std::pair<I, I>> v; if (!(n > 0)) return v;
  size_t target = std::min<size_t>(piece_target((size_t)n), (size_t)n);
  std::vector<D> at; at.push_back(0); at.push_back(n);
  if (target >= (size_t)n && n < 100000) { for (D i = 1; i < n; ++i) at.push_back(i); } else for (size_t k = 1; k < target; ++k) at.push_back((D)below((uint64_t)n));
  std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end());
  for (size_t k = 0; k + 1 < at.size(); ++k) v.push_back({I(first + at[k]), I(first + at[k + 1])});
  return v;
}
// Adjacent values joined in a random order of joins
template <class V, class J>
V join_all(std::vector<std::optional<V>>& v, J&& join) {
  while (v.size() > 1) { size_t i = below(v.size() - 1); V r = join(*v[i], *v[i + 1]); v[i].reset(); v[i].emplace(std::move(r)); v.erase(v.begin() + (long)i + 1); }
  return std::move(*v[0]);
}
// fold groups of consecutive pieces: value(first piece, last piece)
inline std::vector<std::pair<size_t, size_t>> groups(size_t n) {
  std::vector<std::pair<size_t, size_t>> g; bool single = below(2);
  for (size_t i = 0; i < n;) { size_t k = single ? 1 : 1 + below(3); k = std::min(k, n - i); g.push_back({i, i + k}); i += k; }
  return g;
}
}    // namespace nwv_shim

namespace tbb {
namespace nwv_impl {
struct auto_partitioner {}; struct simple_partitioner {}; struct static_partitioner {}; struct affinity_partitioner {};
struct task_group_context { enum kind_type { isolated, bound }; task_group_context(kind_type = bound) {} bool cancel_group_execution() { return false; } };
template <class T> inline constexpr bool is_partitioner = std::is_same_v<std::decay_t<T>, auto_partitioner> || std::is_same_v<std::decay_t<T>, simple_partitioner> || std::is_same_v<std::decay_t<T>, static_partitioner> || std::is_same_v<std::decay_t<T>, affinity_partitioner>;
template <class R> concept Range = requires(R& r) { r.is_divisible(); R(r, tbb::split()); };

template <class R, class B, class... P> requires Range<std::decay_t<R>>
void parallel_for(R&& range, const B& body, P&&...) {
  using T = std::decay_t<R>;
  if (range.empty()) return;
  auto v = nwv_shim::cut<T>(range);
  nwv_shim::run_pieces(v.size(), [&](size_t i) { body(*v[i]); });
}
template <class I, class F, class... P> requires std::is_integral_v<I>
void parallel_for(I first, I last, const F& f, P&&...) {
  if (!(first < last)) return;
  auto v = nwv_shim::cut_index(first, last);
  nwv_shim::run_pieces(v.size(), [&](size_t i) { for (I k = v[i].first; k < v[i].second; ++k) f(k); });
}
template <class I, class F, class... P> requires std::is_integral_v<I>
void parallel_for(I first, I last, I step, const F& f, P&&...) {
  if (!(first < last)) return;
  size_t n = (size_t)((last - first - 1) / step + 1); auto v = nwv_shim::cut_index((size_t)0, n);
  nwv_shim::run_pieces(v.size(), [&](size_t i) { for (size_t k = v[i].first; k < v[i].second; ++k) f((I)(first + (I)k * step)); });
}
template <class R, class V, class B, class J, class... P> requires Range<std::decay_t<R>>
std::decay_t<V> parallel_reduce(R&& range, const V& identity, const B& body, const J& join, P&&...) {
  using T = std::decay_t<R>; using X = std::decay_t<V>;
  if (range.empty()) return identity;
  auto v = nwv_shim::cut<T>(range); auto g = nwv_shim::groups(v.size());
  std::vector<std::optional<X>> res(g.size());
  nwv_shim::run_pieces(g.size(), [&](size_t i) { X x = identity; for (size_t k = g[i].first; k < g[i].second; ++k) { X y = body(*v[k], std::as_const(x)); x = std::move(y); } res[i].emplace(std::move(x)); });
  return nwv_shim::join_all(res, [&](X& a, X& b) -> X { return join(a, b); });
}
template <class R, class B, class... P> requires(Range<std::decay_t<R>> && requires(B& b, std::decay_t<R>& r) { b(r); b.join(b); })
void parallel_reduce(R&& range, B& body, P&&...) {
  using T = std::decay_t<R>;
  if (range.empty()) return;
  auto v = nwv_shim::cut<T>(range); auto g = nwv_shim::groups(v.size());
  std::vector<std::unique_ptr<B>> bs; for (size_t i = 1; i < g.size(); ++i) bs.push_back(std::make_unique<B>(body, tbb::split()));
  auto at = [&](size_t i) -> B& { return i ? *bs[i - 1] : body; };
  nwv_shim::run_pieces(g.size(), [&](size_t i) { for (size_t k = g[i].first; k < g[i].second; ++k) at(i)(*v[k]); });
  for (size_t i = 1; i < g.size(); ++i) body.join(at(i));
}
template <class R, class V, class B, class J, class... P> requires Range<std::decay_t<R>>
std::decay_t<V> parallel_deterministic_reduce(R&& range, const V& identity, const B& body, const J& join, P&&...) { return parallel_reduce(std::forward<R>(range), identity, body, join); }

template <class Item>
class feeder {
  std::mutex m; std::vector<Item> items;
public:
  void add(const Item& x) { std::lock_guard l(m); items.push_back(x); }
  void add(Item&& x) { std::lock_guard l(m); items.push_back(std::move(x)); }
  std::vector<Item> take() { std::lock_guard l(m); return std::move(items); }
};
template <class It, class F, class... P> requires requires(It i, It j) { *i; ++i; i != j; }
void parallel_for_each(It first, It last, const F& f, P&&...) {
  using Item = std::decay_t<decltype(*first)>;
  if constexpr (std::is_invocable_v<const F&, decltype(*first)>) {
    if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<It>::iterator_category>) {
      auto v = nwv_shim::cut_index(first, last);
      nwv_shim::run_pieces(v.size(), [&](size_t i) { for (It k = v[i].first; k != v[i].second; ++k) f(*k); });
    } else if constexpr (std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<It>::iterator_category>) {
      std::vector<It> v; for (; first != last; ++first) v.push_back(first);
      nwv_shim::run_pieces(v.size(), [&](size_t i) { f(*v[i]); });
    } else {
      std::vector<Item> v; for (; first != last; ++first) v.push_back(*first);
      nwv_shim::run_pieces(v.size(), [&](size_t i) { f(std::move(v[i])); });
    }
  } else {
    std::vector<Item> v; for (; first != last; ++first) v.push_back(*first);
    while (!v.empty()) { feeder<Item> fd; nwv_shim::run_pieces(v.size(), [&](size_t i) { f(v[i], fd); }); v = fd.take(); }
  }
}
template <class C, class F> requires requires(C& c) { std::begin(c); std::end(c); }
void parallel_for_each(C&& c, const F& f) { parallel_for_each(std::begin(c), std::end(c), f); }
template <class... F>
void parallel_invoke(const F&... f) { std::function<void()> v[] = {std::function<void()>(std::cref(f))...}; nwv_shim::run_pieces(sizeof...(F), [&](size_t i) { v[i](); }); }
template <class It> void parallel_sort(It a, It b) { std::sort(a, b); }
template <class It, class C> requires requires(It a, C c) { c(*a, *a); } void parallel_sort(It a, It b, const C& c) { std::sort(a, b, c); }
template <class R> requires requires(R& r) { r.begin(); r.end(); } void parallel_sort(R&& r) { std::sort(r.begin(), r.end()); }
template <class R, class C> requires requires(R& r) { r.begin(); r.end(); } void parallel_sort(R&& r, const C& c) { std::sort(r.begin(), r.end(), c); }
// parallel_scan, both forms, in two sequential passes over random pieces
template <class R, class V, class S, class J, class... P> requires Range<std::decay_t<R>>
V parallel_scan(const R& range, const V& identity, const S& scan, const J& join, P&&...) {
  auto v = nwv_shim::cut<std::decay_t<R>>(range); V sum = identity;
  for (auto& p : v) sum = scan(*p, sum, true);
  (void)join; return sum;
}
class task_group {
  std::vector<std::function<void()>> fs; std::mutex m;
public:
  task_group() {} template <class C> explicit task_group(C&) {}
  template <class F> void run(F&& f) { std::lock_guard l(m); auto p = std::make_shared<std::decay_t<F>>(std::forward<F>(f)); fs.push_back([p] { (*p)(); }); }
  template <class F> int run_and_wait(F&& f) { run(std::forward<F>(f)); return wait(); }
  int wait() { for (;;) { std::vector<std::function<void()>> g; { std::lock_guard l(m); g.swap(fs); } if (g.empty()) return 1; nwv_shim::run_pieces(g.size(), [&](size_t i) { g[i](); }); } }
  void cancel() {}
  ~task_group() {}
};
class task_arena {
public:
  static constexpr int automatic = -1, not_initialized = -2;
  task_arena(int = automatic, unsigned = 1) {} void initialize() {} void initialize(int, unsigned = 1) {} void terminate() {}
  template <class F> auto execute(F&& f) -> decltype(f()) { return f(); }
  int max_concurrency() const { return nwv_shim::limit(); }
};
namespace this_task_arena {
inline int current_thread_index() { return nwv_shim::my_index(); }
inline int max_concurrency() { return nwv_shim::limit(); }
template <class F> auto isolate(const F& f) -> decltype(f()) { return f(); }
}    // namespace this_task_arena
}    // namespace nwv_impl
using namespace nwv_impl;
namespace this_task_arena = nwv_impl::this_task_arena;
}    // namespace tbb

#include <pstl/pstl_config.h>
namespace __pstl {
namespace __tbb_backend {
template <typename T> class __buffer {
  std::allocator<T> a; T* p; std::size_t n; __buffer(const __buffer&) = delete; void operator=(const __buffer&) = delete;
public:
  __buffer(std::size_t k) : p(a.allocate(k)), n(k) {} operator bool() const { return p; } T* get() const { return p; } ~__buffer() { a.deallocate(p, n); }
};
inline void __cancel_execution() {}
template <class E, class I, class F> void __parallel_for(E&&, I first, I last, F f) {
  auto v = nwv_shim::cut_index(first, last); nwv_shim::run_pieces(v.size(), [&](size_t i) { f(v[i].first, v[i].second); });
}
template <class E, class V, class I, class B, class R> V __parallel_reduce(E&&, I first, I last, const V& identity, const B& body, const R& join) {
  if (first == last) return identity;
  auto v = nwv_shim::cut_index(first, last); auto g = nwv_shim::groups(v.size()); std::vector<std::optional<V>> res(g.size());
  nwv_shim::run_pieces(g.size(), [&](size_t i) { V x = identity; for (size_t k = g[i].first; k < g[i].second; ++k) { V y = body(v[k].first, v[k].second, x); x = std::move(y); } res[i].emplace(std::move(x)); });
  return nwv_shim::join_all(res, [&](V& a, V& b) -> V { return join(a, b); });
}
template <class E, class I, class U, class T, class C, class R> T __parallel_transform_reduce(E&&, I first, I last, U u, T init, C combine, R reduce) {
  auto v = nwv_shim::cut_index(first, last); if (v.empty()) return init;
  std::vector<std::optional<T>> res(v.size() + 1); res[0].emplace(std::move(init));
  nwv_shim::run_pieces(v.size(), [&](size_t i) { T x = u(v[i].first); I f = v[i].first; ++f; if (f != v[i].second) x = reduce(f, v[i].second, x); res[i + 1].emplace(std::move(x)); });
  return nwv_shim::join_all(res, [&](T& a, T& b) -> T { return combine(a, b); });
}
template <class E, class I, class T, class R, class C, class S, class A> void __parallel_strict_scan(E&&, I n, T initial, R reduce, C combine, S scan, A apex) {
  auto v = nwv_shim::cut_index(I(0), n); if (v.empty()) { apex(initial); return; }
  std::vector<std::optional<T>> pre(v.size()); nwv_shim::run_pieces(v.size(), [&](size_t i) { pre[i].emplace(reduce(v[i].first, I(v[i].second - v[i].first))); });
  T sum = initial; for (auto& p : pre) { T t = *p; p.emplace(sum); sum = combine(sum, t); }
  apex(sum); nwv_shim::run_pieces(v.size(), [&](size_t i) { scan(v[i].first, I(v[i].second - v[i].first), *pre[i]); });
}
template <class E, class I, class U, class T, class C, class R, class S> T __parallel_transform_scan(E&&, I n, U u, T init, C combine, R reduce, S scan) {
  auto v = nwv_shim::cut_index(I(0), n); if (v.empty()) return init;
  std::vector<std::optional<T>> pre(v.size()); nwv_shim::run_pieces(v.size(), [&](size_t i) { T x = u(v[i].first); if (v[i].first + 1 < v[i].second) x = reduce(I(v[i].first + 1), v[i].second, x); pre[i].emplace(std::move(x)); });
  T sum = init; for (auto& p : pre) { T t = *p; p.emplace(sum); sum = combine(sum, t); }
  std::vector<std::optional<T>> last(v.size()); nwv_shim::run_pieces(v.size(), [&](size_t i) { last[i].emplace(scan(v[i].first, v[i].second, *pre[i])); });
  return *last.back();
}
template <class E, class It, class C, class L> void __parallel_stable_sort(E&&, It first, It last, C comp, L leaf, std::size_t = 0) { leaf(first, last, comp); }
template <class E, class I1, class I2, class I3, class C, class L> void __parallel_merge(E&&, I1 a, I1 b, I2 x, I2 y, I3 o, C comp, L leaf) { leaf(a, b, x, y, o, comp); }
template <class E, class F1, class F2> void __parallel_invoke(E&&, F1&& f1, F2&& f2) { nwv_shim::run_pieces(2, [&](size_t i) { if (i) std::forward<F2>(f2)(); else std::forward<F1>(f1)(); }); }
}    // namespace __tbb_backend
}    // namespace __pstl
