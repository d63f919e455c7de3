// nwv/perturb.hpp: randomised yields at the library's atomic accesses (needs -DNWGRAPH_VERIFY_HOOKS before nwgraph headers).
#pragma once
#include "core.hpp"
#include <atomic>
#include <sched.h>
#include <time.h>
namespace nwv {
struct Perturb {    // process-wide state; thread-local generators
  static std::atomic<uint64_t>& hits() { static std::atomic<uint64_t> h{0}; return h; }
  static std::atomic<uint64_t>& yields() { static std::atomic<uint64_t> h{0}; return h; }
  static std::atomic<uint64_t>& epoch() { static std::atomic<uint64_t> e{1}; return e; }
  static std::atomic<uint32_t>& rate() { static std::atomic<uint32_t> r{0}; return r; }
  static std::atomic<int64_t>& budget() { static std::atomic<int64_t> b{0}; return b; }    // perturbations left in this case
  static void hook() {
    thread_local uint64_t s = 0, ep = 0, n = 0;
    static std::atomic<uint64_t> tid{0};
    thread_local uint64_t me = tid.fetch_add(1);
    uint64_t e = epoch().load(std::memory_order_relaxed);
    if (ep != e) { ep = e; s = mix(e * 977 + me); }
    if ((++n & 63) == 0) hits().fetch_add(64, std::memory_order_relaxed);
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    uint32_t r = rate().load(std::memory_order_relaxed);
    if (r && (uint32_t)(s >> 40) % r == 0 && budget().load(std::memory_order_relaxed) > 0) {
      budget().fetch_sub(1, std::memory_order_relaxed);
      yields().fetch_add(1, std::memory_order_relaxed);
      uint32_t w = (uint32_t)(s >> 33) & 7;
      if (w < 5) sched_yield();
      else if (w < 7) { for (volatile int i = 0; i < 400; i = i + 1) ; }
      else { timespec t{0, 20000}; nanosleep(&t, nullptr); }
    }
  }
  static void install(void (**slot)()) { *slot = &hook; }
  // called per case
  static void seed(Rng& r) { epoch().store(r() | 1); static const uint32_t m[] = {0, 0, 4, 16, 64, 512}; rate().store(m[r.below(6)]); budget().store(4000); }
};
}    // namespace nwv
