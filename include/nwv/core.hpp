// nwv/core.hpp: case runner shared by every harness in /verif/checks.
//
// A harness registers families of cases.  A case is determined by (VERIF_SEED, family, index) alone.
// bin/check.py starts several worker processes ("work" mode) which pull case numbers from a counter in a
// shared file and append one line per event to a log; it also re-runs single cases ("one" mode).
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <time.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <stdexcept>
#include <vector>

#ifdef NWV_LEAK
// Live blocks of memory and mapped pages: every allocation of the process, the library's, the standard library's and
// TBB's (which must not switch to an allocator of its own), passes through here.
#include <sys/syscall.h>
#include <oneapi/tbb/detail/_config.h>
#include <oneapi/tbb/detail/_small_object_pool.h>
namespace nwv_mem {
inline std::atomic<long> live{0}, taken{0}, pages{0};
inline void* in(void* p) { if (p) { live.fetch_add(1, std::memory_order_relaxed); taken.fetch_add(1, std::memory_order_relaxed); } return p; }
}
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*);
__attribute__((noinline)) void* malloc(size_t n) noexcept { return nwv_mem::in(__libc_malloc(n)); }
__attribute__((noinline)) void* calloc(size_t a, size_t b) noexcept { return nwv_mem::in(__libc_calloc(a, b)); }
__attribute__((noinline)) void free(void* p) noexcept { if (p) nwv_mem::live.fetch_sub(1, std::memory_order_relaxed); __libc_free(p); }
__attribute__((noinline)) void* realloc(void* q, size_t n) noexcept { void* p = __libc_realloc(q, n); if (!q) nwv_mem::in(p); else if (!p && !n) nwv_mem::live.fetch_sub(1, std::memory_order_relaxed); return p; }
__attribute__((noinline)) void* memalign(size_t a, size_t n) noexcept { return nwv_mem::in(__libc_memalign(a, n)); }
__attribute__((noinline)) void* aligned_alloc(size_t a, size_t n) noexcept { return memalign(a, n); }
__attribute__((noinline)) int posix_memalign(void** r, size_t a, size_t n) noexcept { void* p = memalign(a, n); if (!p) return 12; *r = p; return 0; }
__attribute__((noinline)) void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t o) noexcept {
  void* p = (void*)syscall(SYS_mmap, a, n, prot, flags, fd, o);
  if (p != MAP_FAILED && !(flags & MAP_FIXED)) nwv_mem::pages.fetch_add((long)((n + 4095) / 4096));
  return p;
}
__attribute__((noinline)) int munmap(void* a, size_t n) noexcept { int r = (int)syscall(SYS_munmap, a, n); if (!r) nwv_mem::pages.fetch_sub((long)((n + 4095) / 4096)); return r; }
void* dlopen(const char*, int) noexcept { return nullptr; }
}
// Task objects of TBB come from pools of its own, and the standard library's parallel sort never gives some of them back
// (576 per sort of 100000 numbers): memory of the toolchain, not of the library under test, and not counted.
namespace tbb::detail::r1 {
namespace { d1::small_object_pool* const nwv_pool = (d1::small_object_pool*)&nwv_mem::live; }
__attribute__((noinline)) void* allocate(d1::small_object_pool*& p, std::size_t n, const d1::execution_data&) { p = nwv_pool; return __libc_malloc(n); }
__attribute__((noinline)) void* allocate(d1::small_object_pool*& p, std::size_t n) { p = nwv_pool; return __libc_malloc(n); }
__attribute__((noinline)) void deallocate(d1::small_object_pool&, void* q, std::size_t, const d1::execution_data&) { __libc_free(q); }
__attribute__((noinline)) void deallocate(d1::small_object_pool&, void* q, std::size_t) { __libc_free(q); }
}
#endif

namespace nwv {

// ---------------------------------------------------------------------------------------------- random numbers
inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}
struct Rng {
  using result_type = uint64_t;
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  // uniform in [0, n), n > 0
  uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
  // uniform in [a, b]
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  double unit() { return ((*this)() >> 11) * (1.0 / 9007199254740992.0); }
  bool coin(double p = 0.5) { return unit() < p; }
  template <class C> auto& pick(C& c) { return c[below(c.size())]; }
  template <class T> T of(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class C> void shuffle(C& c) {
    for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]);
  }
  // log-uniform size in [a, b]
  uint64_t logsize(uint64_t a, uint64_t b) {
    double x = std::log(a + 1.0) + unit() * (std::log(b + 1.0) - std::log(a + 1.0));
    uint64_t v = (uint64_t)(std::exp(x) - 1.0 + 0.5);
    return std::min(std::max(v, a), b);
  }
};

// ---------------------------------------------------------------------------------------------- registry
struct Ctx;
struct Family {
  std::string name;
  size_t      quick, thorough;
  std::function<void(Ctx&)> fn;
};
inline std::vector<Family>& families() { static std::vector<Family> f; return f; }
struct Reg {
  Reg(const char* n, size_t q, size_t t, std::function<void(Ctx&)> f) { families().push_back({n, q, t, std::move(f)}); }
};
#define NWV_CAT2(a, b) a##b
#define NWV_CAT(a, b) NWV_CAT2(a, b)
// NWV_FAMILY(name, quick cases, thorough cases) { body using c }
#define NWV_FAMILY(name, q, t)                                                     \
  static void NWV_CAT(nwv_fam_, name)(nwv::Ctx & c);                                \
  static nwv::Reg NWV_CAT(nwv_reg_, name)(#name, q, t, NWV_CAT(nwv_fam_, name));     \
  static void NWV_CAT(nwv_fam_, name)([[maybe_unused]] nwv::Ctx & c)

struct CaseFailed {};    // thrown to abandon a case after a failure

inline std::string fmt(const char* f, ...) {
  char    buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

struct Out {
  int  fd = 1;
  void line(const std::string& s) {
    std::string t;
    for (char ch : s) t += (ch == '\n' || ch == '\r') ? ' ' : ch;
    t += "\n";
    size_t off = 0;
    while (off < t.size()) {
      ssize_t w = ::write(fd, t.data() + off, t.size() - off);
      if (w <= 0) break;
      off += (size_t)w;
    }
  }
};
inline Out& out() { static Out o; return o; }

struct Ctx {
  const Family* fam   = nullptr;
  size_t        index = 0;
  uint64_t      seed  = 0;
  bool          thorough = false;
  size_t        gid   = 0;
  Rng           rng{1};
  std::string   desc;
  uint64_t      digest     = 0;    // digest of the case's input: distinct cases have distinct digests
  bool          nontrivial = false;
  size_t        nfail      = 0;
  std::map<std::string, uint64_t>* counters = nullptr;
  std::string   tmpdir;            // scratch directory of this worker

  // record that the monitor looked at something
  void count(const std::string& what, uint64_t n = 1) { if (counters) (*counters)[what] += n; }
  void describe(const std::string& s) { if (desc.size() < 600) { desc += desc.empty() ? s : "; " + s; } digest = mix(digest ^ hash_str(s)); }
  void input(uint64_t h) { digest = mix(digest ^ h); }
  void interesting(bool b = true) { nontrivial = nontrivial || b; }

  bool          muted = false;      // repeating the case for what it leaves behind: its results are judged elsewhere

  void fail(const std::string& key, const std::string& msg) {
    ++nfail;
    if (muted) return;
    if (nfail <= 4) out().line("F " + std::to_string(gid) + " " + fam->name + ":" + key + "\t" + msg + "\t" + desc);
  }
  // abandon the case at once
  [[noreturn]] void die(const std::string& key, const std::string& msg) { fail(key, msg); throw CaseFailed{}; }
  bool check(bool ok, const char* key, const char* f = "", ...) {
    if (ok) return true;
    char    buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    fail(key, buf);
    return false;
  }
};

// monitors running inside library callbacks may want the current case
inline Ctx*& current() { static Ctx* p = nullptr; return p; }

inline uint64_t case_seed(uint64_t seed, const std::string& fam, size_t idx) { return mix(mix(seed) ^ hash_str(fam) ^ mix(idx * 2 + 1)); }

struct Hooks {    // called around each case (thread limits, perturbation...)
  std::function<void(Ctx&)> before, after;
};
inline Hooks& hooks() { static Hooks h; return h; }

#ifdef NWV_LEAK
// What the process holds: blocks of memory, descriptors, mapped pages, threads.
struct Held {
  static constexpr int N = 4;
  long v[N];
  static long entries(const char* d) {    // without <dirent.h>, whose names harnesses use
    long n = 0, k; int fd = ::open(d, O_RDONLY | O_DIRECTORY); char b[8192]; if (fd < 0) return 0;
    while ((k = syscall(SYS_getdents64, fd, b, sizeof b)) > 0) for (long i = 0; i < k; i += *(unsigned short*)(b + i + 16)) ++n;
    ::close(fd); return n;
  }
  static Held now() {
    Held h; h.v[0] = nwv_mem::live.load();
    h.v[1] = entries("/proc/self/fd"); h.v[3] = entries("/proc/self/task"); h.v[2] = nwv_mem::pages.load();
    return h;
  }
  static const char* name(int i) { static const char* n[] = {"blocks of memory", "file descriptors", "mapped pages", "threads"}; return n[i]; }
  static const char* key(int i) { static const char* n[] = {"memory", "descriptors", "mappings", "threads"}; return n[i]; }
};
// The same case again and again: what it holds may settle, but must not grow with every repetition.
inline void run_leak(const Family& f, size_t idx, size_t gid, uint64_t seed, bool thorough, std::map<std::string, uint64_t>& counters, const std::string& tmpdir) {
  Ctx first; bool have = false; std::map<std::string, uint64_t> drop;
  auto once = [&] {
    Ctx c; c.fam = &f; c.index = idx; c.gid = gid; c.seed = seed; c.thorough = thorough; c.counters = &drop; c.tmpdir = tmpdir; c.muted = have; if (!have) c.counters = &counters;
    c.rng = Rng(case_seed(seed, f.name, idx)); current() = &c;
    try { f.fn(c); } catch (...) {}
    if (hooks().after) hooks().after(c);
    current() = nullptr; if (!have) { first = c; first.counters = &counters; first.muted = false; have = true; }
  };
  out().line("S " + std::to_string(gid) + " " + f.name + " " + std::to_string(idx));
  long t0 = nwv_mem::taken.load();
  timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); once(); once(); clock_gettime(CLOCK_MONOTONIC, &b);
  bool brief = b.tv_sec - a.tv_sec < 3;
  struct Three { bool grows[Held::N]; long by[Held::N]; };
  auto windows = [&](long reps) {
    Held h[4]; h[0] = Held::now();
    for (int w = 1; w < 4; ++w) { for (long k = 0; k < reps; ++k) once(); h[w] = Held::now(); }
    Three t; for (int i = 0; i < Held::N; ++i) {
      long lo = LONG_MAX, hi = 0; for (int w = 1; w < 4; ++w) { long d = h[w].v[i] - h[w - 1].v[i]; lo = std::min(lo, d); hi = std::max(hi, d); }
      t.grows[i] = lo >= reps && hi <= 2 * lo; t.by[i] = (h[3].v[i] - h[0].v[i]);
    }
    return t;
  };
  bool sus = false; size_t reps = 6; Three t;
  if (brief) { t = windows(2); for (bool g : t.grows) sus = sus || g; counters["repetitions"] += 8; } else counters["cases too long to repeat"] += 1;
  if (sus) {
    counters["growths looked into"] += 1;
    t = windows((long)reps); Three t2 = windows((long)reps); counters["repetitions"] += 6 * reps;
    for (int i = 0; i < Held::N; ++i) if (t.grows[i] && t2.grows[i]) first.fail("leak-" + std::string(Held::key(i)), fmt("%zu repetitions of the same case leave %ld more %s, and so do the next %zu (%ld)", 3 * reps, t.by[i], Held::name(i), 3 * reps, t2.by[i]));
  }
  counters["blocks taken and given back"] += (uint64_t)(nwv_mem::taken.load() - t0);
  out().line("D " + std::to_string(gid) + " " + (first.nontrivial ? "1" : "0") + " " + fmt("%016llx", (unsigned long long)first.digest) + " " + (idx < 2 ? first.desc : std::string()));
}
#endif

inline void run_case(const Family& f, size_t idx, size_t gid, uint64_t seed, bool thorough, std::map<std::string, uint64_t>& counters,
                     const std::string& tmpdir) {
#ifdef NWV_LEAK
  return run_leak(f, idx, gid, seed, thorough, counters, tmpdir);
#endif
  Ctx c;
  c.fam = &f; c.index = idx; c.gid = gid; c.seed = seed; c.thorough = thorough; c.counters = &counters; c.tmpdir = tmpdir;
  c.rng = Rng(case_seed(seed, f.name, idx));
  out().line("S " + std::to_string(gid) + " " + f.name + " " + std::to_string(idx));
  current() = &c;
  try {
    if (hooks().before) hooks().before(c);
    f.fn(c);
  } catch (CaseFailed&) {
  } catch (std::exception& e) {
    c.fail("exception", std::string("unexpected exception: ") + e.what());
  } catch (...) {
    c.fail("exception", "unexpected exception of unknown type");
  }
  if (hooks().after) hooks().after(c);
  current() = nullptr;
  out().line("D " + std::to_string(gid) + " " + (c.nontrivial ? "1" : "0") + " " + fmt("%016llx", (unsigned long long)c.digest) + " " +
             (idx < 2 ? c.desc : std::string()));
}

// NWV_SCALE (a factor) and NWV_SKIP (comma-separated families) adapt a harness to another property's check
inline size_t cases_of(const Family& f, bool th) {
  static const char* sc = getenv("NWV_SCALE");
  static const char* sk = getenv("NWV_SKIP");
  size_t             n  = th ? f.thorough : f.quick;
  if (sk && (std::string(",") + sk + ",").find("," + f.name + ",") != std::string::npos) return 0;
  static const bool no_scale = sk && (std::string(",") + sk + ",").find(",*scale*,") != std::string::npos;    // every family of large graphs
  if (no_scale && f.name.find("scale") != std::string::npos) return 0;
  if (sc) n = std::max<size_t>(std::min<size_t>(n, 4), (size_t)(n * atof(sc)));
  return n;
}

// usage: work SEED TIER LOG COUNTERFILE TMPDIR [only-family-prefix]
//        one  SEED TIER LOG TMPDIR FAMILY INDEX
//        list TIER
inline int main(int argc, char** argv) {
  if (argc >= 2 && std::string(argv[1]) == "list") {
    bool th = argc > 2 && std::string(argv[2]) == "thorough";
    for (auto& f : families()) printf("%s %zu\n", f.name.c_str(), cases_of(f, th));
    return 0;
  }
  if (argc < 7) { fprintf(stderr, "usage: work|one|list ...\n"); return 3; }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  std::string mode = argv[1];
  uint64_t    seed = strtoull(argv[2], nullptr, 10);
  bool        th   = std::string(argv[3]) == "thorough";
  out().fd         = open(argv[4], O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (out().fd < 0) { perror("log"); return 3; }
  std::map<std::string, uint64_t> counters;
  auto flush_counters = [&] {
    for (auto& [k, v] : counters) out().line("C " + k + "\t" + std::to_string(v));
    counters.clear();
  };
  std::vector<std::pair<const Family*, size_t>> cases;
  // interleave so that early failures of any family show early; within a family, in order
  for (auto& f : families())
    for (size_t i = 0; i < (cases_of(f, th)); ++i) cases.push_back({&f, i});
  if (mode == "one") {
    std::string fam = argv[6];
    size_t      idx = strtoull(argv[7], nullptr, 10);
    for (auto& f : families())
      if (f.name == fam) { run_case(f, idx, 0, seed, th, counters, argv[5]); flush_counters(); out().line("E"); return 0; }
    fprintf(stderr, "no such family\n");
    return 3;
  }
  int cf = open(argv[5], O_RDWR);
  if (cf < 0) { perror("counter"); return 3; }
  auto* ctr = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, cf, 0);
  if (ctr == MAP_FAILED) { perror("mmap"); return 3; }
  for (size_t n = 0;; ++n) {
    uint64_t g = ctr->fetch_add(1);
    if (g >= cases.size()) break;
    run_case(*cases[g].first, cases[g].second, g, seed, th, counters, argv[6]);
    if (n % 64 == 63) flush_counters();
  }
  flush_counters();
  out().line("E");
  fflush(nullptr);
  _exit(0);
}

#ifdef NWV_SHIM
inline void count_shim(Ctx& c) {
  auto&           s = nwv_shim::stats();
  static uint64_t l = 0, p = 0, w = 0;
  uint64_t        nl = nwv_shim::n_load64(&s.loops), np = nwv_shim::n_load64(&s.pieces), nw = nwv_shim::n_load64(&s.by_workers);
  c.count("parallel loops run by the shim", nl - l);
  c.count("pieces the shim cut them into", np - p);
  c.count("pieces run by other threads", nw - w);
  l = nl; p = np; w = nw;
}
#endif
inline int plain_main(int argc, char** argv) {
#ifdef NWV_SHIM
  hooks().before = [](Ctx& c) { nwv_shim::seed(mix(c.rng.s ^ 0x77)); };
  hooks().after  = count_shim;
#endif
  return nwv::main(argc, argv);
}
}    // namespace nwv
#define NWV_MAIN int main(int argc, char** argv) { return nwv::plain_main(argc, argv); }
