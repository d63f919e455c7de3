// P37: the small helpers that everything else counts, splits and orders with. Oracle: arithmetic and plain containers.
#include <nwv/edges.hpp>
#include <nwgraph/util/util.hpp>
#include <nwgraph/util/util_par.hpp>
#include <nwgraph/util/make_priority_queue.hpp>
#include <nwgraph/util/arrow_proxy.hpp>
#include <nwgraph/util/timer.hpp>
#include <list>
#include <thread>
using namespace nwv;
template <class I> static void tile(Ctx& c, size_t N, size_t n, const char* nm) {    // the n blocks of [0, N) are consecutive, in order, sizes differ by at most one
  I at = 0; size_t lo = SIZE_MAX, hi = 0;
  for (size_t id = 0; id < n; ++id) {
    auto [b, e] = nwg::block((I)N, (I)n, (I)id); if (b != at || e < b) c.die(std::string("block<") + nm + ">", fmt("block %zu of %zu of [0,%zu) is [%lld,%lld)", id, n, N, (long long)b, (long long)e));
    size_t len = (size_t)(e - b); lo = std::min(lo, len); hi = std::max(hi, len); at = e;
  }
  if (at != (I)N) c.die(std::string("block<") + nm + ">", fmt("%zu blocks end at %lld of %zu", n, (long long)at, N)); if (hi - lo > 1) c.die(std::string("block<") + nm + ">", fmt("sizes from %zu to %zu", lo, hi)); c.count("blocks checked", n);
}
NWV_FAMILY(blocks, 300, 20000) {
  size_t N = c.rng.of({(size_t)c.rng.below(40), (size_t)c.rng.below(5000), (size_t)c.rng.below(1u << 30)}), n = c.rng.of({(size_t)c.rng.range(1, 9), (size_t)c.rng.range(1, 70), (size_t)c.rng.range(1, 3000)}); c.input(mix(N * 4099 + n)); c.interesting(N > n); c.describe(fmt("N=%zu n=%zu", N, n));
  tile<uint64_t>(c, N, n, "uint64"); tile<int64_t>(c, N, n, "int64"); tile<uint32_t>(c, N, n, "uint32"); tile<int>(c, N, n, "int");
  if (c.rng.coin(0.3)) { uint64_t big = (1ull << 62) - c.rng.below(1000); uint64_t m = c.rng.range(1, 64); uint64_t at = 0; for (uint64_t i = 0; i < m; ++i) { auto [b, e] = nwg::block(big, m, i); if (b != at) c.die("block:large", fmt("block %llu of %llu", (unsigned long long)i, (unsigned long long)m)); at = e; } if (at != big) c.die("block:large", "does not reach the end"); }
}
NWV_FAMILY(logarithms, 200, 5000) {
  for (int k = 0; k < 200; ++k) {
    int bits = (int)c.rng.range(1, 64); uint64_t v = (c.rng() >> (64 - bits)) | (1ull << (bits - 1)); if (c.rng.coin(0.4)) v = 1ull << (bits - 1); else if (c.rng.coin(0.3) && bits > 1) v = (1ull << (bits - 1)) + (c.rng.coin() ? 1 : -1);
    c.input(v); int fl = 63; while (!(v >> fl & 1)) --fl; int ce = fl + ((v & (v - 1)) != 0);
    if (nwg::log2(v) != fl) c.die("log2", fmt("of %llu is %d", (unsigned long long)v, nwg::log2(v))); if (nwg::ceil_log2((uint64_t)v) != ce) c.die("ceil_log2<64>", fmt("of %llu is %d", (unsigned long long)v, nwg::ceil_log2((uint64_t)v)));
    if (v <= UINT32_MAX && nwg::ceil_log2((uint32_t)v) != ce) c.die("ceil_log2<32>", fmt("of %llu is %d", (unsigned long long)v, nwg::ceil_log2((uint32_t)v))); if (v <= INT32_MAX && nwg::ceil_log2((int32_t)v) != ce) c.die("ceil_log2<int>", fmt("of %llu is %d", (unsigned long long)v, nwg::ceil_log2((int32_t)v)));
    if (fl <= 62 && nwg::pow2(fl) != 1ull << fl) c.die("pow2", fmt("of %d", fl)); if (fl <= 29 && nwg::pow2<int>(fl) != 1 << fl) c.die("pow2<int>", fmt("of %d", fl)); c.count("logarithms checked", 3);
  }
  c.interesting(); c.describe("values of every bit length");
}
// counting instead of writing: through the standard algorithms, as the triangle counters use them
template <class A> static size_t both(const A& a, const A& b) { A r; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r.size(); }
NWV_FAMILY(counting_outputs, 200, 6000) {
  std::vector<uint32_t> a((size_t)c.rng.logsize(0, 3000)), b((size_t)c.rng.logsize(0, 3000)); size_t sp = c.rng.of({(size_t)5, (size_t)200, (size_t)6000}); for (auto& x : a) x = c.rng.below(sp); for (auto& x : b) x = c.rng.below(sp); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  uint64_t h = a.size(); for (auto x : a) h = mix(h ^ x); for (auto x : b) h = mix(h + x); c.input(h); c.interesting(a.size() && b.size()); c.describe(fmt("%zu and %zu values below %zu", a.size(), b.size(), sp)); size_t want = both(a, b), start = c.rng.below(100);
  { size_t n = start; nwg::counting_output_iterator<size_t> it(n); auto r = std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), it); if (n != start + want) c.die("counting_output_iterator", fmt("%zu instead of %zu", n - start, want)); if (r.get_count() != n) c.die("counting_output_iterator", "get_count"); *it = 1; *it++ = 2; it[5] = "x"; if (n != start + want + 3) c.die("counting_output_iterator", "single writes"); }
  { unsigned char n = 0; nwg::counting_output_iterator<unsigned char> it(n); std::copy(a.begin(), a.end(), it); if (n != (unsigned char)a.size()) c.die("counting_output_iterator<uint8>", "wrong"); }
  { nwg::counter<> k; k = std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), nwg::counter<>{}); if ((size_t)k != want) c.die("counter", fmt("%zu instead of %zu", (size_t)k, want)); nwg::counter<int> s((int)start); s = std::copy(b.begin(), b.end(), nwg::counter<int>((int)start)); if ((int)s != (int)(start + b.size()) || s.count != (int)s) c.die("counter:start", "wrong"); }
  c.count("writes counted", want + 2 * a.size() + b.size());
}
NWV_FAMILY(counting_in_parallel, 60, 1500) {
  size_t th = c.rng.range(2, 8), per = c.rng.range(1, 3000), want = th * per; c.input(mix(want * 64 + th)); c.interesting(); c.describe(fmt("%zu threads of %zu writes", th, per));
  std::atomic<size_t> at{5}; size_t locked = 5; nwg::atomic_counting_output_iterator ai(at); nwg::par_counting_output_iterator pi(locked); std::atomic<size_t> ready{0}; std::vector<std::thread> ts;
  for (size_t t = 0; t < th; ++t) ts.emplace_back([&, ai, pi]() mutable { ++ready; while (ready < th) ; for (size_t i = 0; i < per; ++i) { *ai = i; ++ai; *pi = i; ++pi; } }); for (auto& t : ts) t.join();
  if (at != want + 5) c.die("atomic_counting_output_iterator", fmt("%zu of %zu writes", (size_t)at - 5, want)); if (locked != want + 5) c.die("par_counting_output_iterator", fmt("%zu of %zu writes", locked - 5, want)); if (ai.get_count() != want + 5 || pi.get_count() != want + 5) c.die("get_count", "wrong"); c.count("concurrent writes counted", 2 * want);
}
NWV_FAMILY(heaps, 150, 5000) {    // a queue made with an order gives its elements back in that order
  using P = std::pair<int, std::string>; auto lt = [](const P& a, const P& b) { return a.first > b.first; }; auto q = nwg::make_priority_queue<P>(lt); auto d = nwg::make_priority_queue<int, std::deque<int>>(std::less<int>{}); std::multiset<int> m, md; size_t ops = (size_t)c.rng.logsize(0, 2000); uint64_t h = ops;
  size_t weight = c.rng.range(1, 9); std::vector<int> key(50); for (auto& k : key) k = (int)c.rng.below(1000); auto by = [&key](size_t a, size_t b) { return key[a] > key[b]; }; auto kq = nwg::make_priority_queue<size_t>(by); for (size_t i = 0; i < 50; ++i) kq.push(i);
  int last = INT_MIN; while (!kq.empty()) { if (key[kq.top()] < last) c.die("make_priority_queue:state", "order by outside keys"); last = key[kq.top()]; kq.pop(); }
  for (size_t i = 0; i < ops; ++i) {
    if (m.empty() || c.rng.below(10) < weight) { int x = (int)c.rng.below(100) - 50; h = mix(h ^ (uint64_t)x); q.push({x, fmt("%d", x)}); m.insert(x); d.push(x); md.insert(x); }
    else { if (q.top().first != *m.begin() || q.top().second != fmt("%d", *m.begin())) c.die("make_priority_queue", fmt("top is %d, the least is %d", q.top().first, *m.begin())); q.pop(); m.erase(m.begin()); if (d.top() != *md.rbegin()) c.die("make_priority_queue:container", fmt("top is %d, the greatest is %d", d.top(), *md.rbegin())); d.pop(); md.erase(std::prev(md.end())); c.count("tops checked", 2); }
    if (q.size() != m.size() || d.size() != md.size()) c.die("make_priority_queue", "size");
  }
  c.input(h); c.interesting(ops > 4); c.describe(fmt("%zu operations", ops));
}
NWV_FAMILY(selections, 100, 3000) {    // tuples: chosen elements in the chosen order, the tuple left as it was
  int x = (int)c.rng.below(1000); double y = (double)c.rng.below(1000) / 8; std::string z = fmt("a string that is too long to be kept in place %d", x); c.input(mix(x * 8192 + (uint64_t)(y * 8))); c.interesting(); c.describe(fmt("%d %g", x, y)); std::tuple<int, double, char> t(x, y, 'q');
  if (nwg::select<2, 0>(t) != std::tuple<char, int>('q', x)) c.die("select<2,0>", "wrong"); if (nwg::select<1>(t) != std::tuple<double>(y)) c.die("select<1>", "wrong"); if (nwg::select<0, 0, 1>(t) != std::tuple<int, int, double>(x, x, y)) c.die("select<0,0,1>", "wrong"); if (nwg::select<2, 1, 0>(std::tuple<int, double, char>(x, y, 'r')) != std::tuple<char, double, int>('r', y, x)) c.die("select:temporary", "wrong");
  std::tuple<int, std::string> s(x, z); auto r = nwg::select<1, 0>(s); if (std::get<0>(r) != z || std::get<1>(r) != x) c.die("select:string", "wrong"); if (std::get<1>(s) != z) c.die("select:source", "the tuple that was selected from has lost its string"); 
  int u = x; std::tuple<int&, double> rt(u, y); auto rr = nwg::select<0>(rt); std::get<0>(rr) = 77; if (u != 77) c.die("select:reference", "a selected reference refers to something else"); static_assert(std::is_same_v<nwg::select_t<std::tuple<int, double, char>, 2, 0>, std::tuple<char, int>>);
  if (nwg::max{}(x, 500) != std::max(x, 500) || nwg::min{}(x, 500) != std::min(x, 500) || nwg::max{}(y, -y) != std::max(y, -y) || nwg::min{}(y, -y) != -y) c.die("min/max", "wrong"); std::vector<int> v(c.rng.range(1, 100)); for (auto& e : v) e = (int)c.rng.below(1000) - 500;
  if (std::accumulate(v.begin(), v.end(), INT_MIN, nwg::max{}) != *std::max_element(v.begin(), v.end()) || std::accumulate(v.begin(), v.end(), INT_MAX, nwg::min{}) != *std::min_element(v.begin(), v.end())) c.die("min/max:reduction", "wrong");
  std::pair<int, std::string> p{x, z}; nwg::arrow_proxy<std::pair<int, std::string>> av{p}; if (av->first != x || av->second != z) c.die("arrow_proxy", "wrong"); av->first = -1; if (p.first != x || av->first != -1) c.die("arrow_proxy", "write");
  if (nwg::null_vertex_v<uint32_t>() != UINT32_MAX || nwg::null_vertex_v<uint64_t>() != UINT64_MAX || nwg::null_vertex_v<int>() != INT_MAX || nwg::null_vertex_v<uint8_t>() != 255) c.die("null_vertex", "not the largest id"); c.count("values checked", 14);
}
NWV_FAMILY(histograms, 150, 5000) {
  size_t bins = c.rng.range(1, 300), n = (size_t)c.rng.logsize(0, 20000); std::vector<uint32_t> v(n); std::vector<size_t> want(bins, 0); uint64_t h = n; for (auto& x : v) { x = c.rng.coin(0.3) ? 0 : c.rng.below(bins); want[x]++; h = mix(h ^ x); } c.input(h); c.interesting(n > bins); c.describe(fmt("%zu values in %zu bins", n, bins));
  std::vector<size_t> got(bins, 99); nwg::histogram(v.begin(), v.end(), got.begin(), got.end()); if (got != want) c.die("histogram", "wrong count"); std::list<uint32_t> l(v.begin(), v.end()); std::vector<int> g2(bins, -3); nwg::histogram(l.begin(), l.end(), g2.begin(), g2.end()); if (!std::equal(g2.begin(), g2.end(), want.begin())) c.die("histogram:list", "wrong count");
  c.count("values binned", 2 * n);
}
NWV_FAMILY(timers, 24, 200) {    // between what surely passed and what was measured around it with the same clock, in the unit of the timer
  using clk = std::chrono::system_clock; size_t slept = c.rng.below(12) == 0 ? 1010 : c.rng.range(3, 40), extra = c.rng.range(0, 5); c.input(mix(slept * 64 + extra)); c.interesting(); c.describe(fmt("%zu ms", slept)); auto nap = [](size_t ms) { auto until = clk::now() + std::chrono::milliseconds(ms); while (clk::now() < until) std::this_thread::sleep_until(until); };
  auto within = [&](const char* nm, double got, double lo, double hi) { if (!(got >= lo * 0.99 - 1 && got <= hi * 1.01 + 1)) c.die(nm, fmt("%g, which is not between %g and %g", got, lo, hi)); c.count("times checked"); };
  auto as = [](clk::duration d, double per) { return std::chrono::duration<double>(d).count() * per; };
  { auto a = clk::now(); nw::util::us_timer u("u"); nw::util::ms_timer m; nw::util::seconds_timer s("three words here"); if (u.elapsed() != 0 || m.elapsed() != 0 || s.elapsed() != 0) c.die("timer", "a timer that was not stopped has already an elapsed time");
    auto b = clk::now(); nap(slept); auto e = clk::now(); u.stop(); m.stop(); s.stop(); auto f = clk::now(); nap(extra);
    within("us_timer", u.elapsed(), std::floor(as(e - b, 1e6)), as(f - a, 1e6)); within("ms_timer", m.elapsed(), std::floor(as(e - b, 1e3)), as(f - a, 1e3)); within("seconds_timer", s.elapsed(), std::floor(as(e - b, 1)), as(f - a, 1));
    std::ostringstream o; o << u << "\n" << m << "\n" << s << "\n"; std::ostringstream w; w << "(u) " << u.elapsed() << " us\n" << m.elapsed() << " ms\n(three words here) " << s.elapsed() << " sec\n"; if (o.str() != w.str()) c.die("timer:print", o.str()); if (u.name() != "u" || m.name() != "") c.die("timer:name", "wrong");
    auto g = clk::now(); u.start(); auto h = clk::now(); nap(extra); auto i = clk::now(); double lap = u.lap(); auto j = clk::now(); within("us_timer:lap", lap, std::floor(as(i - h, 1e6)), as(j - g, 1e6)); if (u.elapsed() != lap) c.die("timer:lap", "lap is not what has elapsed"); nap(1); auto k = clk::now(); double lap2 = u.lap(); within("us_timer:second lap", lap2, as(k - h, 1e6) - 1, as(clk::now() - g, 1e6)); }
  std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); auto a = clk::now(), b = a; { nw::util::life_timer t("a phase"); b = clk::now(); nap(extra); } auto e = clk::now(); { nw::util::life_timer quiet; nw::util::empty_timer none("x"); } std::cout.rdbuf(old);
  auto said = o.str(); double ms = -1; char unit[8] = ""; if (std::sscanf(said.c_str(), "# [ a phase ]: %lf %7s", &ms, unit) != 2 || std::string(unit) != "ms" || std::count(said.begin(), said.end(), '\n') != 1) c.die("life_timer", said); within("life_timer", ms, (double)extra, as(e - a, 1e3)); (void)b;
}
NWV_MAIN
