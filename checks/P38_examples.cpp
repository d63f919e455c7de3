// P38: the example programs (co-star distances, name-server overlap) and the traversal comparison programs, run as a user runs them.
// -DNWV_EX=1 oracle, 2 oracle+dblp, 3 imdb, 4 dns; 11.. the programs of apb
#include <nwv/edges.hpp>
#include <nwv/mm.hpp>
#include <filesystem>
#include <nlohmann/json.hpp>
#include <map>
#include <set>
#define main nwv_example_main
#if NWV_EX == 1
#include "examples/imdb/oracle.cpp"
#elif NWV_EX == 2
#include "examples/imdb/oracle+dblp.cpp"
#elif NWV_EX == 3
#include "examples/imdb/imdb.cpp"
#elif NWV_EX == 4
#include "examples/imdb/dns.cpp"
#elif NWV_EX == 11
#include "apb/plain.cpp"
#elif NWV_EX == 12
#include "apb/spmv.cpp"
#elif NWV_EX == 13
#include "apb/exec.cpp"
#elif NWV_EX == 14
#include "apb/tbb.cpp"
#elif NWV_EX == 15
#include "apb/bfs.cpp"
#elif NWV_EX == 16
#include "apb/dijkstra.cpp"
#elif NWV_EX == 17
#include "apb/dfs.cpp"
#endif
#undef main
using nwv::Ctx; using nwv::G; using nwv::GenOpt; using nwv::V; using nwv::fmt;
struct Run { int rc; std::vector<std::string> out; };
template <class F> static Run captured(Ctx& c, F main) {    // in the case's directory "run", next to "data"
  std::filesystem::create_directories(c.tmpdir + "/run"); std::filesystem::current_path(c.tmpdir + "/run");
  struct Redirect { std::ostream& s; std::ostringstream o; std::streambuf* b; std::ios st{nullptr}; Redirect(std::ostream& s) : s(s), b(s.rdbuf(o.rdbuf())) { st.copyfmt(s); } ~Redirect() { s.rdbuf(b); s.copyfmt(st); } };
  Run r; std::string text; { Redirect o(std::cout), e(std::cerr); r.rc = main(); text = o.o.str(); } std::istringstream i(text); std::string l; while (std::getline(i, l)) r.out.push_back(l);
  c.check(r.rc == 0, "exit", "the program returns %d", r.rc); c.count("program runs"); return r;
}
static void put(const std::string& p, const std::string& t) { std::filesystem::create_directories(std::filesystem::path(p).parent_path()); std::ofstream(p) << t; }
#if NWV_EX <= 3
struct Cast { std::string title; std::vector<std::string> people; };
struct World {    // who appeared together in what
  std::vector<Cast> films; std::map<std::string, std::set<std::string>> in; std::map<std::string, size_t> dist;
  void close(const std::string& hub) {
    for (auto& f : films) for (auto& p : f.people) in[p].insert(f.title);
    std::map<std::string, std::set<std::string>> cast; for (auto& f : films) cast[f.title].insert(f.people.begin(), f.people.end());
    std::vector<std::string> q{hub}; dist[hub] = 0; for (size_t i = 0; i < q.size(); ++i) for (auto& t : in[q[i]]) for (auto& p : cast[t]) if (dist.try_emplace(p, dist[q[i]] + 1).second) q.push_back(p);
  }
};
static World world(Ctx& c, const std::vector<std::string>& stars, const std::string& hub, bool lone) {    // lone: one of those asked about appears with nobody else, and is listed last
  World w; size_t people = c.rng.of({(size_t)1, (size_t)c.rng.range(1, 10), (size_t)c.rng.range(1, 120)}), films = c.rng.range(1, 4 + (int)people); std::vector<std::string> who = stars; for (size_t i = 0; i < people; ++i) who.push_back(fmt("%s %c%zu", c.rng.of({"Ann", "Bo", "C\xc3\xa9line", "D'Arcy"}), (char)('A' + c.rng.below(26)), i)); c.rng.shuffle(who);
  for (size_t i = 0; i < films; ++i) { Cast f{fmt("Film %zu", c.rng.coin(0.1) ? c.rng.below(films) : i), {}}; size_t k = c.rng.of({(size_t)0, (size_t)1, (size_t)c.rng.range(1, 4), (size_t)c.rng.range(1, 12)}); bool near = c.rng.coin(); size_t at = c.rng.below(who.size()); for (size_t j = 0; j < k; ++j) f.people.push_back(near ? who[(at + j) % who.size()] : c.rng.pick(who)); w.films.push_back(f); }
  for (auto& s : stars) w.films[c.rng.below(w.films.size())].people.push_back(s);    // whom the programs ask about has appeared in something
  for (size_t i = 0; i < w.films.size(); ++i) { auto& p = w.films[i].people; if (!p.empty() && std::count(p.begin(), p.end(), p[0]) == (long)p.size()) { auto x = c.rng.pick(who); p.push_back(x != p[0] ? x : p[0] == who[0] ? who[1] : who[0]); } }
  if (lone) { for (auto& f : w.films) std::erase(f.people, stars.back()); w.films.push_back({"Film 7777777", {stars.back()}}); c.count("people who appear with nobody else"); }
  w.close(hub); uint64_t h = 7; for (auto& f : w.films) { h = nwv::mix(h ^ nwv::hash_str(f.title)); for (auto& p : f.people) h = nwv::mix(h ^ nwv::hash_str(p)); } c.input(h); c.interesting(w.dist.size() > 3); c.describe(fmt("%zu films %zu people %zu connected", w.films.size(), w.in.size(), w.dist.size())); return w;
}
static std::string linked(Ctx& c, const std::string& n) { switch (c.rng.below(3)) { case 0: return n; case 1: return "[[" + n + "]]"; default: return "[[" + n + " (performer)|" + n + "]]"; } }
static std::string people_json(Ctx& c, const Cast& f) { nlohmann::json j; j["title"] = f.title; j["cast"] = nlohmann::json::array(); for (auto& p : f.people) j["cast"].push_back(linked(c, p)); if (c.rng.coin(0.3)) j["year"] = 1900 + (int)c.rng.below(100); return j.dump() + "\n"; }
// "X has a Bacon number of d", then a chain of d films; returns the people asked about
static std::multiset<std::string> chains(Ctx& c, const World& w, const Run& r, const std::string& hub, size_t from, size_t to) {
  std::multiset<std::string> who; const std::string has = " has a Bacon number of ", with = " starred with ", in = " in Film ";
  for (size_t i = from; i < to; ++i) { auto& l = r.out[i]; size_t p = l.find(has); if (p == std::string::npos) continue;
    std::string x = l.substr(0, p); who.insert(x); auto it = w.dist.find(x); if (it == w.dist.end()) continue;    // no chain of films leads to the hub: nothing is promised
    size_t d = strtoul(l.c_str() + p + has.size(), nullptr, 10); c.check(d == it->second, "number", "'%s', but it is %zu", l.c_str(), it->second); size_t k = i + 1;
    for (; k < r.out.size() && r.out[k].find(with) != std::string::npos; ++k) { auto s = r.out[k]; s.erase(0, s.find_first_not_of(' ')); size_t a = s.find(with), b = s.rfind(in); if (b == std::string::npos || b < a) { c.fail("chain:line", s); return who; }
      std::string u = s.substr(0, a), v = s.substr(a + with.size(), b - a - with.size()), t = s.substr(b + 4); c.check(u == x, "chain:broken", "'%s' after %s", s.c_str(), x.c_str());
      auto iu = w.in.find(u), iv = w.in.find(v); c.check(iu != w.in.end() && iv != w.in.end() && iu->second.count(t) && iv->second.count(t), "chain:film", "'%s', which is not so", s.c_str()); x = v; }
    c.check(x == hub, "chain:end", "the chain from '%s' ends at %s", l.c_str(), x.c_str()); c.check(k - i - 1 == it->second, "chain:length", "%zu films for number %zu", k - i - 1, it->second); c.count("chains followed");
  }
  return who;
}
#endif
#if NWV_EX == 1
static void oracle_run(Ctx& c, bool lone) {
  const std::vector<std::string> stars{"Kevin Bacon", "Kyra Sedgwick", "David Suchet", "Julie Kavner", "Samuel L. Jackson", "William Shatner", "Oona O'Neill"}; World w = world(c, stars, "Kevin Bacon", lone);
  std::string t; for (auto& f : w.films) t += people_json(c, f); if (c.rng.coin(0.3)) t.pop_back(); put(c.tmpdir + "/data/oracle.json", t); auto r = captured(c, [] { return nwv_example_main(); });
  size_t far = 0; for (auto& p : w.dist) far = std::max(far, p.second); size_t at = 0; while (at < r.out.size() && r.out[at].rfind("Furthest distance is ", 0) != 0) ++at; if (at == r.out.size()) c.die("report", "no furthest distance");
  c.check(strtoul(r.out[at].c_str() + 21, nullptr, 10) == far, "furthest", "'%s', but it is %zu", r.out[at].c_str(), far); size_t mid = at; while (mid < r.out.size() && !r.out[mid].empty()) ++mid;
  auto f = chains(c, w, r, "Kevin Bacon", at, mid); auto s = chains(c, w, r, "Kevin Bacon", mid, r.out.size()); for (auto& p : w.dist) if (far) c.check(f.count(p.first) == (p.second == far), "furthest:people", "%s, at %zu of %zu", p.first.c_str(), p.second, far);
  c.check(s == std::multiset<std::string>(stars.begin(), stars.end()), "people", "%zu people are reported instead of %zu", s.size(), stars.size());
}
NWV_FAMILY(oracle_program, 60, 3000) { oracle_run(c, false); }
NWV_FAMILY(oracle_alone, 4, 40) { oracle_run(c, true); }
#elif NWV_EX == 2
static void dblp_run(Ctx& c, bool lone, bool both) {
  const std::vector<std::string> stars{"Kevin Bacon", "Donald E. Knuth", "Bill Gates", "Jack Dongarra", "Andrew Lumsdaine", "Kyra Sedgwick", "David Suchet", "Julie Kavner", "Danica McKellar", "William Rufus Shafter", "Oona O'Neill", "William Heise"}; World w = world(c, stars, "Kevin Bacon", lone);
  std::string t; nlohmann::json papers = nlohmann::json::array(); for (auto& f : w.films) if (!both || c.rng.coin(0.7) || t.empty()) t += people_json(c, f); else { nlohmann::json p = nlohmann::json::array(); p.push_back(f.title); p.push_back(f.people); p.push_back(1990); papers.push_back(p); }
  put(c.tmpdir + "/data/oracle.json", t); put(c.tmpdir + "/data/dblp.json", papers.dump()); auto r = captured(c, [] { return nwv_example_main(); }); auto s = chains(c, w, r, "Kevin Bacon", 0, r.out.size()); for (auto& x : s) c.check(std::count(stars.begin(), stars.end(), x) == 1, "people", "%s", x.c_str()); c.check(s.size() >= 9, "people:count", "%zu people are reported", s.size());
}
NWV_FAMILY(oracle_dblp_program, 60, 3000) { dblp_run(c, false, false); }
NWV_FAMILY(oracle_dblp_alone, 4, 40) { dblp_run(c, true, false); }
NWV_FAMILY(oracle_dblp_both, 4, 40) { dblp_run(c, false, true); }
#elif NWV_EX == 3
static void imdb_run(Ctx& c, bool lone) {
  const std::vector<std::string> ask{"Kevin Bacon", "Kyra Sedgwick", "David Suchet"}; World w = world(c, ask, "Kevin Bacon", lone); std::map<std::string, std::string> tid, pid{{"Kevin Bacon", "nm0000102"}, {"Kyra Sedgwick", "nm0001718"}, {"David Suchet", "nm0837064"}};
  std::vector<std::string> ts, ps; for (auto& f : w.films) if (tid.try_emplace(f.title, fmt("tt%07zu", 17 + tid.size())).second) ts.push_back(f.title); for (auto& p : w.in) { pid.try_emplace(p.first, fmt("nm2%06zu", pid.size())); ps.push_back(p.first); } c.rng.shuffle(ts); c.rng.shuffle(ps); if (lone) { std::erase(ps, ask.back()); ps.push_back(ask.back()); }
  std::string t = "tconst\ttitleType\tprimaryTitle\n", n = "nconst\tprimaryName\n", x = "tconst\tordering\tnconst\tcategory\n"; for (auto& s : ts) { t += tid[s] + "\tmovie\t" + s + "\n"; if (c.rng.coin(0.2)) t += fmt("tt9%06zu", t.size()) + "\tshort\tExtra\n"; } for (auto& s : ps) n += pid[s] + "\t" + s + "\n";
  for (auto& f : w.films) { size_t k = 0; for (auto& p : f.people) x += tid[f.title] + fmt("\t%zu\t", ++k) + pid[p] + "\t" + c.rng.of({"actor", "actress"}) + "\n"; if (c.rng.coin(0.3)) x += tid[f.title] + fmt("\t%zu\t", ++k) + pid[c.rng.pick(ps)] + "\tdirector\n"; }
  put(c.tmpdir + "/data/title.basics.tsv", t); put(c.tmpdir + "/data/name.basics.tsv", n); put(c.tmpdir + "/data/title.principals.tsv", x); auto r = captured(c, [] { return nwv_example_main(); });
  auto s = chains(c, w, r, "Kevin Bacon", 0, r.out.size()); c.check(s == std::multiset<std::string>(ask.begin(), ask.end()), "people", "%zu people are reported", s.size());
}
NWV_FAMILY(imdb_program, 60, 3000) { imdb_run(c, false); }
NWV_FAMILY(imdb_alone, 4, 40) { imdb_run(c, true); }
#else
static std::string some_file(Ctx& c, G& g, bool values) {
  GenOpt o; o.max_n = c.rng.of({4, 30, 30, 200}); o.dups = c.rng.coin(); o.loops = c.rng.coin(); do g = random_graph(c.rng, o); while (g.e.empty()); c.interesting(g.e.size() > 2); c.input(g.digest()); c.describe(g.str());
  std::string t = std::string("%%MatrixMarket matrix coordinate ") + (values ? "real" : "pattern") + " general\n" + fmt("%zu %zu %zu\n", g.n, g.n, g.e.size()); for (auto& [a, b] : g.e) t += fmt("%u %u", a + 1, b + 1) + (values ? fmt(" %u.5", (unsigned)c.rng.below(40)) : "") + "\n"; return nwv::put_file(c.tmpdir, t, "g.mtx");
}
#if NWV_EX == 4
NWV_FAMILY(dns_program, 60, 3000) { G g; std::string f = some_file(c, g, false); std::vector<std::string> a{"dns", f}; std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr); captured(c, [&] { return nwv_example_main((int)a.size(), v.data()); }); }
#else
static int only_lines = -1;    // how many lines of times the program prints does not depend on its input
NWV_FAMILY(comparison_program, 60, 3000) {
#if NWV_EX == 12 || NWV_EX == 13 || NWV_EX == 14 || NWV_EX == 16
  constexpr bool values = true; using List = nw::graph::edge_list<nw::graph::directedness::directed, double>;
#else
  constexpr bool values = false; using List = nw::graph::edge_list<nw::graph::directedness::directed>;
#endif
  G g; std::string f = some_file(c, g, values); std::vector<std::string> a{"program", c.rng.of({"-f", "-i", "--edgelistfile"}), f, "--ntrials", std::to_string(1 + c.rng.below(3))};
  bool seeded = NWV_EX >= 15; if (seeded && c.rng.coin(0.7)) { a.push_back("-s"); a.push_back(std::to_string(c.rng.below(g.n))); } bool keep = c.rng.coin(0.4); std::string nw = c.tmpdir + "/g.nw"; std::filesystem::remove(nw); if (keep) { a.push_back("--write_processed_edgelist"); a.push_back(nw); }
  auto drive = [&](std::vector<std::string> a) { std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr); auto r = captured(c, [&] { return nwv_example_main((int)a.size(), v.data()); }); int ms = 0; for (auto& l : r.out) if (l.size() > 3 && l.rfind(" ms") == l.size() - 3 && l.rfind("#", 0) != 0) { ++ms; size_t p = l.rfind(' ', l.size() - 4); double t = p == std::string::npos ? -1 : strtod(l.c_str() + p, nullptr); c.check(t >= 0, "time", "%s", l.c_str()); } if (only_lines < 0) only_lines = ms; c.check(ms == only_lines && ms > 0, "times", "%d lines of times, before it were %d", ms, only_lines); };
  drive(a);
  if (keep) { List l(0); std::ostringstream q; auto* b = std::cout.rdbuf(q.rdbuf()); l.deserialize(nw); auto m = nw::graph::read_mm<nw::graph::directedness::directed>(f); std::cout.rdbuf(b); c.check(l.size() == g.e.size() && l.num_vertices()[0] == m.num_vertices()[0], "kept", "%zu of %zu edges, %zu vertices", (size_t)l.size(), g.e.size(), (size_t)l.num_vertices()[0]); size_t i = 0; for (auto&& e : l) { if (i < g.e.size()) c.check((size_t)std::get<0>(e) == g.e[i].first && (size_t)std::get<1>(e) == g.e[i].second, "kept:edge", "edge %zu", i); ++i; }
    std::vector<std::string> again{"program", "--read_processed_edgelist", nw}; drive(again); c.count("files kept"); }
}
#endif
#endif
NWV_MAIN
