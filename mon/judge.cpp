// What each property runs and which monitors judge it.
#include <isl/set.h>
#include <isl/union_set.h>
#include <isl/union_map.h>
#include <isl/val.h>
#include <isl/point.h>
#include "judge.h"
#include <set>
#include <algorithm>
#include <cstring>
#include <sstream>
using std::string; using std::vector;

static void pick_params(Case &c, Rng &r, const Scop &s, int lo, int hi) { for (auto &p : s.params) c.pval[p] = r.in(lo, hi); }
static string pick_kernel(Rng &r, string &name, bool stencil = false) {
  vector<const Kernel *> v; for (auto &k : kernels()) for (int w = 0; w < k.weight; w++) if (!stencil || k.stencil) v.push_back(&k);
  const Kernel *k = v[r.in(0, (int)v.size() - 1)]; name = string("k:") + k->name; return k->text;
}
static void pick_prog(Case &c, Rng &r, int kern, int uni, int sten, int chain) {
  int x = r.in(0, 99);
  if (r.pct(15)) { c.prog = gen_mixed(r); c.name = "mixed"; }
  else if (r.pct(3)) { c.prog = gen_chain(r, true); c.name = "many"; } // numbers of two digits
  else if (x < kern) c.prog = pick_kernel(r, c.name);
  else if (x < kern + uni) { c.prog = gen_uniform(r, 3); c.name = "uniform"; }
  else if (x < kern + uni + sten) { c.prog = gen_stencil(r); c.name = "stencil"; }
  else if (x < kern + uni + sten + chain) { c.prog = gen_chain(r); c.name = "chain"; }
  else if (r.pct(30)) { c.prog = gen_multi(r); c.name = "multi"; }
  else { GenCfg g; g.maxdepth = r.pct(70) ? 2 : 3; g.maxstmt = g.maxdepth == 3 ? 3 : 4; c.prog = gen_random(r, g); c.name = "random"; }
}
static string rand_sizes(Rng &r, int n) { string s; for (int k = 0; k < n; k++) s += (k ? " " : "") + std::to_string(r.in(2, 4)); return s; }
typedef std::map<string, int> Opt;
static void opts_untiled(Rng &r, Opt &o, Case &c) {
  o["fuse"] = r.pick(vector<int>{2, 2, 1, 0});
  if (r.pct(12)) o["flic"] = 1;
  if (r.pct(10)) o["nodepbound"] = 1;
  if (r.pct(10)) o["coeff_bound"] = r.in(2, 6);
  if (r.pct(12)) c.ctxmin = r.in(1, 3);
}
static void opts_tiled(Rng &r, Opt &o, Case &c) {
  o["tile"] = 1; o["fuse"] = r.pick(vector<int>{2, 2, 1, 0}); o["parallel"] = r.pct(60); o["intratileopt"] = r.pct(50); o["second_level_tile"] = r.pct(20);
  o["diamondtile"] = r.pct(40); o["multipar"] = r.pct(30); o["innerpar"] = r.pct(10);
  if (o["diamondtile"]) o["fulldiamondtile"] = r.pct(30);
  c.tilesizes = rand_sizes(r, r.pct(80) ? 8 : 3);
}
static Case gen_try(const string &prop, Rng &r) {
  Case c; c.coalesce = r.pct(50); c.withacc = r.pct(60); auto &o = c.opt;
  o["tile"] = 0; o["parallel"] = 0; o["intratileopt"] = 0; o["diamondtile"] = 0; o["isldepaccesswise"] = 0; o["islsolve"] = 1;
  int plo = 4, phi = 7;
  if (prop == "P01") { pick_prog(c, r, 30, 15, 8, 15); opts_untiled(r, o, c); }
  else if (prop == "P02") { pick_prog(c, r, 35, 20, 20, 8); opts_tiled(r, o, c); if (r.pct(12)) { o["tile"] = 0; o["diamondtile"] = 0; } }
  else if (prop == "P03") {
    pick_prog(c, r, 25, 12, 8, 12); if (r.pct(45)) opts_tiled(r, o, c); else opts_untiled(r, o, c);
    c.api = r.pick(vector<string>{"transform", "transform", "schedule", "str"}); if (c.api == "schedule") c.ctxmin = 0;
  } else if (prop == "P04") {
    pick_prog(c, r, 45, 25, 20, 5); opts_tiled(r, o, c); o["innerpar"] = 0; if (r.pct(40)) o["parallel"] = o["intratileopt"] = 0;
    int x = r.in(0, 99); if (x < 20) { c.tilesizes = ""; } else if (x < 60) { c.tilesizes = ""; for (int k = 0; k < 8; k++) c.tilesizes += (k ? " " : "") + std::to_string(r.in(1, 7)); }
  } else if (prop == "P05") { pick_prog(c, r, 30, 25, 10, 10); if (r.pct(50)) { opts_tiled(r, o, c); o["parallel"] = r.pct(70); if (r.pct(25)) { o["tile"] = 0; o["diamondtile"] = 0; } } else opts_untiled(r, o, c); }
  else if (prop == "P06") { pick_prog(c, r, 30, 25, 15, 10); if (r.pct(40)) { opts_tiled(r, o, c); o["parallel"] = 0; } else opts_untiled(r, o, c); }
  else if (prop == "P07") { pick_prog(c, r, 40, 20, 12, 10); if (r.pct(60)) opts_tiled(r, o, c); else opts_untiled(r, o, c); c.api = "str"; }
  else if (prop == "P08") { pick_prog(c, r, 35, 15, 8, 15); opts_untiled(r, o, c); c.ctxmin = 0; c.api = "schedule"; if (r.pct(40)) o["lastwriter"] = 1; if (r.pct(40)) o["isldepcoalesce"] = 1; if (r.pct(15)) o["rar"] = 1; }
  else if (prop == "P09") { pick_prog(c, r, 35, 20, 12, 10); if (r.pct(50)) opts_tiled(r, o, c); else opts_untiled(r, o, c); c.withacc = false; }
  else if (prop == "P11") { pick_prog(c, r, 35, 18, 12, 12); if (r.pct(55)) opts_tiled(r, o, c); else opts_untiled(r, o, c); int x = r.in(0, 9); c.api = x < 5 ? "transform" : x < 7 ? "schedule" : x < 9 ? "str" : "remap"; if (c.api == "schedule") { c.ctxmin = 0; if (r.pct(30)) o["lastwriter"] = 1; if (r.pct(30)) o["isldepcoalesce"] = 1; if (r.pct(30)) o["rar"] = 1; } if (r.pct(15)) { o["debug"] = 1; if (r.pct(50)) o["moredebug"] = 1; } if (r.pct(15)) o["silent"] = 0;
    if (o["tile"] && (c.api == "transform" || c.api == "schedule") && r.pct(30)) { o["find_tile_sizes"] = 1; o["second_level_tile"] = 0; c.withacc = true; o["ufactor"] = r.in(1, 8); o["cache_size"] = r.pick(vector<int>{64, 4096, 1048576}); }
    if (r.pct(25)) { o["flic"] = 0; o["islsolve"] = 0; o["glpk"] = 1; o["diamondtile"] = 0; o["fulldiamondtile"] = 0; if (r.pct(40)) o["lp"] = 1; else if (c.name.find("random") == string::npos && r.pct(70)) { o["dfp"] = 1; o.erase("nodepbound"); o["lp"] = 1; o["fuse"] = r.pick(vector<int>{2, 1, 0, 3}); if (o["fuse"] == 3 || r.pct(40)) o["scc_cluster"] = 1; if (r.pct(20)) o["delayed_cut"] = 1; if (r.pct(20)) o["lpcolour"] = 1; } }
  }
  else if (prop == "P10") { pick_prog(c, r, 40, 20, 15, 15); if (r.pct(55)) opts_tiled(r, o, c); else opts_untiled(r, o, c); if (r.pct(40)) { c.api = r.pick(vector<string>{"schedule", "str"}); if (c.api == "schedule") c.ctxmin = 0; } if (r.pct(15)) { o["flic"] = 0; o["islsolve"] = 0; o["glpk"] = 1; o["diamondtile"] = 0; o["fulldiamondtile"] = 0; } }
  else if (prop == "P12") { pick_prog(c, r, 35, 20, 12, 10); if (r.pct(50)) opts_tiled(r, o, c); else opts_untiled(r, o, c); if (r.pct(30)) { c.api = r.pick(vector<string>{"schedule", "str"}); if (c.api == "schedule") c.ctxmin = 0; } }
  else if (prop == "P15") { pick_prog(c, r, 30, 20, 10, 15); if (r.pct(35)) { opts_tiled(r, o, c); if (r.pct(60)) o["parallel"] = 0; } else opts_untiled(r, o, c); }
  else if (prop == "P18") {
    int x = r.in(0, 99); bool dfp = x >= 45; // dfp: known findings on irregular nests and with nodepbound, so not drawn here
    if (dfp) pick_prog(c, r, 45, 22, 13, 20); else pick_prog(c, r, 35, 18, 10, 15);
    opts_untiled(r, o, c);
    o["flic"] = 0; o["islsolve"] = 0; o["glpk"] = 1; o["diamondtile"] = 0; o["fulldiamondtile"] = 0;
    if (x >= 25 && x < 45) o["lp"] = 1;
    if (dfp) { o["dfp"] = 1; o.erase("nodepbound"); if (r.pct(75)) o["lp"] = 1; else o["ilp"] = 1; o["fuse"] = r.pick(vector<int>{2, 2, 1, 0, 3}); if (o["fuse"] == 3 || r.pct(40)) o["scc_cluster"] = 1; if (o["fuse"] == 3) o["hybridcut"] = r.pct(40); if (r.pct(20)) o["delayed_cut"] = 1; if (r.pct(20)) o["lpcolour"] = 1; }
  }
  else if (prop == "P19") { int x = r.in(0, 99); if (x < 25) { c.prog = gen_uniform(r, 3); c.name = "uniform"; } else if (x < 40) { c.prog = gen_single(r); c.name = "single"; } else pick_prog(c, r, 40, 15, 10, 15); opts_untiled(r, o, c); o["flic"] = 0; o["fuse"] = 1; o.erase("nodepbound"); if (o.count("coeff_bound") && o["coeff_bound"] < 3) o["coeff_bound"] = 3; }
  else if (prop == "P21") { pick_prog(c, r, 40, 22, 25, 10); opts_tiled(r, o, c); c.tilesizes = ""; o["second_level_tile"] = 0; o["innerpar"] = 0; o["find_tile_sizes"] = 1; c.withacc = true; o["ufactor"] = r.pick(vector<int>{1, 2, 4, 8, 8, 3}); o["cache_size"] = r.pick(vector<int>{1, 64, 512, 4096, 32768, 262144, 1048576, 1048576, 1 << 30}); o["data_element_size"] = r.pick(vector<int>{8, 8, 4, 1}); if (r.pct(25)) { c.api = "schedule"; c.ctxmin = 0; } }
  else if (prop == "P23") { if (r.pct(80)) { c.prog = gen_reflected(r); c.name = "reflected"; } else pick_prog(c, r, 30, 25, 25, 10); if (r.pct(50)) { opts_tiled(r, o, c); if (r.pct(60)) o["diamondtile"] = 0; } else opts_untiled(r, o, c); if (r.pct(15)) o["lastwriter"] = 1; }
  else if (prop == "P24") { if (r.pct(10)) { c.prog = gen_reflected(r); c.name = "reflected"; } else pick_prog(c, r, 35, 12, 8, 20); opts_untiled(r, o, c); c.withacc = r.pct(80); c.api = r.pick(vector<string>{"transform", "transform", "schedule", "schedule", "str", "remap"}); if (c.api == "schedule") { c.ctxmin = 0; if (r.pct(40)) o["lastwriter"] = 1; if (r.pct(40)) o["isldepcoalesce"] = 1; if (r.pct(15)) o["rar"] = 1; } else if (c.api != "transform") c.withacc = false; }
  else if (prop == "P22") { pick_prog(c, r, 45, 22, 12, 10); if (r.pct(50)) opts_tiled(r, o, c); else { opts_untiled(r, o, c); o["intratileopt"] = r.pct(50); } c.withacc = true; o["ufactor"] = r.pick(vector<int>{1, 2, 4, 8, 8}); if (r.pct(25)) { c.api = "schedule"; c.ctxmin = 0; } }
  else if (prop == "P17") {
    pick_prog(c, r, 30, 10, 5, 32); opts_untiled(r, o, c); o["flic"] = 0; o["fuse"] = r.pick(vector<int>{0, 1, 1, 2, 2});
    if (r.pct(45)) { o["tile"] = 1; c.tilesizes = rand_sizes(r, 8); if (r.pct(30)) o["parallel"] = 1; if (r.pct(30)) o["intratileopt"] = 1; }
    int x = r.in(0, 99); if (x < 40) c.fst = "?"; else if (x < 70) c.precut = "self " + std::to_string(r.pct(40)) + " " + std::to_string(r.in(1, 3)) + " " + std::to_string(r.pct(60));
  }
  else if (prop == "P26") {
    c.prog = gen_diamond(r); c.name = "diamond"; bool d2 = c.prog.find("[j") != string::npos; c.withacc = r.pct(50);
    o["tile"] = o["diamondtile"] = o["parallel"] = 1; o["intratileopt"] = r.pct(50); o["fuse"] = r.pct(60) ? 1 : 2; o["fulldiamondtile"] = r.pct(50); o["multipar"] = d2 ? o["fulldiamondtile"] : r.pct(30);
    int z = r.in(2, 6); c.tilesizes = ""; for (int k = 0; k < 8; k++) c.tilesizes += (k ? " " : "") + std::to_string(z);
  }
  else throw std::runtime_error("no workload for " + prop);
  static const std::set<string> derived{"P02", "P03", "P04", "P05", "P06", "P07", "P15", "P22"}; // what is derived from a schedule is right for every legal one
  if (derived.count(prop) && (c.api == "transform" || c.api == "remap") && r.pct(prop == "P02" || prop == "P03" ? 20 : 30)) { c.given = r.in(1, 1000000); o["identity"] = 1; o["diamondtile"] = 0; o["fulldiamondtile"] = 0; o.erase("per_cc_obj"); c.name += "-given"; }
  c.name = prop + "/" + c.name;
  if (r.pct(25)) { c.perm.resize(scop_parse(c.prog).st.size()); for (size_t k = 0; k < c.perm.size(); k++) { c.perm[k] = (int)k; std::swap(c.perm[k], c.perm[r.in(0, (int)k)]); } }
  c.revpar = r.pct(prop == "P24" ? 45 : 20); c.droppar = r.pct(prop == "P24" ? 30 : 5);
  Scop s = case_scop(c);
  if (c.fst == "?") { // a grouping that a legal order allows
    auto e = dep_edges(s, c); int n = (int)s.st.size(); vector<vector<char>> R(n, vector<char>(n, 0)); for (auto &x : e) R[x.first][x.second] = 1;
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (R[i][k]) for (int j = 0; j < n; j++) if (R[k][j]) R[i][j] = 1;
    vector<vector<int>> comp; vector<int> of(n, -1); for (int i = 0; i < n; i++) if (of[i] < 0) { of[i] = (int)comp.size(); comp.push_back({i}); for (int j = i + 1; j < n; j++) if (R[i][j] && R[j][i]) { of[j] = of[i]; comp.back().push_back(j); } }
    vector<int> order; vector<char> done(comp.size(), 0);
    while (order.size() < comp.size()) { vector<int> rdy; for (size_t k = 0; k < comp.size(); k++) { bool ok = !done[k]; for (size_t l = 0; l < comp.size() && ok; l++) if (l != k && !done[l] && R[comp[l][0]][comp[k][0]]) ok = false; if (ok) rdy.push_back(k); } int k = r.pick(rdy); done[k] = 1; order.push_back(k); }
    vector<vector<int>> g; for (int k : order) { if (g.empty() || r.pct(55)) g.push_back({}); for (int i : comp[k]) g.back().push_back(i); }
    c.fst = r.pct(4) ? std::to_string(n + 1) : std::to_string(g.size()); for (auto &v : g) { for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.in(0, (int)k - 1)]); c.fst += " " + std::to_string(v.size()); for (int i : v) c.fst += " " + std::to_string(i); c.fst += r.pct(40) ? " 0" : r.pct(50) ? " 1" : " 256"; }
  }
  int md = (int)s.maxdim(); pick_params(c, r, s, plo, md >= 3 ? 5 : phi);
  if ((prop == "P04" || prop == "P21") && c.tilesizes.empty() && md <= 2) { for (auto &p : s.params) c.pval[p] = md == 1 ? r.in(40, 80) : r.in(20, 40); }
  return c;
}
Case gen_case(const string &prop, uint64_t seed, long k) {
  if (is_alg(prop)) return gen_alg(prop, seed, k);
  for (int att = 0;; att++) {
    Rng r(seed * 1000003ull + (uint64_t)k * 7919ull + std::hash<string>()(prop) % 100000 + (uint64_t)att * 0x51ed27ull * 1000003ull);
    Case c = gen_try(prop, r);
    if (domains_nonempty(c, case_scop(c)) || att > 50) return c;
  }
}

static string shape(const RunRes &r) {
  // the transformation observed: final matrices
  std::ostringstream o; for (auto &s : r.f.st) { for (auto &t : s.trans) o << vstr(t); o << "|"; } return std::to_string(std::hash<string>()(o.str()));
}
static bool opt(const Case &c, const char *k) { auto q = c.opt.find(k); return q != c.opt.end() && q->second; }
static bool schedulable_family(const Case &c) { for (auto f : {"/uniform", "/stencil", "/chain", "/multi", "/single"}) if (c.name.find(f) != string::npos) return true; return false; }

struct Env { Scop s; Vec pv; Trace t; };
static void env(const Case &c, Env &e) { e.s = case_scop(c); for (auto &p : e.s.params) e.pv.push_back(c.pval.at(p)); e.t = scop_trace(e.s, e.pv, 6000); }
// A schedule was expected.
static bool got(const Case &c, const RunRes &r, Out &o) {
  if (r.ok) return true;
  o.add("null_schedule");
  // the search is incomplete (only non-negative combinations of the orthogonal
  // subspace are tried), so generated programs are judged by how many fail
  if (!opt(c, "flic") && !opt(c, "lp") && !opt(c, "dfp")) { if (c.name.find("/k:") != string::npos) o.fail("fails", "no schedule was returned"); else if (schedulable_family(c)) o.add("null_schedulable"); }
  return false;
}

// Known finding: statements outside a tiled band that no outer scalar dimension
// separates from it.  Marks the dependence pairs it can affect.
static vector<char> sunk_pairs(const Case &c, const RunRes &r, const Env &e, Out &o) {
  vector<char> m(e.t.dep.size(), 0); if (!opt(c, "tile") || !r.a.valid) return m;
  Times ta; Out scratch; if (!times_from_snap(r.a, e.s, e.t, ta, scratch, "x")) return m;
  auto mark = [&](unsigned depth, const vector<int> &st) {
    std::set<int> in(st.begin(), st.end());
    for (size_t k = 0; k < m.size(); k++) { int u = e.t.dep[k].first, v = e.t.dep[k].second; if ((in.count(e.t.inst[u].s) > 0) == (in.count(e.t.inst[v].s) > 0)) continue;
      bool eq = true; for (unsigned d = 0; d < depth && d < ta[u].size(); d++) if (ta[u][d] != ta[v][d]) eq = false; if (eq) m[k] = 1; }
  };
  for (auto &b : r.a.bands) mark(b.depth, b.stmts);
  for (auto &l : r.a.parloops) mark(l.depth, l.stmts);
  size_t n = 0; for (char x : m) n += x; if (n) o.add("sunk_pairs", n);
  return m;
}
static Trace without(const Trace &t, const vector<char> &m) { Trace u = t; u.dep.clear(); for (size_t k = 0; k < t.dep.size(); k++) if (!m[k]) u.dep.push_back(t.dep[k]); return u; }

static void judge_legal(const Case &c, Env &e, RunRes &r, const Times &tm, Out &o) {
  vector<char> m = sunk_pairs(c, r, e, o); bool any = std::count(m.begin(), m.end(), 1) > 0; if (opt(c, "tile") && r.a.valid && !any && sunk_possible(r.a)) { any = true; o.add("sunk_possible"); }
  Trace rest = any ? without(e.t, m) : e.t; mon_legal(e.s, rest, tm, o, "legal");
  if (any) { Trace sk = e.t; sk.dep.clear(); for (size_t k = 0; k < m.size(); k++) if (m[k]) sk.dep.push_back(e.t.dep[k]); Out o2; mon_legal(e.s, sk, tm, o2, "legal-sunk"); for (auto &v : o2.v) o.v.push_back(v); }
  mon_exec(e.s, e.t, tm, o, any ? "exec-sunk" : "exec"); mon_param_legal(e.s, c, r, o, any ? "plegal-sunk" : "plegal");
}

static vector<Vec> sizes_of(const Snap &f) { vector<Vec> z; for (auto &s : f.st) { Vec v; for (int q = 0; q < s.dim - s.dim_orig; q++) { i64 m = 0; for (auto &d : s.dom) for (auto &w : d.rows) m = std::max<i64>(m, std::llabs(w.c[q])); v.push_back(m); } z.push_back(v); } return z; }
// More cache never gives smaller tiles.
static void mon_cache(const Case &c, const Env &e, const RunRes &r, Out &o) {
  Case d = c; i64 z = (i64)c.opt.at("cache_size") * 5; if (z > (1 << 30)) return; d.opt["cache_size"] = (int)z;
  RunRes q; RunIn in{d, e.s}; run_pluto(in, q); if (!q.ok) { o.fail("cache", "no schedule with a larger cache"); run_free(q); return; }
  auto a = sizes_of(r.f), b = sizes_of(q.f); o.add("cache_compared");
  for (size_t s = 0; s < a.size(); s++) { if (a[s].size() != b[s].size()) { o.fail("cache", "other loops are tiled with a larger cache"); break; } for (size_t k = 0; k < a[s].size(); k++) { if (b[s][k] < a[s][k]) o.fail("cache", "tile size " + std::to_string(a[s][k]) + " of S_" + std::to_string(s) + " shrinks to " + std::to_string(b[s][k]) + " with five times the cache"); if (b[s][k] > a[s][k]) o.add("cache_grew"); } }
  run_free(q);
}

// All tiles along the start of time can run at once: for a given number of time steps, the outermost loop takes as many
// steps for a small space as for a large one; without diamond tiles it would have to sweep across space.
static void mon_start(const Case &c, const Env &e, const RunRes &r, Out &o) {
  size_t d0 = 0; auto isl = [&](size_t d) { for (auto &q : r.f.st) { if (d >= q.trans.size()) return true; for (int k = 0; k < q.dim; k++) if (q.trans[d][k]) return true; } return false; };
  while (!isl(d0)) d0++;
  auto span = [&](i64 n) -> i64 {
    isl_union_set *u = isl_union_map_range(isl_union_map_intersect_domain(isl_union_map_copy(r.sched), isl_union_set_read_from_str(r.ctx, r.domstr.c_str()))); if (isl_union_set_is_empty(u)) { isl_union_set_free(u); return -1; }
    isl_set *s = isl_set_from_union_set(u); for (size_t k = 0; k < e.s.params.size(); k++) { int x = isl_set_find_dim_by_name(s, isl_dim_param, e.s.params[k].c_str()); if (x >= 0) s = isl_set_fix_si(s, isl_dim_param, x, (int)(e.s.params[k] == "T" ? c.pval.at("T") : n + (e.s.params[k] == "M" ? 3 : 0))); }
    int nd = (int)isl_set_dim(s, isl_dim_set); s = isl_set_project_out(s, isl_dim_set, d0 + 1, nd - d0 - 1); s = isl_set_project_out(s, isl_dim_set, 0, d0);
    auto at = [](isl_set *q) { isl_point *p = isl_set_sample_point(q); isl_val *v = isl_point_get_coordinate_val(p, isl_dim_set, 0); i64 x = isl_val_get_num_si(v); isl_val_free(v); isl_point_free(p); return x; };
    i64 hi = at(isl_set_lexmax(isl_set_copy(s))); return hi - at(isl_set_lexmin(s)); };
  i64 x = span(60), y = span(300); o.add("starts"); o.add("start_steps", x + 1);
  if (x != y) o.fail("start", "for " + std::to_string(c.pval.at("T")) + " time steps the outermost loop t" + std::to_string(d0 + 1) + " takes " + std::to_string(x + 1) + " steps for a space of 60 points and " + std::to_string(y + 1) + " for 300: tiles do not start concurrently");
}

void judge(const string &prop, const Case &c, Out &o) {
  if (is_alg(prop)) { judge_alg(prop, c, o); return; }
  Env e; env(c, e); RunRes r; RunIn in{c, e.s}; Times tm, ts, ta;
  if (prop == "P10") { judge_threads(c, o); return; }
  if (prop == "P11") { judge_memory(c, e.s, o); return; }
  if (prop == "P23") { judge_iss(c, e.s, e.t, o); return; }
  if (prop == "P12") { judge_deterministic(c, e.s, e.t, o); return; }
  g_lowlevel = prop == "P22"; watch_given(prop == "P24" || prop == "P08"); run_pluto(in, r);
  if (c.given && r.a.valid) { o.add("given_installed"); bool sk = false, pa = false, sc = false; for (auto &q : r.a.st) for (auto &w : q.trans) { int nz = 0; for (int k = 0; k < q.dim; k++) nz += w[k] != 0; if (nz > 1) sk = true; if (!nz && w.back()) sc = true; for (size_t k = q.dim; k + 1 < w.size(); k++) if (w[k]) pa = true; } if (sk) o.add("given_skewed"); if (pa) o.add("given_parametric_shift"); if (sc) o.add("given_scalar"); }
  if (prop == "P24" || prop == "P08") { mon_given(c, e.s, e.t, r, o, "given"); watch_given(false); if (prop == "P24") { o.shapes.insert(c.prog + c.api); run_free(r); return; } }
  if (!got(c, r, o)) { run_free(r); return; }
  o.shapes.insert(shape(r)); o.add("instances", e.t.inst.size());
  if (prop == "P01" || prop == "P02" || prop == "P08" || prop == "P18") { if (times_from_map(r.sched, e.s, e.t, tm, o, "total")) judge_legal(c, e, r, tm, o); }
  else if (prop == "P03") {
    mon_domain(e.s, c, r, o, "domain");
    if (times_from_map(r.sched, e.s, e.t, tm, o, "total")) { mon_inject(e.t, tm, o, "inject"); if (c.api != "schedule" || true) if (times_from_snap(r.f, e.s, e.t, ts, o, "snap")) mon_same(e.t, tm, ts, o, "same"); }
  } else if (prop == "P04") mon_tiles(c, r.a, r.f, e.s, e.t, o, "tiles");
  else if (prop == "P05" || prop == "P06" || prop == "P15") {
    vector<char> m = sunk_pairs(c, r, e, o); Trace rest = without(e.t, m); bool wave = opt(c, "parallel");
    bool A = times_from_snap(r.a, e.s, e.t, ta, o, "snap"), F = times_from_snap(r.f, e.s, e.t, ts, o, "snap");
    if (prop == "P05") { if (A) mon_parallel(r.a, e.t, ta, o, "parallel-auto"); if (F) mon_parallel(r.f, rest, ts, o, "parallel"); if (A) mon_parallel_exact(r.a, o, "exact-auto"); if (F && !wave) mon_parallel_exact(r.f, o, "exact"); if (A) mon_loops(r.a, e.t, ta, o, "loops-auto"); if (F) mon_loops(r.f, rest, ts, o, "loops"); if (A && F) mon_wave(c, r.a, r.f, o, "wave"); }
    if (prop == "P06") { if (A) mon_bands(r.a, e.t, ta, o, "bands-auto"); if (F && !wave) mon_bands(r.f, rest, ts, o, "bands"); if (A) mon_band_maximal(r.a, o, "maximal"); }
    if (prop == "P15") { if (A) mon_depinfo(r.a, e.t, o, "depinfo-auto", true); if (F && !wave) mon_depinfo(r.f, e.t, o, "depinfo", true); if (r.a.valid && r.f.valid) mon_tracked(r.a, r.f, e.t, o, "tracked"); }
  } else if (prop == "P07") mon_remap(c, e.s, e.t, r, o, "remap");
  else if (prop == "P17") { if (times_from_map(r.sched, e.s, e.t, tm, o, "total")) { judge_legal(c, e, r, tm, o); mon_inject(e.t, tm, o, "inject"); } judge_fusion(c, e.s, e.t, r, o); }
  else if (prop == "P21") { mon_cache(c, e, r, o); mon_tiles(c, r.a, r.f, e.s, e.t, o, "tiles"); if (times_from_map(r.sched, e.s, e.t, tm, o, "total")) { Out o2; judge_legal(c, e, r, tm, o2); for (auto &v : o2.v) if (v.mon.find("-sunk") == string::npos) o.v.push_back(v); /* P02's finding */ for (auto &q : o2.st) o.add(q.first, q.second); mon_inject(e.t, tm, o, "inject"); } }
  else if (prop == "P22") { vector<char> m = sunk_pairs(c, r, e, o); Trace rest = without(e.t, m); if (times_from_snap(r.f, e.s, e.t, ts, o, "snap")) { mon_unrolljam(r.f, e.s, rest, ts, o, "unrolljam"); mon_vector(r.f, e.s, rest, ts, o, "vector"); } if (times_from_snap(r.a, e.s, e.t, ts, o, "snap")) mon_vector(r.a, e.s, e.t, ts, o, "vector-auto"); }
  else if (prop == "P26") { mon_start(c, e, r, o); if (times_from_map(r.sched, e.s, e.t, tm, o, "total")) { judge_legal(c, e, r, tm, o); mon_inject(e.t, tm, o, "inject"); } }
  else if (prop == "P19") { if (e.s.maxdim() > 0) judge_optimal(c, e.s, e.t, r, o); }
  else if (prop == "P09") judge_strings(c, e.s, e.t, r, o);
  else throw std::runtime_error("no judge for " + prop);
  run_free(r);
}
