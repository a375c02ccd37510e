// Index set splitting: run between dependence extraction and scheduling, as the
// pluto tool does with --iss, and judged against the program before it.
#include "judge.h"
#include <algorithm>
#include <sstream>
#include <set>
extern "C" {
#include "pluto/pluto.h"
#include "pluto/matrix.h"
#include "pluto.h"
#include "constraints.h"
#include "program.h"
}
#include <cstring>
using std::string; using std::vector;

struct AccObs { string arr; vector<Vec> rows; bool write; };
struct StObs { int origin, dim, dim_orig; vector<Sys> dom; vector<string> iters; string acc; vector<AccObs> accs; vector<int> isorig; int type; };
struct DepObs { int src, dest, type; Sys poly; };
struct ProgObs { int npar = 0; vector<StObs> st; vector<DepObs> dep; bool ids = true; };
struct IssObs { bool ran = false; ProgObs before, after; };
static const Scop *g_scop = nullptr;
static IssObs g_obs;
static bool g_watch = false;  // copy the program as extracted
static ProgObs g_given; static bool g_givenok = false;

static Sys csys(const PlutoConstraints *c) { Sys s; s.n = (int)c->ncols - 1; for (unsigned i = 0; i < c->nrows; i++) { Row r; r.eq = c->is_eq[i] != 0; r.c.assign(c->val[i], c->val[i] + c->ncols); s.rows.push_back(r); } return s; }
static string acctext(const Stmt *s) {
  std::ostringstream o; auto one = [&](const PlutoAccess *a) { o << a->name << "("; for (unsigned i = 0; i < a->mat->nrows; i++) { for (unsigned j = 0; j < a->mat->ncols; j++) o << a->mat->val[i][j] << ","; o << ";"; } o << ")"; };
  o << "R"; for (int i = 0; i < s->nreads; i++) one(s->reads[i]); o << "W"; for (int i = 0; i < s->nwrites; i++) one(s->writes[i]); return o.str();
}
static ProgObs observe(PlutoProg *p) {
  ProgObs q; q.npar = p->npar;
  for (unsigned i = 0; i < p->nstmts; i++) {
    Stmt *s = p->stmts[i]; StObs t; t.origin = s->text ? atoi(s->text) : -1; t.dim = s->dim; t.dim_orig = s->dim_orig; t.type = s->type; if (s->id != (int)i) q.ids = false;
    for (const PlutoConstraints *c = s->domain; c; c = c->next) t.dom.push_back(csys(c));
    for (unsigned j = 0; j < s->dim; j++) { t.iters.push_back(s->iterators[j] ? s->iterators[j] : ""); t.isorig.push_back(s->is_orig_loop[j]); }
    t.acc = acctext(s);
    auto acc = [&](PlutoAccess **a, int n, bool w) { for (int k = 0; k < n; k++) { AccObs x; x.arr = a[k]->name; x.write = w; for (unsigned r = 0; r < a[k]->mat->nrows; r++) x.rows.push_back(Vec(a[k]->mat->val[r], a[k]->mat->val[r] + a[k]->mat->ncols)); t.accs.push_back(x); } };
    acc(s->reads, s->nreads, false); acc(s->writes, s->nwrites, true); q.st.push_back(t);
  }
  for (int i = 0; i < p->ndeps; i++) { Dep *d = p->deps[i]; q.dep.push_back({d->src, d->dest, (int)d->type, csys(d->dpolytope)}); }
  return q;
}
void iss_event(PlutoProg *p) {
  if (g_watch) { g_given = observe(p); g_givenok = true; }
  if (!g_scop) return; const Scop &s = *g_scop;
  // the original order, as the tool's front ends provide it
  unsigned nh = 2 * (unsigned)s.maxdim() + 1;
  for (unsigned d = 0; d < nh; d++) {
    bool loop = d % 2;
    for (unsigned i = 0; i < p->nstmts; i++) {
      Stmt *t = p->stmts[i]; const St &q = s.st[i]; bool l = loop && (int)(d / 2) < q.dim; pluto_stmt_add_hyperplane(t, l ? H_LOOP : H_SCALAR, d);
      for (unsigned j = 0; j < t->trans->ncols; j++) t->trans->val[d][j] = 0;
      if (l) t->trans->val[d][d / 2] = 1; else if (!loop && d / 2 < q.beta.size()) t->trans->val[d][t->trans->ncols - 1] = q.beta[d / 2];
    }
    pluto_prog_add_hyperplane(p, d, loop ? H_LOOP : H_SCALAR);
  }
  for (unsigned i = 0; i < p->nstmts; i++) { free(p->stmts[i]->text); p->stmts[i]->text = strdup(std::to_string(i).c_str()); }
  g_obs.before = observe(p); pluto_iss_dep(p); g_obs.after = observe(p); g_obs.ran = true;
}
static bool inside(const vector<Sys> &dom, const Vec &x) { for (auto &s : dom) if (sys_holds(s, x)) return true; return false; }
static Vec cat(Vec a, const Vec &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// points of a dependence at the parameter values, as (original source instance, original target instance)
typedef std::pair<std::pair<int, Vec>, std::pair<int, Vec>> Pair;
static void dep_points(const ProgObs &q, const DepObs &d, const Vec &par, std::multiset<Pair> &out, bool origin) {
  Sys y = sys_fix_suffix(d.poly, par); int sd = q.st[d.src].dim;
  sys_points(y, [&](const Vec &x) { Vec a(x.begin(), x.begin() + sd), b(x.begin() + sd, x.end()); out.insert({{origin ? q.st[d.src].origin : d.src, a}, {origin ? q.st[d.dest].origin : d.dest, b}}); return true; }, 400000);
}
static string pstr(const Pair &p) { return "S_" + std::to_string(p.first.first) + vstr(p.first.second) + " -> S_" + std::to_string(p.second.first) + vstr(p.second.second); }

void judge_iss(const Case &c, const Scop &s, const Trace &t, Out &o) {
  RunRes r; RunIn in{c, s}; g_scop = &s; g_obs = IssObs(); run_pluto(in, r); g_scop = nullptr;
  if (!g_obs.ran) { run_free(r); o.fail("iss", "splitting was not run"); return; }
  const ProgObs &a = g_obs.before, &b = g_obs.after; o.add("iss_runs");
  bool split = b.st.size() != a.st.size(); if (split) o.add("iss_split");
  auto done = [&] { run_free(r); };
  if (!b.ids) { o.fail("iss", "statement numbers do not follow their positions"); return done(); }
  for (auto &q : b.st) { if (q.origin < 0 || q.origin >= (int)a.st.size()) { o.fail("iss", "a statement comes from nowhere"); return done(); }
    const StObs &p = a.st[q.origin]; if (q.dim != p.dim || q.dim_orig != p.dim_orig || q.iters != p.iters || q.acc != p.acc || q.isorig != p.isorig || q.type != p.type) { o.fail("iss", "a part of S_" + std::to_string(q.origin) + " has other iterators or accesses"); return done(); } }
  for (auto &d : b.dep) if (d.src < 0 || d.dest < 0 || d.src >= (int)b.st.size() || d.dest >= (int)b.st.size() || (int)d.poly.n != b.st[d.src].dim + b.st[d.dest].dim + b.npar) { o.fail("iss", "a dependence refers to no statement or has the wrong dimensions"); return done(); }
  // every instance lies in exactly one part
  Trace t2 = t; Scop s2 = s; s2.st.clear(); for (auto &q : b.st) s2.st.push_back(s.st[q.origin]);
  std::map<int, size_t> sz;
  for (size_t i = 0; i < t.inst.size(); i++) {
    int n = 0; Vec x = cat(t.inst[i].it, t.params); for (size_t k = 0; k < b.st.size(); k++) if (b.st[k].origin == t.inst[i].s && inside(b.st[k].dom, x)) { n++; t2.inst[i].s = (int)k; }
    if (n != 1) { o.fail("iss-partition", inst_str(t, i) + " lies in " + std::to_string(n) + " parts at params " + vstr(t.params)); return done(); }
    sz[t2.inst[i].s]++;
  }
  for (size_t k = 0; k < b.st.size(); k++) { std::set<Vec> pts; for (auto &dm : b.st[k].dom) { Sys y = sys_fix_suffix(dm, t.params); sys_points(y, [&](const Vec &x) { pts.insert(x); return true; }, 400000); } size_t n = pts.size(); if (n != sz[(int)k]) { o.fail("iss-partition", "part " + std::to_string(k) + " has " + std::to_string(n) + " points, " + std::to_string(sz[(int)k]) + " of them in the program"); return done(); } }
  if (split && sz.size() > a.st.size()) o.add("iss_parts", sz.size());
  // dependences: the same pairs, between the parts they lie in
  std::multiset<Pair> da, db; for (auto &d : a.dep) dep_points(a, d, t.params, da, true); for (auto &d : b.dep) dep_points(b, d, t.params, db, true);
  o.add("iss_deppairs", da.size());
  if (da != db) { string m; for (auto &p : da) if (db.count(p) < da.count(p)) { m = "dependence " + pstr(p) + " is lost"; break; } if (m.empty()) for (auto &p : db) if (da.count(p) < db.count(p)) { m = "dependence " + pstr(p) + " appears"; break; } o.fail("iss-deps", m + " at params " + vstr(t.params)); return done(); }
  for (auto &d : b.dep) { std::multiset<Pair> dp; dep_points(b, d, t.params, dp, false); for (auto &p : dp) if (!inside(b.st[d.src].dom, cat(p.first.second, t.params)) || !inside(b.st[d.dest].dom, cat(p.second.second, t.params))) { o.fail("iss-deps", "dependence " + pstr(p) + " lies outside the parts it links"); return done(); } }
  { std::map<int, size_t> ta, tb; for (auto &d : a.dep) { std::multiset<Pair> x; dep_points(a, d, t.params, x, true); ta[d.type] += x.size(); } for (auto &d : b.dep) { std::multiset<Pair> x; dep_points(b, d, t.params, x, true); tb[d.type] += x.size(); } for (auto &q : ta) if (q.second != tb[q.first]) o.fail("iss-deps", "dependences change their type"); }
  if (!r.a.valid) { o.add("null_schedule"); return done(); }
  std::ostringstream sh; for (auto &q : r.f.st) { for (auto &w : q.trans) sh << vstr(w); sh << "|"; } o.shapes.insert(std::to_string(std::hash<string>()(sh.str())));
  // the transformed program
  o.add("instances", t.inst.size());
  Times tm; if (r.a.st.size() != b.st.size()) { o.fail("iss", "statements change after splitting"); return done(); }
  if (times_from_snap(r.a, s2, t2, tm, o, "snap")) { mon_legal(s, t, tm, o, "legal-auto"); mon_exec(s, t, tm, o, "exec-auto"); mon_inject(t2, tm, o, "inject-auto"); mon_parallel(r.a, t2, tm, o, "parallel-auto"); mon_bands(r.a, t2, tm, o, "bands-auto"); if (split) o.add("iss_scheduled"); }
  if (r.f.valid && times_from_snap(r.f, s2, t2, tm, o, "snap") && !sunk_possible(r.a)) { mon_legal(s, t, tm, o, "legal"); mon_exec(s, t, tm, o, "exec"); mon_inject(t2, tm, o, "inject"); mon_parallel(r.f, t2, tm, o, "parallel"); }
  done();
}

// ------------------------------------------------ the program given is the program scheduled
void watch_given(bool on) { g_watch = on; g_givenok = false; g_given = ProgObs(); }
static bool has_divs(const string &txt) { return txt.find("exists") != string::npos || txt.find("floor") != string::npos || txt.find("mod") != string::npos; }
void mon_given(const Case &c, const Scop &s, const Trace &t, const RunRes &r, Out &o, const char *mon) {
  if (!g_givenok) { o.fail(mon, "no program was extracted"); return; }
  const ProgObs &g = g_given; size_t np = s.np();
  if (g.st.size() != s.st.size() || g.npar != (int)np || !g.ids) { o.fail(mon, "other statements or parameters than given"); return; }
  bool computed = c.api == "schedule";
  // statement domains
  for (size_t k = 0; k < s.st.size(); k++) {
    if (g.st[k].dim != s.st[k].dim || g.st[k].dim_orig != s.st[k].dim) { o.fail(mon, "S_" + std::to_string(k) + " has " + std::to_string(g.st[k].dim) + " dimensions, " + std::to_string(s.st[k].dim) + " given"); return; }
    std::set<Vec> pts; for (auto &d : g.st[k].dom) { if (d.n != s.st[k].dim + (int)np) { o.fail(mon, "a domain has the wrong number of columns"); return; } sys_points(sys_fix_suffix(d, t.params), [&](const Vec &x) { pts.insert(x); return true; }, 400000); }
    size_t n = 0; for (size_t i = 0; i < t.inst.size(); i++) if (t.inst[i].s == (int)k) { n++; if (!pts.count(t.inst[i].it)) { o.fail(mon, inst_str(t, (int)i) + " is not in the domain scheduled, params " + vstr(t.params)); return; } }
    if (pts.size() != n) { o.fail(mon, "the domain of S_" + std::to_string(k) + " has " + std::to_string(pts.size()) + " points, " + std::to_string(n) + " given"); return; }
    o.add("given_points", n);
  }
  // dependences
  size_t ni = t.inst.size(); vector<std::set<int>> succ(ni); size_t np2 = 0;
  bool inexact = has_divs(r.depstr) || computed; // existentials are projected out: extra points are allowed, so keep enumerating
  for (auto &d : g.dep) {
    if (d.src < 0 || d.dest < 0 || d.src >= (int)g.st.size() || d.dest >= (int)g.st.size() || d.poly.n != g.st[d.src].dim + g.st[d.dest].dim + (int)np) { o.fail(mon, "a dependence refers to no statement or has the wrong dimensions"); return; }
    int sd = g.st[d.src].dim; bool bad = false; string m;
    sys_points(sys_fix_suffix(d.poly, t.params), [&](const Vec &x) {
      Vec a(x.begin(), x.begin() + sd), b(x.begin() + sd, x.end()); auto p = t.id.find({d.src, a}), q = t.id.find({d.dest, b});
      if (p == t.id.end() || q == t.id.end()) { bad = true; m = "dependence S_" + std::to_string(d.src) + vstr(a) + " -> S_" + std::to_string(d.dest) + vstr(b) + " links no instances, params " + vstr(t.params); return inexact; }
      succ[p->second].insert(q->second); np2++; return true; }, 400000);
    if (bad && !inexact) { o.fail(mon, m); return; }
  }
  std::set<std::pair<int, int>> conf(t.dep.begin(), t.dep.end());
  bool exact = !computed && !has_divs(r.depstr);
  for (size_t i = 0; i < ni; i++) for (int j : succ[i]) if (exact && !conf.count({(int)i, j})) { o.fail(mon, "dependence " + inst_str(t, (int)i) + " -> " + inst_str(t, j) + " was not given"); return; }
  if (exact) o.add("given_exact", np2);
  if (!computed) { for (auto &p : t.dep) if (!succ[p.first].count(p.second)) { o.fail(mon, "dependence " + inst_str(t, p.first) + " -> " + inst_str(t, p.second) + " given is not scheduled for, params " + vstr(t.params)); return; } }
  else {
    size_t w = (ni + 63) / 64; vector<vector<uint64_t>> rch(ni, vector<uint64_t>(w, 0));
    for (size_t i = ni; i-- > 0;) for (int j : succ[i]) if (j > (int)i) { rch[i][j / 64] |= 1ull << (j % 64); for (size_t k = 0; k < w; k++) rch[i][k] |= rch[j][k]; }
    for (auto &p : t.dep) if (!(rch[p.first][p.second / 64] >> (p.second % 64) & 1)) { o.fail(mon, "the conflict " + inst_str(t, p.first) + " -> " + inst_str(t, p.second) + " is implied by no dependences computed, params " + vstr(t.params)); return; }
  }
  o.add("given_pairs", t.dep.size());
  // accesses
  if (computed || c.withacc) for (size_t k = 0; k < s.st.size(); k++) {
    auto eval = [&](const vector<Vec> &rows, const Vec &it) { Vec e; Vec x = cat(it, t.params); for (auto &q : rows) { i64 v = q.back(); for (size_t j = 0; j + 1 < q.size(); j++) v += q[j] * x[j]; e.push_back(v); } return e; };
    for (int wr = 0; wr < 2; wr++) {
      vector<Acc> want; if (wr) { if (s.st[k].haswrite) want.push_back(s.st[k].write); } else want = s.st[k].reads;
      std::set<std::pair<string, vector<Vec>>> dis; for (auto &a : want) dis.insert({a.arr, a.rows});
      vector<const AccObs *> have; for (auto &a : g.st[k].accs) if (a.write == (wr != 0)) have.push_back(&a);
      if (have.size() != dis.size()) { if (have.empty() && !dis.empty()) { bool any = false; for (auto &q : t.inst) any |= q.s == (int)k; if (any) { o.fail(mon, "an access of S_" + std::to_string(k) + " is lost"); return; } } o.add("given_merged"); continue; }
      for (auto *a : have) for (auto &q : a->rows) if (q.size() != s.st[k].dim + np + 1) { o.fail(mon, "an access has the wrong number of columns"); return; }
      for (auto &in : t.inst) if (in.s == (int)k) {
        std::set<std::pair<string, Vec>> x, y; for (auto &a : dis) x.insert({a.first, eval(a.second, in.it)}); for (auto *a : have) y.insert({a->arr, eval(a->rows, in.it)});
        if (x != y) { o.fail(mon, string(wr ? "the writes" : "the reads") + " of S_" + std::to_string(k) + vstr(in.it) + " are not those given, params " + vstr(t.params)); return; }
      }
      o.add("given_accesses", have.size());
    }
  }
}
