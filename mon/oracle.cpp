#include "oracle.h"
#include "judge.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <isl/map.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/mat.h>
#include <isl/val.h>
#include <isl/point.h>
#include <isl/printer.h>
#include <isl/options.h>
#include <isl/union_set.h>
#include <isl/local_space.h>
#include <isl/constraint.h>
#include <gmp.h>
#include <glpk.h>
extern "C" {
#include "pluto/pluto.h"
#include "pluto/matrix.h"
#include "pluto.h"
#include "constraints.h"
#include "math_support.h"
#include "program.h"
#include "post_transform.h"
extern void (*pluto_verif_event)(const char *, PlutoProg *);
}
using std::string; using std::vector;

string vstr(const Vec &v) { string s = "("; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s + ")"; }
string inst_str(const Trace &t, int i) { return "S_" + std::to_string(t.inst[i].s) + vstr(t.inst[i].it); }

// ------------------------------------------------------------ options
void set_option(PlutoOptions *o, const string &k, int v) {
#define F(n) if (k == #n) { o->n = v; return; }
  F(tile) F(intratileopt) F(diamondtile) F(per_cc_obj) F(fulldiamondtile) F(parallel) F(innerpar) F(unrolljam) F(ufactor) F(prevector) F(rar)
  F(delayed_cut) F(hybridcut) F(forceparallel) F(multipar) F(second_level_tile) F(find_tile_sizes) F(cache_size) F(data_element_size) F(ft) F(lt) F(debug) F(moredebug)
  F(quiet) F(identity) F(isldep) F(isldepaccesswise) F(isldepcoalesce) F(lastwriter) F(nodepbound) F(coeff_bound) F(silent) F(pipsolve) F(islsolve)
  F(glpk) F(lp) F(dfp) F(ilp) F(lpcolour) F(scc_cluster) F(iss) F(flic) F(codegen_context) F(time)
#undef F
  if (k == "fuse") { o->fuse = (FusionType)v; return; }
  fprintf(stderr, "HARNESS: unknown option %s\n", k.c_str()); _exit(97);
}

// ------------------------------------------------------------ snapshots
static Sys cst_sys(const PlutoConstraints *c) {
  Sys s; s.n = (int)c->ncols - 1;
  for (unsigned i = 0; i < c->nrows; i++) { Row r; r.eq = c->is_eq[i] != 0; r.c.assign(c->val[i], c->val[i] + c->ncols); s.rows.push_back(r); }
  return s;
}
static LoopSnap loop_snap(const Ploop *l) { LoopSnap s; s.depth = l->depth; for (unsigned i = 0; i < l->nstmts; i++) s.stmts.push_back(l->stmts[i]->id); std::sort(s.stmts.begin(), s.stmts.end()); return s; }
bool g_lowlevel = false;
static void take(PlutoProg *p, Snap &n) {
  n = Snap(); n.valid = true; n.nh = p->num_hyperplanes; n.npar = p->npar; n.diamond = p->is_diamond_tiled;
  for (int i = 0; i < n.nh; i++) n.htype.push_back(p->hProps[i].type);
  for (unsigned i = 0; i < p->nstmts; i++) {
    Stmt *s = p->stmts[i]; StSnap q; q.dim = s->dim; q.dim_orig = s->dim_orig; q.nr = s->nreads; q.nw = s->nwrites;
    for (const PlutoConstraints *c = s->domain; c; c = c->next) q.dom.push_back(cst_sys(c));
    for (unsigned r = 0; r < s->trans->nrows; r++) { q.trans.push_back(Vec(s->trans->val[r], s->trans->val[r] + s->trans->ncols)); q.hyp.push_back(s->hyp_types[r]); }
    for (unsigned k = 0; k < s->dim; k++) q.isorig.push_back(s->is_orig_loop[k]);
    n.st.push_back(q);
  }
  for (int i = 0; i < p->ndeps; i++) {
    Dep *d = p->deps[i]; DepSnap q; q.src = d->src; q.dest = d->dest; q.type = d->type; q.satisfied = d->satisfied; q.level = d->satisfaction_level;
    q.srcdim = p->stmts[d->src]->dim; q.destdim = p->stmts[d->dest]->dim;
    if (d->satvec) q.satvec.assign(d->satvec, d->satvec + n.nh);
    if (d->dirvec) for (int k = 0; k < n.nh; k++) q.dirvec += (char)d->dirvec[k];
    q.poly = cst_sys(d->dpolytope); q.xpoly = q.poly;
    for (int side = 0; side < 2; side++) { // the tiles of both instances
      Stmt *st = p->stmts[side ? d->dest : d->src]; int nt = (int)st->dim - (int)st->dim_orig; if (nt <= 0 || st->domain->next) continue;
      for (auto &w : cst_sys(st->domain).rows) { bool tl = false; for (int k = 0; k < nt; k++) tl |= w.c[k] != 0; if (!tl) continue;
        Row x; x.eq = w.eq; x.c.assign(q.poly.n + 1, 0); for (int k = 0; k < (int)st->dim; k++) x.c[k + (side ? q.srcdim : 0)] = w.c[k]; for (int k = 0; k <= n.npar; k++) x.c[q.srcdim + q.destdim + k] = w.c[st->dim + k]; q.xpoly.rows.push_back(x); }
    }
    n.dep.push_back(q);
  }
  bool alltype = true; for (auto &d : n.dep) if (d.type != PLUTO_DEP_RAR && d.satvec.empty()) alltype = false;
  if (!alltype || n.nh == 0) return;
  unsigned k = 0; Ploop **L = pluto_get_all_loops(p, &k);
  for (unsigned i = 0; i < k; i++) { LoopSnap l = loop_snap(L[i]); l.parallel = pluto_loop_is_parallel(p, L[i]); if (g_lowlevel) { l.vec = pluto_loop_is_vectorizable(L[i], p); l.inner = pluto_loop_is_innermost(L[i], p); } n.loops.push_back(l); }
  pluto_loops_free(L, k);
  L = pluto_get_parallel_loops(p, &k); for (unsigned i = 0; i < k; i++) n.parloops.push_back(loop_snap(L[i])); pluto_loops_free(L, k);
  L = pluto_get_dom_parallel_loops(p, &k); for (unsigned i = 0; i < k; i++) { int lev = -1; Band *b = pluto_get_parallel_band(L[i], p, &lev); LoopSnap l = loop_snap(b->loop); n.pbands.push_back({l.depth, b->width, l.stmts}); pluto_band_free(b); }
  for (unsigned i = 0; i < k; i++) n.domloops.push_back(loop_snap(L[i])); pluto_loops_free(L, k);
  if (g_lowlevel) { n.haslow = true; L = pluto_get_unroll_jam_loops(p, &k); for (unsigned i = 0; i < k; i++) n.ujloops.push_back(loop_snap(L[i])); pluto_loops_free(L, k); }
  Band **B = pluto_get_outermost_permutable_bands(p, &k);
  for (unsigned i = 0; i < k; i++) { LoopSnap l = loop_snap(B[i]->loop); n.bands.push_back({l.depth, B[i]->width, l.stmts}); } pluto_bands_free(B, k);
  B = pluto_get_innermost_permutable_bands(p, 0, &k);
  for (unsigned i = 0; i < k; i++) { LoopSnap l = loop_snap(B[i]->loop); n.ibands.push_back({l.depth, B[i]->width, l.stmts}); } pluto_bands_free(B, k);
}
static thread_local RunRes *cur = nullptr;
void iss_event(PlutoProg *p);
void install_schedule(PlutoProg *p, const vector<vector<Vec>> &w);
bool given_schedule(const Case &c, const Scop &s, const Trace &t, vector<vector<Vec>> &best);
static thread_local const vector<vector<Vec>> *g_install = nullptr;
// Threads inside the library now, events seen while another one was, and what the others were doing (P10)
static std::atomic<int> g_inside{0}, g_overlap{0}; static std::atomic<unsigned> g_phase{0}, g_pairs{0}; static std::atomic<bool> g_conc{false};
static void conc_event(const char *what) {
  int k = what[0] == 'd' ? 0 : what[0] == 'a' ? 1 : 2;
  if (g_inside.load(std::memory_order_relaxed) > 1) { g_overlap.fetch_add(1, std::memory_order_relaxed); unsigned last = g_phase.exchange(k, std::memory_order_relaxed); g_pairs.fetch_or(1u << (last * 3 + k), std::memory_order_relaxed); }
  static thread_local unsigned rnd = 12345; rnd = rnd * 1103515245u + 12345u; if ((rnd >> 16) % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds((rnd >> 20) % 400));
}
static void on_event(const char *ev, PlutoProg *p) { if (g_conc.load(std::memory_order_relaxed)) conc_event(ev); if (!cur) return; if (ev[0] == 'd') { iss_event(p); if (g_install && !g_install->empty()) install_schedule(p, *g_install); return; } take(p, ev[0] == 'a' ? cur->a : cur->f); }

// ------------------------------------------------------------ inputs
isl_union_map *dep_relation(isl_ctx *ctx, const Scop &s, const Case &c) {
  isl_union_map *S = isl_union_map_read_from_str(ctx, isl_schedule(s).c_str());
  isl_union_map *R = isl_union_map_read_from_str(ctx, isl_accesses(s, false).c_str());
  isl_union_map *W = isl_union_map_read_from_str(ctx, isl_accesses(s, true).c_str());
  isl_union_map *lt = isl_union_map_lex_lt_union_map(isl_union_map_copy(S), S);
  auto pair = [&](isl_union_map *a, isl_union_map *b) { return isl_union_map_intersect(isl_union_map_apply_range(isl_union_map_copy(a), isl_union_map_reverse(isl_union_map_copy(b))), isl_union_map_copy(lt)); };
  isl_union_map *d = pair(W, R); d = isl_union_map_union(d, pair(R, W)); d = isl_union_map_union(d, pair(W, W));
  if (c.coalesce) d = isl_union_map_coalesce(isl_union_map_remove_redundancies(d));
  isl_union_map_free(R); isl_union_map_free(W); isl_union_map_free(lt);
  return d;
}
string ctxcond(const Case &c, const Scop &s) {
  if (c.ctxmin <= 0 || s.params.empty()) return "";
  string r; for (auto &p : s.params) { if (!r.empty()) r += " and "; r += p + " >= " + std::to_string(c.ctxmin); } return r;
}
static isl_space *rev_params(isl_ctx *ctx, const Scop &s) { isl_space *sp = isl_space_params_alloc(ctx, s.np()); for (size_t k = 0; k < s.np(); k++) sp = isl_space_set_dim_name(sp, isl_dim_param, k, s.params[s.np() - 1 - k].c_str()); return sp; }
static Remap take_remap(const Remapping &m) {
  Remap r;
  for (unsigned i = 0; i < m.nstmts; i++) {
    vector<Vec> rows; PlutoMatrix *x = m.stmt_inv_matrices[i];
    for (unsigned k = 0; k < x->nrows; k++) rows.push_back(Vec(x->val[k], x->val[k] + x->ncols));
    r.mat.push_back(rows); vector<int> d; for (unsigned k = 0; k < x->nrows; k++) d.push_back(m.stmt_divs[i][k]); r.div.push_back(d);
  }
  return r;
}

void run_pluto(const RunIn &in, RunRes &r) {
  const Case &c = in.c;
  r.ctx = isl_ctx_alloc();
  isl_options_set_on_error(r.ctx, ISL_ON_ERROR_CONTINUE);
  PlutoContext *pc = in.keep ? *in.keep : nullptr;
  if (!pc) { pc = pluto_context_alloc(); pc->options->silent = 1; for (auto &o : c.opt) set_option(pc->options, o.first, o.second); }
  vector<vector<Vec>> rows; if (c.given) { Vec pv; for (auto &p : in.s.params) pv.push_back(c.pval.at(p)); if (!given_schedule(c, in.s, scop_trace(in.s, pv, 6000), rows)) rows.assign(in.s.st.size(), vector<Vec>()); if (!rows.empty() && rows[0].empty()) for (size_t k = 0; k < rows.size(); k++) { Vec v(in.s.st[k].dim + in.s.np() + 1, 0); v.back() = in.s.st[k].beta[0]; rows[k].push_back(v); } g_install = &rows; }
  struct Un { ~Un() { g_install = nullptr; } } un;
  cur = in.snap ? &r : nullptr; if (pluto_verif_event != on_event) pluto_verif_event = on_event;
  if (c.api == "schedule") {
    isl_union_map *S = isl_union_map_read_from_str(r.ctx, isl_schedule(in.s).c_str());
    isl_union_map *R = isl_union_map_read_from_str(r.ctx, isl_accesses(in.s, false).c_str());
    isl_union_map *W = isl_union_map_read_from_str(r.ctx, isl_accesses(in.s, true).c_str());
    if (c.revpar && in.s.np() > 1) { R = isl_union_map_align_params(R, rev_params(r.ctx, in.s)); W = isl_union_map_align_params(W, rev_params(r.ctx, in.s)); }
    r.sched = pluto_schedule(S, R, W, pc);
  } else {
    r.domstr = isl_domains(in.s, ctxcond(c, in.s));
    isl_union_map *D = dep_relation(r.ctx, in.s, c);
    if (c.ctxmin > 0 && !in.s.params.empty()) { isl_union_set *d = isl_union_set_read_from_str(r.ctx, r.domstr.c_str()); D = isl_union_map_intersect_domain(D, d); }
    if (c.revpar && in.s.np() > 1) {
      D = isl_union_map_align_params(D, rev_params(r.ctx, in.s));
    }
    if (c.droppar) D = isl_union_map_drop_unused_params(D);
    // every interface is given the same text
    { char *t = isl_union_map_to_str(D); r.depstr = t; free(t); isl_union_map_free(D); }
    if (const char *df = getenv("MON_DUMP")) if (FILE *f = fopen(df, "w")) { fprintf(f, "DOM %s\nDEP %s\n", r.domstr.c_str(), r.depstr.c_str()); fclose(f); }
    if (c.api == "str" || c.api == "remap") {
      if (c.api == "str") {
        char *ss = nullptr, *pl = nullptr; Remapping *rm = nullptr;
        pluto_schedule_str(r.domstr.c_str(), r.depstr.c_str(), &ss, &pl, &rm, pc);
        if (ss) { r.schedstr = ss; r.sched = isl_union_map_read_from_str(r.ctx, ss); pluto_schedules_strbuf_free(ss); }
        if (pl) { r.ploops = pl; free(pl); }
        if (rm && r.sched) { r.remap = take_remap(*rm); r.hasremap = true; pluto_remapping_free(*rm); free(rm); }
      } else {
        Remapping rm; memset(&rm, 0, sizeof rm);
        pluto_get_remapping_str(r.domstr.c_str(), r.depstr.c_str(), pc, &rm);
        if (rm.stmt_inv_matrices) { r.remap = take_remap(rm); r.hasremap = true; pluto_remapping_free(rm); }
      }
    } else {
      isl_union_set *dom = isl_union_set_read_from_str(r.ctx, r.domstr.c_str()); isl_union_map *D = isl_union_map_read_from_str(r.ctx, r.depstr.c_str());
      isl_union_map *R = nullptr, *W = nullptr;
      if (c.withacc) { R = isl_union_map_read_from_str(r.ctx, isl_accesses(in.s, false).c_str()); W = isl_union_map_read_from_str(r.ctx, isl_accesses(in.s, true).c_str()); if (c.revpar && in.s.np() > 1) { R = isl_union_map_align_params(R, rev_params(r.ctx, in.s)); W = isl_union_map_align_params(W, rev_params(r.ctx, in.s)); } }
      r.sched = pluto_transform(dom, D, R, W, pc);
    }
  }
  cur = nullptr;
  if (in.keep) *in.keep = pc; else pluto_context_free(pc);
  r.isnull = r.sched == nullptr; r.ok = r.sched != nullptr;
}
void run_free(RunRes &r) {
  if (r.sched) isl_union_map_free(r.sched); r.sched = nullptr;
  if (r.ctx) isl_ctx_free(r.ctx); r.ctx = nullptr;
}

// ------------------------------------------------------------ dates
// Solve for the remaining variables given the statement instance; the system is
// over [iters | params | out...].
static int images(const Sys &sys, const Vec &pre, std::set<Vec> &res) {
  Sys r = sys_fix_prefix(sys, pre);
  if (r.n == 0) { if (sys_holds(r, Vec())) res.insert(Vec()); return 0; }
  int n = 0;
  sys_points(r, [&](const Vec &x) { res.insert(x); return ++n < 3; }, 50);
  return n;
}
struct MapSys { vector<Sys> b; int nout = 0; bool div = false; isl_map *m = nullptr; };
static isl_stat bm_cb(isl_basic_map *bm, void *u) {
  MapSys *ms = (MapSys *)u; bm = isl_basic_map_remove_redundancies(bm);
  if (isl_basic_map_dim(bm, isl_dim_div) > 0) ms->div = true;
  isl_mat *m[2] = {isl_basic_map_equalities_matrix(bm, isl_dim_in, isl_dim_param, isl_dim_out, isl_dim_div, isl_dim_cst),
                   isl_basic_map_inequalities_matrix(bm, isl_dim_in, isl_dim_param, isl_dim_out, isl_dim_div, isl_dim_cst)};
  Sys s; s.n = isl_mat_cols(m[0]) - 1;
  for (int k = 0; k < 2; k++) { for (int i = 0; i < isl_mat_rows(m[k]); i++) { Row r; r.eq = k == 0; for (int j = 0; j <= s.n; j++) { isl_val *v = isl_mat_get_element_val(m[k], i, j); r.c.push_back(isl_val_get_num_si(v)); isl_val_free(v); } s.rows.push_back(r); } isl_mat_free(m[k]); }
  ms->b.push_back(s); isl_basic_map_free(bm); return isl_stat_ok;
}
static isl_stat map_cb(isl_map *m, void *u) {
  auto &ms = *(std::map<string, MapSys> *)u; const char *nm = isl_map_get_tuple_name(m, isl_dim_in);
  MapSys &x = ms[nm ? nm : "?"]; x.nout = isl_map_dim(m, isl_dim_out);
  isl_map_foreach_basic_map(m, bm_cb, &x); isl_map_free(m); return isl_stat_ok;
}
static isl_stat pt_cb(isl_point *p, void *u) {
  auto *r = (std::pair<int, std::set<Vec>> *)u; Vec v; for (int k = 0; k < r->first; k++) { isl_val *x = isl_point_get_coordinate_val(p, isl_dim_set, k); v.push_back(isl_val_get_num_si(x)); isl_val_free(x); } isl_point_free(p); r->second.insert(v);
  return r->second.size() > 3 ? isl_stat_error : isl_stat_ok;
}
bool times_from_map(isl_union_map *um, const Scop &s, const Trace &t, Times &o, Out &out, const char *mon, bool requireAll) {
  isl_space *sp = isl_space_params_alloc(isl_union_map_get_ctx(um), 0);
  for (size_t k = 0; k < s.np(); k++) { sp = isl_space_insert_dims(sp, isl_dim_param, k, 1); sp = isl_space_set_dim_name(sp, isl_dim_param, k, s.params[k].c_str()); }
  // align explicitly: same parameter order for every map
  std::map<string, MapSys> ms;
  struct AU { isl_space *sp; std::map<string, MapSys> *ms; } au{sp, &ms};
  isl_union_map_foreach_map(um, [](isl_map *m, void *u) -> isl_stat { AU *a = (AU *)u; m = isl_map_align_params(m, isl_space_copy(a->sp)); return map_cb(m, a->ms); }, &au);
  isl_space_free(sp);
  o.assign(t.inst.size(), Vec()); bool good = true; size_t bad = 0;
  for (size_t i = 0; i < t.inst.size(); i++) {
    string nm = "S_" + std::to_string(t.inst[i].s); auto f = ms.find(nm);
    if (f == ms.end()) { if (requireAll) out.fail(mon, "no schedule for " + nm); good = false; break; }
    std::set<Vec> res; Vec pre = t.inst[i].it; pre.insert(pre.end(), t.params.begin(), t.params.end());
    std::set<Vec> outv;
    for (auto &b : f->second.b) { images(b, pre, res); }
    for (auto &v : res) outv.insert(Vec(v.begin(), v.begin() + f->second.nout));
    if (outv.size() != 1) {
      good = false;
      if (bad++ < 2) out.fail(mon, inst_str(t, i) + " has " + std::to_string(outv.size()) + " dates" + (outv.size() > 1 ? " e.g. " + vstr(*outv.begin()) + " and " + vstr(*outv.rbegin()) : "") + " at params " + vstr(t.params));
      continue;
    }
    o[i] = *outv.begin();
  }
  out.add("dates", t.inst.size());
  return good;
}
// rows of disjunct 0 that tie supernodes to the rest, as normalised by the library
bool times_from_snap(const Snap &n, const Scop &s, const Trace &t, Times &o, Out &out, const char *mon, vector<Vec> *ext) {
  o.assign(t.inst.size(), Vec()); if (ext) ext->assign(t.inst.size(), Vec()); bool good = true; size_t bad = 0;
  for (size_t i = 0; i < t.inst.size(); i++) {
    const StSnap &q = n.st[t.inst[i].s]; int sn = q.dim - q.dim_orig; Vec x = t.inst[i].it; 
    if (sn > 0) {
      Sys y; y.n = q.dim + n.npar;
      for (auto &r : q.dom[0].rows) { bool has = false; for (int k = 0; k < sn; k++) if (r.c[k]) has = true; if (has) y.rows.push_back(r); }
      Vec suf = x; suf.insert(suf.end(), t.params.begin(), t.params.end());
      y = sys_fix_suffix(y, suf); std::set<Vec> res; int c = 0;
      sys_points(y, [&](const Vec &z) { res.insert(z); return ++c < 3; }, 50);
      if (res.size() != 1) { good = false; if (bad++ < 2) out.fail(mon, inst_str(t, i) + " lies in " + std::to_string(res.size()) + " tiles"); continue; }
      Vec e = *res.begin(); e.insert(e.end(), x.begin(), x.end()); x = e;
    }
    if (ext) (*ext)[i] = x;
    Vec d; for (auto &r : q.trans) { i64 v = r.back(); for (int k = 0; k < q.dim; k++) v += r[k] * x[k]; for (int k = 0; k < n.npar; k++) v += r[q.dim + k] * t.params[k]; d.push_back(v); }
    o[i] = d;
  }
  return good;
}

// ------------------------------------------------------------ monitors
void mon_legal(const Scop &s, const Trace &t, const Times &tm, Out &o, const char *mon) {
  size_t bad = 0;
  for (auto &d : t.dep) {
    const Vec &a = tm[d.first], &b = tm[d.second]; if (a.empty() && b.empty()) continue;
    if (!(a < b)) { if (bad++ < 2) o.fail(mon, "dependence " + inst_str(t, d.first) + " -> " + inst_str(t, d.second) + " at params " + vstr(t.params) + " not respected: dates " + vstr(a) + " and " + vstr(b)); }
  }
  if (bad > 2) o.fail(mon, std::to_string(bad) + " of " + std::to_string(t.dep.size()) + " dependence pairs not respected");
  o.add("deps", t.dep.size());
  size_t moved = 0; for (size_t i = 0; i + 1 < tm.size(); i++) if (tm[i + 1] < tm[i]) moved++;
  o.add("reordered", moved);
}
void mon_exec(const Scop &s, const Trace &t, const Times &tm, Out &o, const char *mon) {
  vector<int> o1(t.inst.size()), o2; for (size_t i = 0; i < o1.size(); i++) o1[i] = (int)i; o2 = o1;
  // ties broken against the original order: equal dates mean "any order"
  std::sort(o2.begin(), o2.end(), [&](int a, int b) { if (tm[a] != tm[b]) return tm[a] < tm[b]; return a > b; });
  vector<uint64_t> v1, v2; auto m1 = scop_run(s, t, o1, &v1), m2 = scop_run(s, t, o2, &v2);
  if (m1 != m2) { for (auto &c : m1) if (m2[c.first] != c.second) { o.fail(mon, "final value of " + c.first.first + vstr(c.first.second) + " differs when executed in the new order, params " + vstr(t.params)); break; } }
  else if (v1 != v2) { for (size_t i = 0; i < v1.size(); i++) if (v1[i] != v2[i]) { o.fail(mon, inst_str(t, i) + " computes another value in the new order"); break; } }
  o.add("executed", t.inst.size());
}
void mon_inject(const Trace &t, const Times &tm, Out &o, const char *mon) {
  std::map<std::pair<int, Vec>, int> seen; size_t bad = 0;
  for (size_t i = 0; i < tm.size(); i++) {
    auto r = seen.insert({{t.inst[i].s, tm[i]}, (int)i});
    if (!r.second && bad++ < 2) o.fail(mon, inst_str(t, r.first->second) + " and " + inst_str(t, i) + " share the date " + vstr(tm[i]));
  }
}
void mon_same(const Trace &t, const Times &a, const Times &b, Out &o, const char *mon) {
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) { o.fail(mon, "returned schedule dates " + inst_str(t, i) + " " + vstr(a[i]) + ", the program transformed gives " + vstr(b[i])); return; }
}
static bool pref(const Vec &a, const Vec &b, size_t n) { for (size_t k = 0; k < n; k++) if (a[k] != b[k]) return false; return true; }
void mon_parallel(const Snap &n, const Trace &t, const Times &tm, Out &o, const char *mon) {
  auto isloop = [&](int s, unsigned dep) { const StSnap &q = n.st[s]; for (int j = 0; j < q.dim; j++) if (q.trans[dep][j]) return true; return false; };
  auto chk = [&](const vector<LoopSnap> &L, const char *what) {
    for (auto &l : L) {
      std::set<int> in(l.stmts.begin(), l.stmts.end()); size_t rel = 0;
      for (auto &d : t.dep) {
        int i1 = in.count(t.inst[d.first].s), i2 = in.count(t.inst[d.second].s); if (!i1 && !i2) continue;
        const Vec &a = tm[d.first], &b = tm[d.second]; if (!pref(a, b, l.depth)) continue;
        // equal outer dates: the same loop, unless the other statement has no loop there
        if (!(i1 && i2) && !isloop(i1 ? t.inst[d.second].s : t.inst[d.first].s, l.depth)) continue;
        rel++;
        if (a[l.depth] != b[l.depth]) { o.fail(mon, string("loop t") + std::to_string(l.depth + 1) + " is reported " + what + " but carries " + inst_str(t, d.first) + vstr(a) + " -> " + inst_str(t, d.second) + vstr(b)); break; }
      }
      o.add("parclaims"); if (rel) o.add("parclaims_exercised");
    }
  };
  chk(n.parloops, "parallel"); chk(n.domloops, "parallel (outermost)");
  for (auto &b : n.pbands) { // no loop of a parallel band carries anything left by the dimensions outside the band
    std::set<int> in(b.stmts.begin(), b.stmts.end()); o.add("pbands"); if (b.width > 1) o.add("pbands_wide");
    if (b.width < 1) { o.fail(mon, "the parallel band of a parallel loop is empty"); continue; }
    for (auto &d : t.dep) { if (!in.count(t.inst[d.first].s) || !in.count(t.inst[d.second].s)) continue; const Vec &x = tm[d.first], &y = tm[d.second]; if (!pref(x, y, b.depth)) continue;
      for (unsigned k = b.depth; k < b.depth + b.width; k++) if (x[k] != y[k]) { o.fail(mon, "band t" + std::to_string(b.depth + 1) + "..t" + std::to_string(b.depth + b.width) + " is reported parallel but t" + std::to_string(k + 1) + " carries " + inst_str(t, d.first) + vstr(x) + " -> " + inst_str(t, d.second) + vstr(y)); break; }
      if (o.v.size()) break; }
  }
  size_t k = 0; for (auto &l : n.loops) k += l.parallel; if (k != n.parloops.size()) o.fail(mon, "parallel loop list disagrees with the per-loop query");
}
static bool isloop_at(const Snap &n, int s, unsigned dep) { const StSnap &q = n.st[s]; for (int j = 0; j < q.dim; j++) if (q.trans[dep][j]) return true; return false; }
// Jamming runs the iterations of the loop inside its inner loops: a dependence
// carried by it must not point backwards inside.
void mon_unrolljam(const Snap &n, const Scop &s, const Trace &t, const Times &tm, Out &o, const char *mon) {
  for (auto &l : n.ujloops) {
    std::set<int> in(l.stmts.begin(), l.stmts.end()); size_t rel = 0; bool deeper = false; o.add("ujclaims"); string nm = "loop t" + std::to_string(l.depth + 1);
    for (int q : l.stmts) { if (!isloop_at(n, q, l.depth)) { o.fail(mon, nm + " is offered for unroll-jam but is no loop of S_" + std::to_string(q)); return; } for (unsigned d = l.depth + 1; d < (unsigned)n.nh; d++) if (isloop_at(n, q, d)) deeper = true; }
    if (!deeper) { o.fail(mon, nm + " is offered for unroll-jam but is innermost"); return; }
    { bool tile = true; for (int q : l.stmts) { const StSnap &z = n.st[q]; for (int j = 0; j < z.dim; j++) if (z.trans[l.depth][j] && j >= z.dim - z.dim_orig) tile = false; } if (tile) { o.fail(mon, nm + " is offered for unroll-jam but counts tiles"); return; } }
    for (auto &d : t.dep) {
      int i1 = in.count(t.inst[d.first].s), i2 = in.count(t.inst[d.second].s); if (!i1 || !i2) continue;
      const Vec &a = tm[d.first], &b = tm[d.second]; if (!pref(a, b, l.depth) || a[l.depth] >= b[l.depth]) continue;
      rel++; size_t last = l.depth; for (size_t k = l.depth + 1; k < a.size(); k++) if (isloop_at(n, t.inst[d.first].s, k) || isloop_at(n, t.inst[d.second].s, k)) last = k; // the order inside one iteration of the inner loops is kept
      for (size_t k = l.depth + 1; k <= last; k++) { if (b[k] > a[k]) break; if (b[k] < a[k]) { o.fail(mon, nm + " is offered for unroll-jam but reverses " + inst_str(t, d.first) + vstr(a) + " -> " + inst_str(t, d.second) + vstr(b)); return; } }
    }
    if (rel) o.add("ujclaims_exercised");
  }
}
// every dimension follows one iterator or none
static bool permuted(const StSnap &z) { for (auto &r : z.trans) { int k = 0; for (int j = 0; j < z.dim; j++) if (r[j]) { k++; if (r[j] != 1) return false; } if (k > 1) return false; } return true; }
static bool unimodular(const StSnap &z) {
  // the loop rows over the original iterators: an integer basis in Hermite form by elimination
  vector<Vec> m; for (auto &r : z.trans) { Vec v(r.begin(), r.begin() + z.dim); m.push_back(v); }
  size_t row = 0; for (int c = 0; c < z.dim; c++) { for (;;) { int best = -1, cnt = 0; for (size_t i = row; i < m.size(); i++) if (m[i][c]) { cnt++; if (best < 0 || std::llabs(m[i][c]) < std::llabs(m[best][c])) best = (int)i; } if (!cnt) return false; std::swap(m[row], m[best]); if (cnt == 1) break; for (size_t i = row + 1; i < m.size(); i++) { i64 f = m[i][c] / m[row][c]; if (f) for (int j = 0; j < z.dim; j++) m[i][j] -= f * m[row][j]; } } if (std::llabs(m[row][c]) != 1) return false; row++; }
  return true;
}
// Innermost and vectorizable loops: strides seen between neighbouring instances.
void mon_vector(const Snap &n, const Scop &s, const Trace &t, const Times &tm, Out &o, const char *mon) {
  for (auto &l : n.loops) {
    string nm = "loop t" + std::to_string(l.depth + 1); bool deeper = false; for (int q : l.stmts) for (unsigned d = l.depth + 1; d < (unsigned)n.nh; d++) if (isloop_at(n, q, d)) deeper = true;
    o.add("innerclaims"); if (l.inner == deeper) o.fail(mon, nm + (deeper ? " is reported innermost but has loops inside" : " has no loops inside but is not reported innermost"));
    if (l.vec && !l.parallel) o.fail(mon, nm + " is reported vectorizable but not parallel");
    bool all = true, seen = true; size_t nacc = 0;
    for (int q : l.stmts) {
      const St &st = s.st[q]; nacc += n.st[q].nr + n.st[q].nw; bool any = false;
      std::map<Vec, std::map<i64, int>> line; for (size_t i = 0; i < tm.size(); i++) if (t.inst[i].s == q) { Vec k = tm[i]; i64 x = k[l.depth]; k[l.depth] = 0; line[k][x] = (int)i; }
      bool uni = unimodular(n.st[q]); if (!uni || !permuted(n.st[q])) seen = false;
      for (auto &w : line) { int prev = -1; i64 px = 0; for (auto &e : w.second) { if (prev >= 0) {
        i64 g = 0; for (int j = 0; j < st.dim; j++) g = std::__gcd(g, (i64)std::llabs(t.inst[e.second].it[j] - t.inst[prev].it[j])); if (g != 1) { prev = e.second; px = e.first; continue; } // not neighbours of the lattice: a hole in the domain lies between them
        any = true; auto chk = [&](const Acc &a) {
          bool ok = true; for (size_t r = 0; r < a.rows.size(); r++) { i64 df = 0; for (int j = 0; j < st.dim; j++) df += a.rows[r][j] * (t.inst[e.second].it[j] - t.inst[prev].it[j]); if (r + 1 < a.rows.size() ? df != 0 : df < 0 || df > 4) ok = false; }
          if (!ok) { all = false; if (l.vec) o.fail(mon, nm + " is reported vectorizable but " + a.arr + " jumps between " + inst_str(t, prev) + vstr(tm[prev]) + " and " + inst_str(t, e.second) + vstr(tm[e.second])); } };
        if (n.st[q].nr) for (auto &a : st.reads) chk(a); if (n.st[q].nw && st.haswrite) chk(st.write);
        if (o.v.size()) return; } prev = e.second; px = e.first; } }
      if (!any) seen = false;
    }
    if (l.vec) { o.add("vecclaims"); if (seen) o.add("vecclaims_exercised"); }
    else if (l.parallel && seen && nacc) { o.add("novecclaims"); if (all) o.fail(mon, nm + " is parallel with short strides only but not reported vectorizable"); }
  }
}
// With parallel code asked for, a permutable band of two loops or more ends up with a parallel loop:
// its outermost one, or after a wavefront the next (all others with multipar).
void mon_wave(const Case &c, const Snap &a, const Snap &f, Out &o, const char *mon) {
  auto opt = [&](const char *k) { auto i = c.opt.find(k); return i == c.opt.end() ? 0 : i->second; };
  if (!opt("parallel") || opt("innerpar") || c.given) return;
  std::map<int, int> nb; for (auto &b : a.bands) for (int x : b.stmts) nb[x]++;
  for (auto &b : a.bands) {
    bool plain = b.width >= 2; for (int x : b.stmts) { if (nb[x] > 1) plain = false; for (unsigned k = 0; k < b.width; k++) if (!isloop_at(a, x, b.depth + k)) plain = false; }
    if (!plain) continue;
    o.add("waves"); std::set<int> in(b.stmts.begin(), b.stmts.end()); unsigned np = 0; bool first = false;
    for (auto &l : f.loops) if (l.parallel && l.depth >= b.depth && l.depth < b.depth + b.width && std::set<int>(l.stmts.begin(), l.stmts.end()) == in) { np++; if (l.depth == b.depth) first = true; }
    unsigned want = opt("multipar") && !first ? b.width - 1 : 1;
    if (np < want) o.fail(mon, "band t" + std::to_string(b.depth + 1) + "..t" + std::to_string(b.depth + b.width) + " of " + std::to_string(b.width) + " permutable loops has " + std::to_string(np) + " parallel loops after the wavefront, expected " + std::to_string(want));
  }
}
void mon_bands(const Snap &n, const Trace &t, const Times &tm, Out &o, const char *mon) {
  auto chk = [&](const vector<BandSnap> &B) {
    for (auto &b : B) {
      std::set<int> in(b.stmts.begin(), b.stmts.end()); size_t rel = 0;
      vector<bool> sc; // scalar for all members
      for (unsigned k = 0; k < b.width; k++) { bool all = true; for (int s : b.stmts) { const StSnap &q = n.st[s]; const Vec &r = q.trans[b.depth + k]; for (int j = 0; j < q.dim; j++) if (r[j]) all = false; } sc.push_back(all); }
      o.add("bandclaims");
      for (auto &d : t.dep) {
        if (!in.count(t.inst[d.first].s) || !in.count(t.inst[d.second].s)) continue;
        const Vec &x = tm[d.first], &y = tm[d.second]; if (!pref(x, y, b.depth)) continue;
        rel++; bool stop = false;
        for (unsigned k = 0; k < b.width && !stop; k++) {
          i64 df = y[b.depth + k] - x[b.depth + k]; if (sc[k]) { if (df > 0) stop = true; continue; }
          if (df < 0) { o.fail(mon, "band t" + std::to_string(b.depth + 1) + "..t" + std::to_string(b.depth + b.width) + " reported permutable but " + inst_str(t, d.first) + vstr(x) + " -> " + inst_str(t, d.second) + vstr(y) + " has a negative component"); return; }
        }
      }
      if (rel) o.add("bandclaims_exercised");
    }
  };
  chk(n.bands); chk(n.ibands);
}
// claims about each dependence against the points of its polyhedron
static Vec levelrow(const Snap &n, const DepSnap &d, int l) {
  // dest - src over [src|dest|par|1]
  const Vec &a = n.st[d.src].trans[l], &b = n.st[d.dest].trans[l]; Vec r(d.srcdim + d.destdim + n.npar + 1, 0);
  for (int k = 0; k < d.srcdim; k++) r[k] = -a[k];
  for (int k = 0; k < d.destdim; k++) r[d.srcdim + k] = b[k];
  for (int k = 0; k <= n.npar; k++) r[d.srcdim + d.destdim + k] = b[d.destdim + k] - a[d.srcdim + k];
  return r;
}
static bool sys_nonempty_isl(isl_ctx *ctx, const Sys &s) {
  isl_space *sp = isl_space_set_alloc(ctx, 0, s.n); isl_local_space *ls = isl_local_space_from_space(isl_space_copy(sp)); isl_basic_set *b = isl_basic_set_universe(sp);
  for (auto &r : s.rows) { isl_constraint *c = r.eq ? isl_constraint_alloc_equality(isl_local_space_copy(ls)) : isl_constraint_alloc_inequality(isl_local_space_copy(ls));
    for (int j = 0; j < s.n; j++) c = isl_constraint_set_coefficient_val(c, isl_dim_set, j, isl_val_int_from_si(ctx, r.c[j]));
    c = isl_constraint_set_constant_val(c, isl_val_int_from_si(ctx, r.c[s.n])); b = isl_basic_set_add_constraint(b, c); }
  isl_local_space_free(ls); bool e = isl_basic_set_is_empty(b) == isl_bool_false; isl_basic_set_free(b); return e;
}
// After tiling, each dependence links the pairs it linked before, each instance in its tile.
void mon_tracked(const Snap &a, const Snap &f, const Trace &t, Out &o, const char *mon) {
  if (a.dep.size() != f.dep.size() || a.st.size() != f.st.size()) { o.fail(mon, "the number of statements or dependences changed"); return; }
  vector<std::map<Vec, Vec>> full(f.st.size()); bool tiled = false;
  for (size_t k = 0; k < f.st.size(); k++) {
    if (a.st[k].dim != a.st[k].dim_orig || f.st[k].dim < a.st[k].dim) return;
    if (f.st[k].dim == a.st[k].dim) continue; tiled = true;
    try { for (auto &d : f.st[k].dom) sys_points(sys_fix_suffix(d, t.params), [&](const Vec &x) { full[k][Vec(x.end() - a.st[k].dim, x.end())] = x; return true; }, 50000); } catch (TooBig &) { full[k].clear(); }
  }
  if (!tiled) return;
  for (size_t i = 0; i < a.dep.size(); i++) {
    const DepSnap &p = a.dep[i], &q = f.dep[i]; if (p.type == PLUTO_DEP_RAR) continue;
    string nm = "dependence " + std::to_string(i) + " S_" + std::to_string(p.src) + "->S_" + std::to_string(p.dest);
    if (p.src != q.src || p.dest != q.dest) { o.fail(mon, nm + " links other statements after tiling"); return; }
    std::set<Vec> pa; try { sys_points(sys_fix_suffix(p.poly, t.params), [&](const Vec &x) { pa.insert(x); return true; }, 3000); } catch (TooBig &) { o.add("tracked_capped"); continue; }
    std::set<Vec> seen; size_t n = 0; bool bad = false;
    try {
      sys_points(sys_fix_suffix(q.poly, t.params), [&](const Vec &x) {
        n++; Vec s(x.begin(), x.begin() + q.srcdim), d(x.begin() + q.srcdim, x.end());
        Vec so(s.end() - p.srcdim, s.end()), dd(d.end() - p.destdim, d.end()); Vec y = so; y.insert(y.end(), dd.begin(), dd.end());
        if (!pa.count(y)) { o.fail(mon, nm + " links " + vstr(s) + " and " + vstr(d) + " after tiling, not before, params " + vstr(t.params)); bad = true; return false; }
        auto u = full[q.src].find(so), v = full[q.dest].find(dd);
        if ((u != full[q.src].end() && u->second != s) || (v != full[q.dest].end() && v->second != d)) { o.fail(mon, nm + " links " + vstr(s) + " and " + vstr(d) + " which are not in these tiles, params " + vstr(t.params)); bad = true; return false; }
        seen.insert(y); return true; }, 4 * pa.size() + 100);
    } catch (TooBig &) { o.fail(mon, nm + " links more pairs after tiling than before (" + std::to_string(pa.size()) + "), params " + vstr(t.params)); return; }
    if (bad) return;
    if (seen.size() != pa.size() || n != pa.size()) { o.fail(mon, nm + " links " + std::to_string(seen.size()) + " pairs (" + std::to_string(n) + " in tiles) after tiling, " + std::to_string(pa.size()) + " before, params " + vstr(t.params)); return; }
    o.add("tracked", pa.size());
  }
}
void mon_depinfo(const Snap &n, const Trace &t, Out &o, const char *mon, bool exact) {
  isl_ctx *ctx = exact ? isl_ctx_alloc() : nullptr;
  for (size_t di = 0; di < n.dep.size(); di++) {
    const DepSnap &d = n.dep[di]; if (d.type == PLUTO_DEP_RAR || d.satvec.empty()) continue;
    string nm = "dependence " + std::to_string(di) + " S_" + std::to_string(d.src) + "->S_" + std::to_string(d.dest);
    vector<Vec> lr; for (int l = 0; l < n.nh; l++) lr.push_back(levelrow(n, d, l));
    Sys y = sys_fix_suffix(d.poly, t.params); bool dead = false; size_t np = 0;
    auto ev = [&](const Vec &r, const Vec &x) { i64 v = r.back(); for (size_t k = 0; k < x.size(); k++) v += r[k] * x[k]; for (int k = 0; k < n.npar; k++) v += r[d.srcdim + d.destdim + k] * t.params[k]; return v; };
    try {
      sys_points(y, [&](const Vec &x) {
        np++; bool zero = true;
        for (int l = 0; l < n.nh && !dead; l++) {
          i64 v = ev(lr[l], x); char c = d.dirvec[l]; string at = " at level " + std::to_string(l + 1) + " point " + vstr(x);
          if (c == DEP_ZERO && v != 0) { o.fail(mon, nm + " direction 0 but distance " + std::to_string(v) + at); dead = true; }
          if (c == DEP_PLUS && v < 0) { o.fail(mon, nm + " direction + but distance " + std::to_string(v) + at); dead = true; }
          if (c == DEP_MINUS && v > 0) { o.fail(mon, nm + " direction - but distance " + std::to_string(v) + at); dead = true; }
          if (d.satisfied && l == d.level && v < 1) { o.fail(mon, nm + " reported satisfied" + at + " but distance " + std::to_string(v)); dead = true; }
          if (!d.satvec[l] && zero && v != 0) { o.fail(mon, nm + " not in the satisfaction vector" + at + " but distance " + std::to_string(v) + " with zero outer distances"); dead = true; }
          if (v) zero = false;
        }
        return !dead;
      }, 4000);
      o.add("deppoints", np);
    } catch (TooBig &) { o.add("deps_capped"); }
    o.add("depclaims");
    if (exact && !dead && d.poly.n <= 9) {
      isl_ctx_reset_operations(ctx); isl_ctx_set_max_operations(ctx, 400000); isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
      auto test = [&](const Vec &row, int sgn, i64 minus) { Sys q = d.xpoly; Row r; r.eq = false; for (i64 v : row) r.c.push_back(sgn * v); r.c.back() -= minus; q.rows.push_back(r); return sys_nonempty_isl(ctx, q); };
      bool any = sys_nonempty_isl(ctx, d.xpoly);
      for (int l = 0; l < n.nh && any; l++) {
        bool pos = test(lr[l], 1, 1), neg = test(lr[l], -1, 1);
        if (isl_ctx_last_error(ctx) != isl_error_none) { isl_ctx_reset_error(ctx); o.add("exact_quota"); break; }
        char want = pos ? (neg ? DEP_STAR : DEP_PLUS) : (neg ? DEP_MINUS : DEP_ZERO);
        if (d.dirvec[l] != want) { o.fail(mon, nm + " direction at level " + std::to_string(l + 1) + " is " + d.dirvec[l] + ", the polyhedron says " + want); break; }
        bool sat = !test(lr[l], -1, 0);
        if (isl_ctx_last_error(ctx) != isl_error_none) { isl_ctx_reset_error(ctx); o.add("exact_quota"); break; }
        if (d.satisfied && l < d.level && sat) { o.fail(mon, nm + " is satisfied already at level " + std::to_string(l + 1) + ", reported " + std::to_string(d.level + 1)); break; }
        if (!d.satisfied && sat) { o.fail(mon, nm + " is satisfied at level " + std::to_string(l + 1) + ", reported unsatisfied"); break; }
        if (d.satisfied && l == d.level && !sat) { o.fail(mon, nm + " reported satisfied at level " + std::to_string(l + 1) + ", the polyhedron has a point that is not"); break; }
        o.add("exactclaims");
      }
    }
  }
  if (ctx) isl_ctx_free(ctx);
}
static i64 fl(i64 a, i64 b) { i64 q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) q--; return q; }
// Expected geometry: every tiled dimension h gets tile coordinate floor(h/size).
void mon_tiles(const Case &c, const Snap &a, const Snap &f, const Scop &s, const Trace &t, Out &o, const char *mon) {
  auto opt = [&](const char *k, int dv) { auto q = c.opt.find(k); return q == c.opt.end() ? dv : q->second; };
  Times ta, tf; vector<Vec> ext; Out scratch;
  if (!times_from_snap(a, s, t, ta, scratch, mon)) return;
  if (!times_from_snap(f, s, t, tf, o, mon, &ext)) return;
  vector<i64> file; { std::istringstream in(c.tilesizes); i64 v; while (in >> v) file.push_back(v); }
  // bands that must be tiled: the permutable bands reported, plus innermost parallel loops under none
  struct B { unsigned d, w; vector<int> st; }; vector<B> bs; for (auto &b : a.bands) bs.push_back({b.depth, b.width, b.stmts});
  int levels = opt("second_level_tile", 0) ? 2 : 1;
  // sizes by band: file values go to the loop dimensions in order, then second-level ratios
  auto isloop = [&](int st, unsigned d) { const StSnap &q = a.st[st]; for (int k = 0; k < q.dim; k++) if (q.trans[d][k]) return true; return false; };
  auto anyloop = [&](size_t bi, unsigned d) { for (int x : bs[bi].st) if (isloop(x, d)) return true; return false; };
  std::map<int, vector<size_t>> bandof; for (size_t k = 0; k < bs.size(); k++) for (int x : bs[k].st) bandof[x].push_back(k);
  for (auto &b : bandof) if (b.second.size() > 1) { o.add("tiles_multiband"); return; }
  bool model = opt("find_tile_sizes", 0); std::map<int, std::map<unsigned, i64>> chosen;
  for (size_t st = 0; st < s.st.size(); st++) {
    if (a.st[st].dim == 0) continue;
    int sn = f.st[st].dim - f.st[st].dim_orig;
    size_t bi = 0; vector<i64> sz, ra; unsigned D = 0, W = 0; bool one = false;
    if (bandof.count((int)st)) { bi = bandof[(int)st][0]; D = bs[bi].d; W = bs[bi].w; }
    else { if (!sn) continue; // single innermost parallel loop
      // find it: the innermost loop depth of this statement
      for (unsigned d = 0; d < (unsigned)a.nh; d++) if (isloop((int)st, d)) D = d; W = 1; one = true; }
    { size_t p = 0; bool enough = true;
      for (unsigned k = 0; k < W; k++) { bool lp = false; if (one) lp = true; else for (int x : bs[bi].st) if (isloop(x, D + k)) lp = true;
        if (lp) { if (p < file.size()) sz.push_back(file[p++]); else { enough = false; sz.push_back(32); } } else sz.push_back(42); }
      if (!file.empty() && !enough) { o.add("tiles_shortfile"); return; }
      bool enough2 = enough; for (unsigned k = 0; k < W; k++) { if (p < file.size()) ra.push_back(file[p++]); else enough2 = false; }
      if (!enough2 && p > 0 && ra.size() > 0 && levels == 2) { o.add("tiles_shortfile"); return; }
      if (!enough2) ra.assign(W, 8);
    }
    vector<unsigned> td; for (unsigned k = 0; k < W; k++) if (isloop((int)st, D + k)) td.push_back(k);
    if (model && sn == (int)td.size()) { // sizes are the library's own choice: read them off the tiled domain
      auto &ms = chosen[one ? 1000 + (int)st : (int)bi];
      for (int q = 0; q < sn; q++) {
        i64 v = 0; bool bad = false; for (auto &d : f.st[st].dom) for (auto &w : d.rows) if (w.c[q]) { i64 x = std::llabs(w.c[q]); if (v && v != x) bad = true; v = x; }
        if (bad || v < 1) { o.fail(mon, "tile iterator " + std::to_string(q) + " of S_" + std::to_string(st) + (v ? " is bound with different sizes" : " is unbounded")); return; }
        auto it = ms.find(td[q]); if (it != ms.end() && it->second != v) o.fail(mon, "dimension " + std::to_string(td[q]) + " of a band is tiled by " + std::to_string(it->second) + " and by " + std::to_string(v)); ms[td[q]] = v; sz[td[q]] = v; o.add("model_sizes");
        i64 uf = opt("ufactor", 8); if (v != 32 && v != 512 && (v < uf || v % uf)) o.fail(mon, "tile size " + std::to_string(v) + " is no multiple of the unroll factor " + std::to_string(uf));
        if (v != 32 && v != 512) o.add("model_sizes_reuse");
      }
    }
    // a loop shared by statements that sit at different constant dates above it is none the library itself makes: what dominates it is ambiguous
    if (c.given && !one) { bool mixed = false; for (unsigned d = 0; d <= D && !mixed; d++) { std::set<i64> v; for (int x : bs[bi].st) if (!isloop(x, d)) v.insert(a.st[x].trans[d].back()); if (v.size() > 1) mixed = true; } if (mixed) { o.add("tiles_mixed"); continue; } }
    if ((int)td.size() * levels != sn) { o.fail(mon, "S_" + std::to_string(st) + " has " + std::to_string(sn) + " tile iterators, expected " + std::to_string(td.size() * levels) + " for a band of " + std::to_string(td.size()) + " loops at " + std::to_string(levels) + " level(s)"); continue; }
    size_t bad = 0, distinct = 0; std::set<Vec> tiles;
    for (size_t i = 0; i < t.inst.size(); i++) {
      if (t.inst[i].s != (int)st) continue;
      Vec l1, l2, full1, full2;
      for (unsigned k = 0; k < W; k++) { i64 h = ta[i][D + k]; if (isloop((int)st, D + k)) { i64 z = fl(h, sz[k]); l1.push_back(z); l2.push_back(fl(z, ra[k])); full1.push_back(z); full2.push_back(fl(z, ra[k])); } else if (!one && anyloop(bi, D + k)) { i64 z = fl(h, sz[k]); full1.push_back(z); full2.push_back(fl(z, ra[k])); } else { full1.push_back(h); full2.push_back(h); } }
      Vec want; if (levels == 2) want = l2; want.insert(want.end(), l1.begin(), l1.end());
      Vec got(ext[i].begin(), ext[i].begin() + sn);
      if (got != want && bad++ < 2) o.fail(mon, inst_str(t, i) + " with hyperplane values " + vstr(ta[i]) + " lies in tile " + vstr(got) + ", expected " + vstr(want));
      tiles.insert(got);
      // order: outer dims, tile dims, then the untiled dims (permutations and wavefronts judged elsewhere)
      if (!opt("parallel", 0) && !opt("intratileopt", 0) && !f.diamond) {
        Vec e(ta[i].begin(), ta[i].begin() + D); if (levels == 2) e.insert(e.end(), full2.begin(), full2.end()); e.insert(e.end(), full1.begin(), full1.end()); e.insert(e.end(), ta[i].begin() + D, ta[i].end());
        while (e.size() < tf[i].size()) e.push_back(0);
        if (e != tf[i] && bad++ < 2) o.fail(mon, inst_str(t, i) + " has date " + vstr(tf[i]) + ", expected " + vstr(e) + " (untiled " + vstr(ta[i]) + ")");
      }
      distinct++;
    }
    o.add("tiled_stmts"); o.add("tiled_points", distinct); o.add("tiles", tiles.size()); if (tiles.size() > 1) o.add("stmts_multi_tile");
  }
}
// The legality condition over all parameter values at once, by isl.
void mon_param_legal(const Scop &s, const Case &c, RunRes &r, Out &o, const char *mon) {
  isl_ctx *ctx = r.ctx; isl_ctx_reset_operations(ctx); isl_ctx_set_max_operations(ctx, 3000000); isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
  isl_union_map *D = dep_relation(ctx, s, c); isl_union_set *dom = isl_union_set_read_from_str(ctx, isl_domains(s, ctxcond(c, s)).c_str());
  isl_union_map *S = isl_union_map_intersect_domain(isl_union_map_copy(r.sched), dom);
  // deps whose image is lexicographically >= : must be empty
  isl_union_map *ge = isl_union_map_lex_ge_union_map(isl_union_map_copy(S), S);
  isl_union_map *bad = isl_union_map_intersect(D, ge);
  isl_bool e = isl_union_map_is_empty(bad);
  if (e == isl_bool_true) o.add("param_proved");
  else if (e == isl_bool_false && isl_ctx_last_error(ctx) == isl_error_none) { char *t = isl_union_map_to_str(bad); o.fail(mon, string("dependences not respected for some parameter values: ") + string(t).substr(0, 300)); free(t); }
  else o.add("param_quota");
  isl_union_map_free(bad); isl_ctx_reset_error(ctx); isl_ctx_set_max_operations(ctx, 0);
}

// ------------------------------------------------------------ further monitors
bool domains_nonempty(const Case &c, const Scop &s) {
  isl_ctx *ctx = isl_ctx_alloc(); isl_union_set *d = isl_union_set_read_from_str(ctx, isl_domains(s, ctxcond(c, s)).c_str());
  bool ok = isl_union_set_n_set(d) == (int)s.st.size();
  isl_union_set_foreach_set(d, [](isl_set *x, void *u) -> isl_stat { if (isl_set_is_empty(x) != isl_bool_false) *(bool *)u = false; isl_set_free(x); return isl_stat_ok; }, &ok);
  isl_union_set_free(d); isl_ctx_free(ctx); return ok;
}
// Every instance of every statement is scheduled, nothing else is invented, in
// one common space.
void mon_domain(const Scop &s, const Case &c, RunRes &r, Out &o, const char *mon) {
  isl_ctx *ctx = r.ctx; isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE); isl_ctx_reset_operations(ctx); isl_ctx_set_max_operations(ctx, 2000000);
  isl_union_set *dom = isl_union_set_read_from_str(ctx, isl_domains(s, ctxcond(c, s)).c_str()), *sd = isl_union_map_domain(isl_union_map_copy(r.sched));
  isl_bool cov = isl_union_set_is_subset(dom, sd);
  if (cov == isl_bool_false && isl_ctx_last_error(ctx) == isl_error_none) o.fail(mon, "the schedule does not cover every statement instance"); else if (cov == isl_bool_true) o.add("domain_covered");
  if (c.api == "schedule") { isl_bool e = isl_union_set_is_subset(sd, dom); if (e == isl_bool_false && isl_ctx_last_error(ctx) == isl_error_none) o.fail(mon, "the schedule dates instances outside the given domains"); else if (e == isl_bool_true) o.add("domain_equal"); }
  isl_union_map *S = isl_union_map_intersect_domain(isl_union_map_copy(r.sched), dom); isl_bool sv = isl_union_map_is_single_valued(S);
  if (sv == isl_bool_false && isl_ctx_last_error(ctx) == isl_error_none) o.fail(mon, "some statement instance has more than one date for some parameter values"); else if (sv == isl_bool_true) o.add("single_valued");
  struct A { std::set<int> arity; std::set<string> names; bool bad = false; const Scop *s; std::set<string> pars; } a; a.s = &s;
  isl_union_map_foreach_map(r.sched, [](isl_map *m, void *u) -> isl_stat { A *a = (A *)u; a->arity.insert(isl_map_dim(m, isl_dim_out)); const char *n = isl_map_get_tuple_name(m, isl_dim_in); string nm = n ? n : "?"; a->names.insert(nm);
    size_t k = nm.size() > 2 ? atoi(nm.c_str() + 2) : 0; if (k >= a->s->st.size() || isl_map_dim(m, isl_dim_in) != a->s->st[k].dim) a->bad = true;
    for (int i = 0; i < isl_map_dim(m, isl_dim_param); i++) { const char *q = isl_map_get_dim_name(m, isl_dim_param, i); a->pars.insert(q ? q : "?"); } isl_map_free(m); return isl_stat_ok; }, &a);
  if (a.bad) o.fail(mon, "a statement of the schedule is not one of the program's, or has another dimensionality");
  if (a.names.size() != s.st.size()) o.fail(mon, std::to_string(a.names.size()) + " statements scheduled, the program has " + std::to_string(s.st.size()));
  if (a.arity.size() > 1) o.fail(mon, "statements are mapped to spaces of different dimensionality");
  for (auto &p : a.pars) if (std::find(s.params.begin(), s.params.end(), p) == s.params.end()) o.fail(mon, "the schedule uses an unknown parameter " + p);
  isl_union_set_free(sd); isl_union_map_free(S); isl_ctx_reset_error(ctx); isl_ctx_set_max_operations(ctx, 0);
}
namespace {
// exact emptiness tests on a dependence, within a quota of isl operations
struct Exact {
  isl_ctx *ctx; Exact() { ctx = isl_ctx_alloc(); isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE); } ~Exact() { isl_ctx_free(ctx); }
  void start() { isl_ctx_reset_operations(ctx); isl_ctx_set_max_operations(ctx, 400000); isl_ctx_reset_error(ctx); }
  bool over() { return isl_ctx_last_error(ctx) != isl_error_none; }
  bool some(const Sys &s) { return sys_nonempty_isl(ctx, s); }
  static void add(Sys &q, const Vec &row, int sgn, i64 minus, bool eq) { Row r; r.eq = eq; for (i64 v : row) r.c.push_back(sgn * v); r.c.back() -= minus; q.rows.push_back(r); }
};
}
// Can the known finding about statements sunk under a tiled band show at all?
bool sunk_possible(const Snap &a) {
  Exact x;
  auto test = [&](unsigned depth, const vector<int> &st) {
    std::set<int> in(st.begin(), st.end());
    for (auto &d : a.dep) { if (d.type == PLUTO_DEP_RAR || (in.count(d.src) > 0) == (in.count(d.dest) > 0)) continue;
      x.start(); Sys q = d.poly; for (unsigned k = 0; k < depth; k++) Exact::add(q, levelrow(a, d, k), 1, 0, true); if (x.some(q) || x.over()) return true; }
    return false;
  };
  for (auto &b : a.bands) if (test(b.depth, b.stmts)) return true;
  for (auto &l : a.parloops) if (test(l.depth, l.stmts)) return true;
  return false;
}
// an outer dimension is constant for all statements of both, with different values
static bool apart(const Snap &n, const vector<int> &a, const vector<int> &b, unsigned upto) {
  for (unsigned k = 0; k <= upto; k++) { auto cst = [&](const vector<int> &w, Vec &v) { for (size_t i = 0; i < w.size(); i++) { const StSnap &q = n.st[w[i]]; for (int j = 0; j < q.dim; j++) if (q.trans[k][j]) return false; Vec z(q.trans[k].begin() + q.dim, q.trans[k].end()); if (i && z != v) return false; v = z; } return true; };
    Vec x, y; if (cst(a, x) && cst(b, y) && x.back() != y.back()) return true; }
  return false;
}
// Every dimension a statement iterates along is one reported loop, shared by the statements with equal outer dates.
void mon_loops(const Snap &n, const Trace &t, const Times &tm, Out &o, const char *mon) {
  vector<vector<int>> of(n.st.size(), vector<int>(n.nh, -1));
  for (size_t i = 0; i < n.loops.size(); i++) for (int s : n.loops[i].stmts) {
    if (!isloop_at(n, s, n.loops[i].depth)) { o.fail(mon, "S_" + std::to_string(s) + " is listed under a loop t" + std::to_string(n.loops[i].depth + 1) + " along which it does not iterate"); return; }
    int &w = of[s][n.loops[i].depth]; if (w >= 0) { o.fail(mon, "S_" + std::to_string(s) + " lies in two loops t" + std::to_string(n.loops[i].depth + 1)); return; } w = (int)i; }
  for (size_t s = 0; s < n.st.size(); s++) for (int d = 0; d < n.nh; d++) { if (isloop_at(n, s, d) && of[s][d] < 0) { o.fail(mon, "S_" + std::to_string(s) + " iterates along t" + std::to_string(d + 1) + " but no loop is reported there"); return; } o.add("loopclaims"); }
  for (int d = 0; d < n.nh; d++) { std::map<Vec, std::pair<int, int>> rep; for (size_t i = 0; i < tm.size(); i++) { int s = t.inst[i].s; if (of[s][d] < 0) continue; Vec k(tm[i].begin(), tm[i].begin() + d); auto r = rep.insert({k, {of[s][d], (int)i}}); if (r.first->second.first != of[s][d]) { o.fail(mon, inst_str(t, r.first->second.second) + " and " + inst_str(t, i) + " have equal outer dates " + vstr(k) + " but lie in different loops t" + std::to_string(d + 1)); return; } } }
}
void mon_parallel_exact(const Snap &n, Out &o, const char *mon) {
  Exact x;
  for (auto &l : n.loops) {
    if (l.parallel) continue;
    std::set<int> in(l.stmts.begin(), l.stmts.end()); bool carried = false, unsure = false; x.start();
    for (auto &d : n.dep) {
      if (d.type == PLUTO_DEP_RAR || !in.count(d.src) || !in.count(d.dest)) continue;
      bool outer = false; for (unsigned k = 0; k < l.depth && !outer; k++) { Sys q = d.xpoly; Exact::add(q, levelrow(n, d, k), -1, 0, false); if (!x.some(q) && !x.over()) outer = true; }
      if (outer) continue; // every pair already ordered by an outer dimension
      const Sys &q = d.xpoly; Vec row = levelrow(n, d, l.depth);
      for (int sg : {1, -1}) { Sys y = q; Exact::add(y, row, sg, 1, false); if (x.some(y)) carried = true; }
      if (x.over()) { unsure = true; break; } if (carried) break;
    }
    if (unsure) { o.add("exact_quota"); continue; }
    o.add("seqclaims"); if (!carried) o.fail(mon, "loop t" + std::to_string(l.depth + 1) + " over " + std::to_string(l.stmts.size()) + " statement(s) is reported sequential, but no dependence left by the outer dimensions has a component along it");
  }
  // the outermost parallel loops: none nested in another, and every parallel loop in or under one of them
  auto under = [&](const LoopSnap &a, const LoopSnap &b) { // a strictly inside b
    if (b.depth >= a.depth) return false; std::set<int> sb(b.stmts.begin(), b.stmts.end()); for (int s : a.stmts) if (!sb.count(s)) return false; return true; };
  for (auto &l : n.parloops) { bool ok = false; for (auto &d : n.domloops) if ((d.depth == l.depth && d.stmts == l.stmts) || (d.depth < l.depth && !apart(n, l.stmts, d.stmts, d.depth))) ok = true; if (!ok) o.fail(mon, "parallel loop t" + std::to_string(l.depth + 1) + " is not covered by the outermost parallel loops"); }
  for (auto &a : n.domloops) for (auto &b : n.domloops) if (under(a, b)) o.fail(mon, "an outermost parallel loop lies inside another");
}
void mon_band_maximal(const Snap &n, Out &o, const char *mon) {
  Exact x;
  for (auto &l : n.loops) {
    std::set<int> in(l.stmts.begin(), l.stmts.end()); x.start(); unsigned w = 0; bool unsure = false; vector<const DepSnap *> ds;
    for (auto &d : n.dep) if (d.type != PLUTO_DEP_RAR && in.count(d.src) && in.count(d.dest)) {
      // satisfied outside for all its points?
      bool outer = false; for (unsigned k = 0; k < l.depth && !outer; k++) { Sys q = d.poly; Exact::add(q, levelrow(n, d, k), -1, 0, false); if (!x.some(q) && !x.over()) outer = true; }
      if (!outer) ds.push_back(&d); }
    for (unsigned k = l.depth; k < (unsigned)n.nh && !unsure; k++) {
      bool ok = true; for (auto *d : ds) { Sys q = d->poly; Exact::add(q, levelrow(n, *d, k), -1, 1, false); if (x.some(q)) { ok = false; break; } if (x.over()) { unsure = true; break; } }
      if (!ok || unsure) break;
      bool lp = false; for (int s : l.stmts) for (int j = 0; j < n.st[s].dim; j++) if (n.st[s].trans[k][j]) lp = true; if (lp) w = k - l.depth + 1;
    }
    if (x.over()) { o.add("exact_quota"); continue; }
    o.add("bandstarts"); if (w < 2) continue;
    o.add("bands_expected"); bool cov = false;
    for (auto &b : n.bands) { std::set<int> sb(b.stmts.begin(), b.stmts.end()); bool sup = std::includes(sb.begin(), sb.end(), in.begin(), in.end()); if (sup && b.depth <= l.depth && (b.depth < l.depth || b.width >= w)) cov = true; }
    if (!cov) o.fail(mon, "t" + std::to_string(l.depth + 1) + "..t" + std::to_string(l.depth + w) + " is permutable, but no reported outermost band covers it");
  }
  for (auto &b : n.bands) { if (b.width < 2) o.fail(mon, "trivial band reported"); bool ok = false; for (auto &l : n.loops) if (l.depth == b.depth && l.stmts == b.stmts) ok = true; if (!ok) o.fail(mon, "a band does not start at a loop"); }
  for (auto *B : {&n.bands, &n.ibands, &n.pbands}) for (auto &b : *B) { bool lp = false; for (int s : b.stmts) lp |= isloop_at(n, s, b.depth + b.width - 1); if (!lp) o.fail(mon, "a band ends at a dimension that is no loop"); }
}
static void remap_one(const Remap &m, const Snap &f, const Scop &s, const Trace &t, const Times &tm, const vector<Vec> &ext, Out &o, const char *mon) {
  if (m.mat.size() != s.st.size()) { o.fail(mon, "remapping covers " + std::to_string(m.mat.size()) + " statements"); return; }
  size_t bad = 0;
  for (size_t i = 0; i < t.inst.size() && bad < 2; i++) {
    int st = t.inst[i].s; Vec in = tm[i]; in.insert(in.end(), t.params.begin(), t.params.end()); in.push_back(1);
    Vec want = ext[i]; want.insert(want.end(), t.params.begin(), t.params.end()); want.push_back(1);
    const auto &M = m.mat[st];
    if (M.size() != want.size()) { o.fail(mon, "S_" + std::to_string(st) + " remapping has " + std::to_string(M.size()) + " rows, expected " + std::to_string(want.size())); return; }
    for (size_t k = 0; k < M.size(); k++) {
      if (M[k].size() != in.size()) { o.fail(mon, "S_" + std::to_string(st) + " remapping has " + std::to_string(M[k].size()) + " columns, expected " + std::to_string(in.size())); return; }
      i64 v = 0; for (size_t j = 0; j < in.size(); j++) v += M[k][j] * in[j]; i64 d = m.div[st][k];
      if (d == 0 || v % d != 0 || v / d != want[k]) { o.fail(mon, inst_str(t, i) + " date " + vstr(tm[i]) + ": remapped coordinate " + std::to_string(k) + " is " + std::to_string(v) + "/" + std::to_string(d) + ", expected " + std::to_string(want[k])); bad++; break; }
    }
    o.add("remapped");
  }
}
void mon_remap(const Case &c, const Scop &s, const Trace &t, RunRes &r, Out &o, const char *mon) {
  Times tm; vector<Vec> ext; if (!r.hasremap) { o.fail(mon, "a schedule but no remapping was returned"); return; }
  if (!times_from_snap(r.f, s, t, tm, o, mon, &ext)) return;
  Times ts; if (times_from_map(r.sched, s, t, ts, o, mon)) mon_same(t, ts, tm, o, mon);
  remap_one(r.remap, r.f, s, t, tm, ext, o, mon);
  Case c2 = c; c2.api = "remap"; RunRes r2; RunIn in{c2, s}; run_pluto(in, r2);
  if (!r2.hasremap) o.fail(mon, "no remapping from the remapping interface");
  else { Times tm2; vector<Vec> e2; if (times_from_snap(r2.f, s, t, tm2, o, mon, &e2)) remap_one(r2.remap, r2.f, s, t, tm2, e2, o, mon); }
  run_free(r2);
}
static string remap_text(const Remap &m) { std::ostringstream o; for (size_t i = 0; i < m.mat.size(); i++) { for (size_t k = 0; k < m.mat[i].size(); k++) o << vstr(m.mat[i][k]) << "/" << m.div[i][k] << ";"; o << "|"; } return o.str(); }
void judge_strings(const Case &c, const Scop &s, const Trace &t, RunRes &r, Out &o) {
  Case cs = c; cs.api = "str"; RunRes q; RunIn in{cs, s}; run_pluto(in, q);
  if (!q.ok) { o.fail("strings", "the string interface returned no schedule where the native one did"); run_free(q); return; }
  Times a, b; bool A = times_from_map(r.sched, s, t, a, o, "total"), B = times_from_map(q.sched, s, t, b, o, "strings");
  if (A && B) for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) { o.fail("strings", inst_str(t, i) + " has date " + vstr(a[i]) + " natively, " + vstr(b[i]) + " through strings"); break; }
  string want; if (c.opt.at("parallel")) { want = std::to_string(q.f.domloops.size()); for (auto &l : q.f.domloops) want += "," + std::to_string(l.depth + 1); }
  if (want != q.ploops) o.fail("ploops", "parallel loop list is '" + q.ploops + "', the transformed program has '" + want + "'");
  if (r.f.domloops.size() != q.f.domloops.size()) o.fail("ploops", "different parallel loops natively and through strings");
  if (!q.hasremap) o.fail("remap", "no remapping returned by the string interface");
  Case cr = c; cr.api = "remap"; RunRes m; RunIn in3{cr, s}; run_pluto(in3, m);
  if (m.hasremap != q.hasremap || remap_text(m.remap) != remap_text(q.remap)) o.fail("remap", "the two string interfaces return different remappings");
  o.add("string_runs"); run_free(q); run_free(m);
}
string snap_text(const Snap &n) {
  std::ostringstream o; o << n.nh << " " << n.npar << " " << n.diamond << "\n";
  for (auto &s : n.st) { o << s.dim << " " << s.dim_orig << ":"; for (size_t k = 0; k < s.trans.size(); k++) o << vstr(s.trans[k]) << s.hyp[k]; for (auto &d : s.dom) { o << "{"; for (auto &r : d.rows) o << vstr(r.c) << r.eq; o << "}"; } o << "\n"; }
  for (auto &d : n.dep) { o << d.src << ">" << d.dest << " " << d.type << d.satisfied << d.level << " "; if (d.satisfied || !d.dirvec.empty()) o << d.dirvec; for (int x : d.satvec) o << x; o << "\n"; }
  for (auto &l : n.loops) { o << "L" << l.depth << l.parallel; for (int s : l.stmts) o << "," << s; o << "\n"; }
  for (auto &l : n.domloops) { o << "D" << l.depth; for (int s : l.stmts) o << "," << s; o << "\n"; }
  for (auto &b : n.bands) { o << "B" << b.depth << "+" << b.width; for (int s : b.stmts) o << "," << s; o << "\n"; }
  return o.str();
}
static string firstdiff(const string &a, const string &b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; size_t f = k > 30 ? k - 30 : 0; return "'" + a.substr(f, 80) + "' vs '" + b.substr(f, 80) + "'"; }
void judge_deterministic(const Case &c, const Scop &s, const Trace &t, Out &o) {
  auto once = [&](const Case &k, const Scop &sc, PlutoContext **keep = nullptr) { RunRes r; RunIn in{k, sc}; in.keep = keep; run_pluto(in, r); string x = r.ok ? "" : "NULL"; if (r.sched) { char *q = isl_union_map_to_str(r.sched); x = q; free(q); } x += "\n" + snap_text(r.a) + snap_text(r.f) + r.ploops + remap_text(r.remap); run_free(r); return x; };
  // the second process has a past: programs with far reuse, and one like this
  if (getenv("MON_HISTORY")) {
    for (const char *p : {"params N; for i=0..N-1 a[i]=x[i]; for j=0..N-1 b[j]=a[j+12];", "params N,M; for i=0..N+23 for j=3..M-5 a[i][j]=a[i-1][j+7],a[i-3][j-9];"}) { Case h; h.prog = p; h.opt = c.opt; h.pval = {{"N", 5}, {"M", 5}}; for (auto &k : {"glpk", "lp", "dfp", "flic"}) h.opt.erase(k); once(h, case_scop(h)); o.add("past_runs"); }
    Rng r(std::hash<string>()(c.prog)); Case h = gen_case("P12", r.next() % 100000, r.in(0, 4000)); h.tilesizes = c.tilesizes; h.given = 0; h.opt["silent"] = 1; h.opt["debug"] = h.opt["moredebug"] = 0; for (auto &k : {"dfp", "flic"}) h.opt.erase(k); once(h, case_scop(h)); o.add("past_runs");
  }
  string first = once(c, s); o.shapes.insert(std::to_string(std::hash<string>()(first))); o.add("instances", t.inst.size());
  auto cmp = [&](const string &x, const char *what) { o.add("reruns"); if (x != first) o.fail("same", string("another result ") + what + ": " + firstdiff(first, x)); };
  cmp(once(c, s), "on the second identical call");
  Case other; other.prog = "params N; for i=0..N-1 for j=0..N-1 { C[i][j]=; for k=0..N-1 C[i][j] = C[i][j],A[i][k],B[k][j]; }"; other.opt = c.opt; other.opt["tile"] = 1; other.opt["parallel"] = 1; other.opt["fuse"] = 1; for (auto &k : {"glpk", "lp", "dfp", "flic"}) other.opt.erase(k);
  Scop os = case_scop(other); once(other, os); cmp(once(c, s), "after another program was transformed");
  { PlutoContext *pc = nullptr; cmp(once(c, s, &pc), "in a context of its own"); cmp(once(c, s, &pc), "on the second call in one context"); Case k = c; k.prog = other.prog; once(k, case_scop(k), &pc); cmp(once(c, s, &pc), "after another program was transformed in the same context"); pluto_context_free(pc); }
  Case d = c; d.opt["debug"] = 1; cmp(once(d, s), "with debug output");
  Case m = c; m.opt["debug"] = 1; m.opt["moredebug"] = 1; cmp(once(m, s), "with more debug output");
  Case l = c; l.opt["silent"] = 0; cmp(once(l, s), "with normal output");
}

// ------------------------------------------------------------ memory
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
void judge_memory(const Case &c, const Scop &s, Out &o) {
  size_t live[4] = {0, 0, 0, 0}; string res;
  for (int k = 0; k < 4; k++) {
    { RunRes r; RunIn in{c, s}; in.snap = k == 0; run_pluto(in, r); if (k == 0) { res = r.sched ? "S" : "NULL"; for (auto &q : r.f.st) { for (auto &t : q.trans) res += vstr(t); res += "|"; } o.add(r.ok ? "runs_ok" : "runs_failed"); }
      if (r.ctx) isl_ctx_reset_operations(r.ctx); run_free(r); }
    o.add("runs"); if (&__sanitizer_get_current_allocated_bytes) live[k] = __sanitizer_get_current_allocated_bytes();
  }
  o.shapes.insert(std::to_string(std::hash<string>()(res)));
  // the first runs may fill caches; after that, nothing may stay behind
  if (live[2] > live[1] && live[3] > live[2]) o.fail("leak", std::to_string(live[3] - live[2]) + " bytes stay allocated after a call");
  if (getenv("VERIF_LSAN") && &__lsan_do_recoverable_leak_check) __lsan_do_recoverable_leak_check(); // for a human
  o.add("heap_measured", 3);
}

// ------------------------------------------------------------ threads
static string result_text(const Case &k, const Scop &sc) {
  RunRes r; RunIn in{k, sc}; run_pluto(in, r); string x = r.ok ? "" : "NULL";
  if (r.sched) { char *q = isl_union_map_to_str(r.sched); x = q; free(q); }
  x += "\n" + snap_text(r.a) + snap_text(r.f) + r.ploops + remap_text(r.remap); run_free(r); return x;
}
// The case and three more (drawn from its text) run at once, each thread with
// its own contexts; each must give what it gives alone.
void judge_threads(const Case &c, Out &o) {
  vector<Case> cs{c}; Rng r(std::hash<string>()(c.prog)); 
  for (int k = 1; k < 4; k++) { Case d = gen_case("P12", r.next() % 100000, r.in(0, 4000)); d.tilesizes = c.tilesizes; d.opt["silent"] = 1; d.opt["debug"] = d.opt["moredebug"] = 0; cs.push_back(r.pct(30) ? c : d); }
  vector<Scop> sc; for (auto &k : cs) sc.push_back(case_scop(k));
  // every other case starts its threads in a process that has done nothing yet
  bool cold = r.pct(50); vector<string> alone; auto all = [&] { for (size_t k = 0; k < cs.size(); k++) alone.push_back(result_text(cs[k], sc[k])); };
  pluto_verif_event = on_event; if (!cold) all(); else o.add("cold_starts");
  const int rounds = 3; vector<vector<string>> got(cs.size()); g_conc = true;
  std::atomic<int> go{0}; vector<std::thread> th;
  for (size_t k = 0; k < cs.size(); k++) th.emplace_back([&, k] { go++; while (go.load() < (int)cs.size()) std::this_thread::yield(); for (int q = 0; q < rounds; q++) { g_inside.fetch_add(1, std::memory_order_relaxed); got[k].push_back(result_text(cs[(k + q) % cs.size()], sc[(k + q) % cs.size()])); g_inside.fetch_sub(1, std::memory_order_relaxed); } });
  for (auto &t : th) t.join();
  g_conc = false; if (cold) all(); o.add("overlapped_events", g_overlap.load()); for (int q = 0; q < 9; q++) if (g_pairs.load() >> q & 1) o.add("phase_pair_" + std::to_string(q));
  for (size_t k = 0; k < cs.size(); k++) for (int q = 0; q < rounds; q++) { o.add("concurrent_runs"); if (got[k][q] != alone[(k + q) % cs.size()]) o.fail("same", "another result when other threads work on other programs: " + firstdiff(alone[(k + q) % cs.size()], got[k][q])); }
  o.add("interleaved_rounds", rounds); string h; for (auto &a : alone) h += a; o.shapes.insert(std::to_string(std::hash<string>()(h)));
}

// ------------------------------------------------------------ fusion controls
std::set<std::pair<int, int>> dep_edges(const Scop &s, const Case &c) {
  std::set<std::pair<int, int>> e; isl_ctx *ctx = isl_ctx_alloc(); isl_union_map *d = dep_relation(ctx, s, c);
  if (c.ctxmin > 0 && !s.params.empty()) d = isl_union_map_intersect_domain(d, isl_union_set_read_from_str(ctx, isl_domains(s, ctxcond(c, s)).c_str()));
  isl_union_map_foreach_map(d, [](isl_map *m, void *u) -> isl_stat {
    if (!isl_map_is_empty(m)) ((std::set<std::pair<int, int>> *)u)->insert({atoi(isl_map_get_tuple_name(m, isl_dim_in) + 2), atoi(isl_map_get_tuple_name(m, isl_dim_out) + 2)});
    isl_map_free(m); return isl_stat_ok; }, &e);
  isl_union_map_free(d); isl_ctx_free(ctx); return e;
}
static vector<vector<char>> reach(size_t n, const std::set<std::pair<int, int>> &e) {
  vector<vector<char>> r(n, vector<char>(n, 0)); for (auto &x : e) r[x.first][x.second] = 1; for (size_t k = 0; k < n; k++) r[k][k] = 1;
  for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) if (r[i][k]) for (size_t j = 0; j < n; j++) if (r[k][j]) r[i][j] = 1;
  return r;
}
static bool scalar_row(const Snap &a, int s, size_t k, i64 *v) { const Vec &r = a.st[s].trans[k]; for (size_t j = 0; j + 1 < r.size(); j++) if (r[j]) return false; *v = r.back(); return true; }
// The leading dimensions that are constant for every statement.
static size_t scalar_prefix(const Snap &a) { size_t k = 0; for (; k < (size_t)a.nh; k++) { i64 v; for (size_t s = 0; s < a.st.size(); s++) if (!scalar_row(a, s, k, &v)) return k; } return k; }
static bool apart(const Snap &a, int p, int q, size_t upto) { for (size_t k = 0; k < upto; k++) { i64 x, y; if (scalar_row(a, p, k, &x) && scalar_row(a, q, k, &y) && x != y) return true; } return false; }
static string rowsof(const Snap &a, int s) { string x; for (auto &r : a.st[s].trans) x += vstr(r); return x; }
void judge_fusion(const Case &c, const Scop &s, const Trace &t, RunRes &r, Out &o) {
  size_t n = s.st.size(); auto e = dep_edges(s, c); auto R = reach(n, e); auto same = [&](int p, int q) { return R[p][q] && R[q][p]; };
  int fuse = c.opt.at("fuse"); bool tile = c.opt.at("tile");
  // a schedule that gave up (original order restored) answers no request; legality is judged all the same
  size_t pre = scalar_prefix(r.a);
  if (fuse == 0) for (size_t p = 0; p < n; p++) for (size_t q = p + 1; q < n; q++) if (!same(p, q)) { o.add("nofuse_pairs"); if (!apart(r.a, p, q, pre)) o.fail("nofuse", "S_" + std::to_string(p) + " and S_" + std::to_string(q) + " lie in different components, but share the outer loop: " + rowsof(r.a, p) + " and " + rowsof(r.a, q)); }
  bool forced = !c.fst.empty() || !c.precut.empty();
  vector<int> md(n, 0); for (size_t p = 0; p < n; p++) for (size_t q = 0; q < n; q++) if (same(p, q)) md[p] = std::max(md[p], s.st[q].dim);
  if (fuse == 2 && !forced) for (auto &x : e) if (md[x.first] != md[x.second] && !same(x.first, x.second)) { o.add("smartfuse_pairs"); if (!apart(r.a, x.first, x.second, pre)) o.fail("smartfuse", "S_" + std::to_string(x.first) + " and its dependent S_" + std::to_string(x.second) + " have different dimensionality, but share the outer loop"); }
  if (!forced && fuse != 0) {
    bool one = true, samed = true; for (size_t p = 0; p < n; p++) { if (s.st[p].dim < 1 || s.st[p].beta[0] != s.st[0].beta[0]) one = false; if (md[p] != md[0]) samed = false; }
    if (one && (fuse == 1 || samed)) { o.add("onenest"); if (pre != 0) o.fail("fuse", "a nest with a common outer loop was distributed at the outermost level"); }
  }
  if (!c.fst.empty()) {
    std::istringstream in(c.fst); int nc; in >> nc; vector<int> grp(n, -1), wt(n, 0);
    if (nc > (int)n) return;
    for (int k = 0; k < nc; k++) { int m, x, f; in >> m; vector<int> ids; while (m--) { in >> x; ids.push_back(x); grp[x] = k; } in >> f; for (int i : ids) wt[i] = f; }
    o.add("fst_stmts", n);
    for (size_t p = 0; p < n; p++) { i64 v = -1; if (!scalar_row(r.a, p, 0, &v) || v != grp[p]) o.fail("fst", "S_" + std::to_string(p) + " was put in component " + std::to_string(grp[p]) + ", its schedule is " + rowsof(r.a, p)); }
    if (tile) {
      for (size_t p = 0; p < n; p++) if (!wt[p]) { o.add("untiled_stmts"); if (r.f.st[p].dim != r.f.st[p].dim_orig) o.fail("fst", "S_" + std::to_string(p) + " is tiled, though its component is not to be"); }
      for (auto &b : r.a.bands) { bool w = true; for (int p : b.stmts) if (!wt[p]) w = false; if (w) for (int p : b.stmts) { o.add("tiled_stmts"); if (r.f.st[p].dim == r.f.st[p].dim_orig) o.fail("fst", "S_" + std::to_string(p) + " is not tiled, though its component is to be"); } }
    }
  }
  if (c.precut.compare(0, 4, "self") == 0) {
    // complete what a first run found (or the original order), cut off after some rows
    std::istringstream in(c.precut.substr(4)); int orig, k, tl; in >> orig >> k >> tl;
    vector<vector<Vec>> rows(n); size_t np = s.np();
    if (orig) { k = std::min(k, 2 * (int)s.maxdim() + 1); for (size_t p = 0; p < n; p++) for (int j = 0; j < k; j++) { Vec v(s.st[p].dim + np + 1, 0); if (j <= 2 * s.st[p].dim) { if (j % 2) v[j / 2] = 1; else v.back() = s.st[p].beta[j / 2]; } rows[p].push_back(v); } }
    else { k = std::min(k, r.a.nh); for (size_t p = 0; p < n; p++) for (int j = 0; j < k; j++) { Vec v = r.a.st[p].trans[j]; for (size_t q = 0; q < np; q++) if (v[s.st[p].dim + q]) { o.add("precut_param"); return; } if (r.a.st[p].dim != s.st[p].dim) return; rows[p].push_back(v); } }
    if (k == 0) return;
    { FILE *f = fopen(".precut", "w"); fprintf(f, "%zu\n1\n", n); for (size_t p = 0; p < n; p++) { fprintf(f, "%d %zu\n", k, s.st[p].dim + np + 2); for (auto &v : rows[p]) { fprintf(f, "0"); for (i64 x : v) fprintf(f, " %ld", (long)x); fprintf(f, "\n"); } fprintf(f, "0\n%d\n", tl); } fclose(f); }
    RunRes q; RunIn qi{c, s}; run_pluto(qi, q);
    if (!q.ok) { o.add("precut_null"); if (!orig && c.name.find("/k:") != string::npos) o.fail("precut", "no schedule completes the first rows of a schedule"); }
    else {
      o.add("precut_stmts", n);
      for (size_t p = 0; p < n; p++) for (int j = 0; j < k; j++) if ((int)q.a.st[p].trans.size() <= j || q.a.st[p].trans[j] != rows[p][j]) { o.fail("precut", "row " + std::to_string(j) + " of S_" + std::to_string(p) + " was given as " + vstr(rows[p][j]) + ", the schedule is " + rowsof(q.a, p)); break; }
      Times tm; if (tile && sunk_possible(q.a)) o.add("sunk_possible"); else if (times_from_map(q.sched, s, t, tm, o, "total")) { mon_legal(s, t, tm, o, "legal-precut"); mon_inject(t, tm, o, "inject-precut"); mon_exec(s, t, tm, o, "exec-precut"); mon_param_legal(s, c, q, o, "plegal-precut"); }
      if (tile && !tl) for (size_t p = 0; p < n; p++) if (q.f.st[p].dim != q.f.st[p].dim_orig) { o.fail("precut", "S_" + std::to_string(p) + " is tiled, though it is not to be"); break; }
      o.shapes.insert(std::to_string(std::hash<string>()(snap_text(q.f))));
    }
    run_free(q);
  }
}

// ------------------------------------------------------------ optimality
// Legal outermost hyperplanes with small non-negative coefficients, and the
// largest distance they give a dependence, against the one that was chosen.
static Vec candrow(const DepSnap &d, const vector<Vec> &h, int npar) {
  // distance h(dest) - h(src) over [src | dest | params | 1]; h: [iters | shift]
  Vec v(d.srcdim + d.destdim + npar + 1, 0);
  for (int j = 0; j < d.srcdim; j++) v[j] -= h[d.src][j]; for (int j = 0; j < d.destdim; j++) v[d.srcdim + j] += h[d.dest][j];
  v.back() = h[d.dest].back() - h[d.src].back(); return v;
}
void judge_optimal(const Case &c, const Scop &s, const Trace &t, RunRes &r, Out &o) {
  size_t n = s.st.size(); int tot = 0; for (auto &q : s.st) tot += q.dim; if (!r.a.valid || r.a.nh < 1) return;
  int cm = tot <= 3 ? 3 : tot <= 4 ? 2 : 1, sm = n == 1 ? 0 : n <= 2 ? 2 : n <= 3 ? 1 : 0; double cnt = 1; for (int k = 0; k < tot; k++) cnt *= cm + 1; for (size_t k = 1; k < n; k++) cnt *= sm + 1; if (n > 1) cnt *= sm + 1;
  if (cnt > 6000) { o.add("search_too_big"); return; }
  vector<int> dig(tot + n, 0); Exact x;
  auto maxdist = [&](const vector<Vec> &h, i64 &M) { M = 0; for (auto &d : t.dep) { const Inst &a = t.inst[d.first], &b = t.inst[d.second]; const Vec &p = h[a.s], &q = h[b.s]; i64 v = q.back() - p.back(); for (size_t j = 0; j < a.it.size(); j++) v -= p[j] * a.it[j]; for (size_t j = 0; j < b.it.size(); j++) v += q[j] * b.it[j]; if (v < 0) return false; M = std::max(M, v); } return true; };
  struct Cand { i64 M; vector<Vec> h; }; vector<Cand> cs;
  for (;;) {
    vector<Vec> h(n); size_t q = 0; bool ok = true; for (size_t k = 0; k < n; k++) { bool nz = s.st[k].dim == 0; for (int j = 0; j < s.st[k].dim; j++) { h[k].push_back(dig[q]); if (dig[q]) nz = true; q++; } h[k].push_back(dig[tot + k]); if (!nz) ok = false; }
    i64 M; if (ok && maxdist(h, M)) cs.push_back({M, h});
    size_t k = 0; for (; k < dig.size(); k++) { int lim = k < (size_t)tot ? cm : sm; if (++dig[k] <= lim) break; dig[k] = 0; } if (k == dig.size()) break;
  }
  o.add("candidates", cs.size());
  // the hyperplane chosen
  bool loop0 = true; for (size_t k = 0; k < n; k++) { i64 v; if (s.st[k].dim && scalar_row(r.a, k, 0, &v)) loop0 = false; }
  std::sort(cs.begin(), cs.end(), [](const Cand &a, const Cand &b) { return a.M < b.M; });
  auto confirm = [&](const Cand &q) { x.start(); for (auto &d : r.a.dep) { if (d.type == PLUTO_DEP_RAR) continue; Vec row = candrow(d, q.h, r.a.npar); for (int sg : {1, -1}) { Sys y = d.poly; Exact::add(y, row, sg, sg > 0 ? q.M + 1 : 1, false); if (x.some(y) || x.over()) return false; } } return true; };
  i64 O = 0; size_t wit = 0; for (size_t k = 0; k < t.dep.size(); k++) { auto &d = t.dep[k]; auto dist = [&](int i) { const Vec &w = r.a.st[t.inst[i].s].trans[0]; i64 v = w.back(); for (size_t j = 0; j < t.inst[i].it.size(); j++) v += w[j] * t.inst[i].it[j]; for (int j = 0; j < r.a.npar; j++) v += w[t.inst[i].it.size() + j] * t.params[j]; return v; }; i64 v = dist(d.second) - dist(d.first); if (v > O) { O = v; wit = k; } }
  int tries = 0;
  for (auto &q : cs) {
    if (loop0 && q.M >= O) break; if (++tries > 12) { o.add("confirm_capped"); break; }
    if (!confirm(q)) continue;
    string hs; for (size_t k = 0; k < n; k++) hs += vstr(q.h[k]);
    if (!loop0) o.fail("optimal", "no outermost loop was found for all statements, though " + hs + " [iterators | shift] respects every dependence at bounded distance " + std::to_string(q.M));
    else o.fail("optimal", "the outermost dimension has dependence distance " + std::to_string(O) + " (" + inst_str(t, t.dep[wit].first) + " -> " + inst_str(t, t.dep[wit].second) + "), " + hs + " [iterators | shift] has at most " + std::to_string(q.M));
    break;
  }
  if (loop0 && !cs.empty()) { o.add("chosen_compared"); if (O == 0) o.add("outer_parallel"); }
  // depth of the permutable band of a single statement
  if (n == 1 && s.st[0].dim >= 2) {
    int d = s.st[0].dim; vector<vector<double>> basis; vector<int> piv; int rk = 0, conf = 0;
    for (auto &q : cs) { if (rk == d || conf > 40) break; vector<double> v(q.h[0].begin(), q.h[0].end() - 1); for (size_t b = 0; b < basis.size(); b++) { double f = v[piv[b]] / basis[b][piv[b]]; for (int j = 0; j < d; j++) v[j] -= f * basis[b][j]; } int p = -1; for (int j = 0; j < d; j++) if (v[j] > 1e-9 || v[j] < -1e-9) { p = j; break; } if (p < 0) continue; conf++; if (!confirm(q)) continue; basis.push_back(v); piv.push_back(p); rk++; }
    if (rk == d) {
      o.add("full_bands"); Times ta; if (times_from_snap(r.a, s, t, ta, o, "snap")) for (int k = 0; k < d; k++) {
        i64 v; if (k >= r.a.nh || scalar_row(r.a, 0, k, &v)) { o.fail("band", "dimension " + std::to_string(k) + " is no loop, though " + std::to_string(d) + " independent permutable hyperplanes exist"); break; }
        bool bad = false; for (auto &e : t.dep) if (ta[e.second][k] < ta[e.first][k]) { o.fail("band", "dimension " + std::to_string(k) + " of " + rowsof(r.a, 0) + " has a negative distance for " + inst_str(t, e.first) + " -> " + inst_str(t, e.second) + ", though " + std::to_string(d) + " independent permutable hyperplanes exist"); bad = true; break; } if (bad) break;
      }
    }
  }
}
