// A legal schedule of the harness's own making, installed where the library
// would have searched for one (option identity): what is derived from a
// schedule (directions, parallel loops, bands, tiles, wavefronts, remappings)
// has to be right for every legal schedule, not only for those the search
// finds.
#include "oracle.h"
#include <isl/union_map.h>
#include <isl/union_set.h>
#include <isl/ctx.h>
#include <isl/options.h>
#include <algorithm>
extern "C" {
#include "pluto.h"
#include "program.h"
#include "pluto/matrix.h"
#include "constraints.h"
}
using std::string; using std::vector;
typedef vector<vector<Vec>> Rows; // [statement][row] over [iterators | parameters | 1]

static string rows_text(const Scop &s, const Rows &w) {
  string r = "["; for (size_t i = 0; i < s.np(); i++) r += (i ? "," : "") + s.params[i]; r += "] -> { ";
  for (size_t k = 0; k < s.st.size(); k++) {
    if (k) r += "; "; r += "S_" + std::to_string(k) + "["; for (int i = 0; i < s.st[k].dim; i++) r += (i ? ",c" : "c") + std::to_string(i); r += "] -> [";
    for (size_t j = 0; j < w[k].size(); j++) { r += j ? "," : ""; bool first = true; for (size_t q = 0; q < w[k][j].size(); q++) { i64 v = w[k][j][q]; if (!v) continue; r += (first ? "" : " + ") + std::to_string(v) + (q + 1 == w[k][j].size() ? "" : "*" + ((int)q < s.st[k].dim ? "c" + std::to_string(q) : s.params[q - s.st[k].dim])); first = false; } if (std::all_of(w[k][j].begin(), w[k][j].end(), [](i64 v) { return !v; })) r += "0"; }
    r += "]";
  }
  return r + " }";
}
static bool legal_here(const Trace &t, const Rows &w) {
  vector<Vec> d; for (auto &in : t.inst) { Vec x; Vec it = in.it; it.insert(it.end(), t.params.begin(), t.params.end()); for (auto &row : w[in.s]) { i64 v = row.back(); for (size_t q = 0; q + 1 < row.size(); q++) v += row[q] * it[q]; x.push_back(v); } d.push_back(x); }
  for (auto &p : t.dep) if (!(d[p.first] < d[p.second])) return false;
  for (size_t k = 0; k < w.size(); k++) { std::set<Vec> u; size_t n = 0; for (size_t i = 0; i < t.inst.size(); i++) if (t.inst[i].s == (int)k) { n++; u.insert(d[i]); } if (u.size() != n) return false; }
  return true;
}
static bool legal_always(const Scop &s, const Case &c, const Rows &w) {
  isl_ctx *ctx = isl_ctx_alloc(); isl_ctx_set_max_operations(ctx, 1500000); isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
  isl_union_map *D = dep_relation(ctx, s, c), *S = isl_union_map_read_from_str(ctx, rows_text(s, w).c_str());
  S = isl_union_map_intersect_domain(S, isl_union_set_read_from_str(ctx, isl_domains(s, ctxcond(c, s)).c_str()));
  isl_union_map *ge = isl_union_map_lex_ge_union_map(isl_union_map_copy(S), isl_union_map_copy(S));
  isl_union_map *bad = isl_union_map_intersect(D, ge); bool ok = isl_union_map_is_empty(bad) == isl_bool_true;
  isl_union_map_free(bad); isl_union_map_free(S); isl_ctx_free(ctx); return ok;
}
static bool isloop(const Scop &s, int k, const Vec &v) { for (int i = 0; i < s.st[k].dim; i++) if (v[i]) return true; return false; }
static bool scalar_dim(const Scop &s, const Rows &w, size_t j) { for (size_t k = 0; k < w.size(); k++) if (isloop(s, (int)k, w[k][j])) return false; return true; }

bool given_schedule(const Case &c, const Scop &s, const Trace &t, Rows &best) {
  size_t ns = s.st.size(), np = s.np(); if (!ns || !s.maxdim()) return false; Rng r((uint64_t)c.given * 7919 + 13);
  Rows w(ns);
  for (size_t k = 0; k < ns; k++) for (int j = 0; j <= 2 * (int)s.maxdim(); j++) { Vec v(s.st[k].dim + np + 1, 0); if (j <= 2 * s.st[k].dim) { if (j % 2) v[j / 2] = 1; else v.back() = s.st[k].beta[j / 2]; } w[k].push_back(v); }
  auto drop = [&](Rows &x, size_t j) { for (auto &q : x) q.erase(q.begin() + j); };
  auto dropconst = [&](Rows &x) { for (size_t j = x[0].size(); j-- > 0;) { if (!scalar_dim(s, x, j)) continue; bool same = true; for (auto &q : x) same &= q[j].back() == x[0][j].back(); if (same && x[0].size() > 1) drop(x, j); } };
  if (r.pct(85)) dropconst(w);
  best = w; // the original order
  int n = r.in(0, 16);
  for (int a = 0; a < n; a++) {
    Rows x = w; size_t nr = x[0].size(); int op = r.in(0, 99); size_t i = r.in(0, (int)nr - 1), j = r.in(0, (int)nr - 1); vector<char> in(ns, 1);
    if (r.pct(35)) { int g = r.in(0, (int)ns - 1); int lv = r.in(0, (int)nr - 1); for (size_t k = 0; k < ns; k++) for (int q = 0; q <= lv; q++) if (!isloop(s, (int)k, x[k][q]) && x[k][q].back() != x[g][q].back()) in[k] = 0; } // one group of statements
    if (op < 22) { for (size_t k = 0; k < ns; k++) if (in[k]) std::swap(x[k][i], x[k][j]); }
    else if (op < 47) { int f = r.in(1, 2); if (i == j) continue; for (size_t k = 0; k < ns; k++) if (in[k] && isloop(s, (int)k, x[k][i]) && (isloop(s, (int)k, x[k][j]) || r.pct(25)) && !scalar_dim(s, x, j)) for (size_t q = 0; q < x[k][j].size(); q++) x[k][j][q] += f * x[k][i][q]; }
    else if (op < 62) { size_t k = r.in(0, (int)ns - 1); if (np && op < 52 && isloop(s, (int)k, x[k][i])) { int f = r.in(0, (int)np - 1), v = r.pct(80) ? 1 : -1; bool all = r.pct(60); for (size_t q = 0; q < ns; q++) if (q == k || (all && in[q] && isloop(s, (int)q, x[q][i]))) x[q][i][s.st[q].dim + f] += v; } else x[k][i].back() += r.in(1, 3); }
    else if (op < 74) { if (scalar_dim(s, x, i)) { if (r.pct(60)) for (auto &q : x) q[i].back() = 0; else drop(x, i); if (x[0].empty()) continue; } }
    else if (op < 82) { for (size_t k = 0; k < ns; k++) { Vec v(s.st[k].dim + np + 1, 0); v.back() = s.st[k].beta[0] * 10 + (s.st[k].beta.size() > 1 ? s.st[k].beta[1] : 0); x[k].insert(x[k].begin() + i, v); } }
    else if (op < 90) { size_t k = r.in(0, (int)ns - 1); std::swap(x[k][i], x[k][j]); }
    else if (op < 94) { size_t k = r.in(0, (int)ns - 1); for (auto &v : x[k][i]) v *= 2; }
    else { int f = r.in(1, 2); if (i + 1 >= nr) continue; for (size_t k = 0; k < ns; k++) if (in[k]) { Vec v = x[k][i + 1]; x[k].erase(x[k].begin() + i + 1); x[k].insert(x[k].begin() + (f == 1 ? 0 : i), v); } }
    if (x[0].size() > 7 || !legal_here(t, x)) continue; w = x;
  }
  if (r.pct(70)) dropconst(w);
  if (w != best && legal_here(t, w) && legal_always(s, c, w)) best = w;
  return true;
}

void install_schedule(PlutoProg *p, const Rows &w) {
  for (unsigned d = 0; d < w[0].size(); d++) {
    bool any = false;
    for (unsigned k = 0; k < (unsigned)p->nstmts; k++) {
      Stmt *t = p->stmts[k]; bool l = false; for (unsigned j = 0; j < t->dim; j++) l |= w[k][d][j] != 0; any |= l;
      pluto_stmt_add_hyperplane(t, l ? H_LOOP : H_SCALAR, d);
      for (unsigned j = 0; j < t->trans->ncols; j++) t->trans->val[d][j] = w[k][d][j];
    }
    pluto_prog_add_hyperplane(p, d, any ? H_LOOP : H_SCALAR);
  }
}
