// Constraint sets and matrices: every operation is run on random operands and
// compared with what it denotes, by enumeration of points and exact rational
// arithmetic of the harness's own.
#include "judge.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <numeric>
#include <sstream>
#include <isl/ctx.h>
#include <isl/map.h>
#include <isl/set.h>
#include <isl/mat.h>
#include <isl/space.h>
#include <isl/val.h>
#include <isl/options.h>
#include <gmp.h>
#include <glpk.h>
extern "C" {
#include "pluto/pluto.h"
#include "pluto/matrix.h"
#include "pluto.h"
#include "constraints.h"
#include "math_support.h"
#include "program.h"
#include "ddg.h"
#include "transforms.h"
// not in a header: weak, so that they may become static
PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat) __attribute__((weak));
PlutoMatrix *pluto_matrix_from_isl_mat(isl_mat *mat, PlutoContext *context) __attribute__((weak));
long long isl_val_get_num_ll(isl_val *v);
int get_num_unsatisfied_deps(Dep **deps, int ndeps) __attribute__((weak));
int get_num_unsatisfied_inter_stmt_deps(Dep **deps, int ndeps) __attribute__((weak));
int get_num_unsatisfied_inter_scc_deps(PlutoProg *prog) __attribute__((weak));
void pluto_constraints_project_out_isl(PlutoConstraints *cst, int start, int num) __attribute__((weak));
}
using std::string; using std::vector;
typedef __int128 i128;
typedef vector<Sys> List; // union of conjunctions

namespace {
PlutoContext *C; // the context of this process

string stext(const List &l) {
  std::ostringstream o; for (auto &s : l) { o << "{"; for (auto &r : s.rows) { o << vstr(r.c) << (r.eq ? "=0" : ">=0") << " "; } o << "}"; } return o.str();
}
i64 big(Rng &r) { i64 v = (i64)(r.next() % (1ull << 40)) + (1ll << 33); return r.pct(50) ? v : -v; }

Sys gen_sys(Rng &r, int n, int rows, int eqpct, bool boxed, int B) {
  Sys s; s.n = n;
  for (int k = 0; k < rows; k++) {
    Row w; w.eq = r.pct(eqpct); for (int j = 0; j < n; j++) w.c.push_back(r.pct(45) ? 0 : r.in(-3, 3)); w.c.push_back(r.in(-6, 6));
    if (r.pct(15)) { int f = r.in(2, 3); for (auto &v : w.c) v *= f; }
    if (r.pct(12) && k) { w = s.rows[r.in(0, k - 1)]; if (r.pct(40)) { for (auto &v : w.c) v = -v; w.eq = false; } if (r.pct(30)) w.eq = !w.eq; }
    s.rows.push_back(w);
  }
  if (boxed) for (int j = 0; j < n; j++) for (int sg : {1, -1}) { Row w; w.eq = false; w.c.assign(n + 1, 0); w.c[j] = sg; w.c[n] = B; s.rows.push_back(w); }
  for (size_t k = s.rows.size(); k > 1; k--) std::swap(s.rows[k - 1], s.rows[r.in(0, (int)k - 1)]);
  return s;
}
List gen_list(Rng &r, int n, int maxd, bool boxed, int B, int eqpct = 25) { List l; int d = r.in(1, maxd); for (int k = 0; k < d; k++) l.push_back(gen_sys(r, n, r.in(0, 4), eqpct, boxed, B)); return l; }

// names of the dimensions, or none
vector<string> gen_names(Rng &r, int n) { vector<string> v; for (int k = 0; k < n; k++) v.push_back((r.pct(20) ? "longname" : "n") + std::to_string(r.in(0, 99)) + "_" + std::to_string(k)); return v; }

PlutoConstraints *mk1(Rng &r, const Sys &s) {
  int slackr = r.pct(50) ? 0 : r.in(1, 3), slackc = r.pct(50) ? 0 : r.in(1, 2);
  PlutoConstraints *c = pluto_constraints_alloc((int)s.rows.size() + slackr, s.n + 1 + slackc, C);
  c->nrows = s.rows.size(); c->ncols = s.n + 1;
  for (size_t i = 0; i < s.rows.size(); i++) { c->is_eq[i] = s.rows[i].eq; for (int j = 0; j <= s.n; j++) c->val[i][j] = s.rows[i].c[j]; }
  return c;
}
PlutoConstraints *mk(Rng &r, const List &l) { PlutoConstraints *h = nullptr, *t = nullptr; for (auto &s : l) { PlutoConstraints *c = mk1(r, s); if (!h) h = c; else t->next = c; t = c; } return h; }
void name(PlutoConstraints *c, const vector<string> &nm) { vector<char *> p; for (auto &s : nm) p.push_back((char *)s.c_str()); p.push_back(nullptr); for (; c; c = c->next) pluto_constraints_set_names(c, p.data()); }
List rd(const PlutoConstraints *c) {
  List l; for (; c; c = c->next) { Sys s; s.n = (int)c->ncols - 1; for (unsigned i = 0; i < c->nrows; i++) { Row w; w.eq = c->is_eq[i] != 0; w.c.assign(c->val[i], c->val[i] + c->ncols); s.rows.push_back(w); } l.push_back(s); } return l;
}
bool same(const List &a, const List &b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); k++) { if (a[k].n != b[k].n || a[k].rows.size() != b[k].rows.size()) return false; for (size_t i = 0; i < a[k].rows.size(); i++) if (a[k].rows[i].c != b[k].rows[i].c || a[k].rows[i].eq != b[k].rows[i].eq) return false; } return true; }
// the point x/d
bool in1(const Sys &s, const Vec &x, i64 d = 1) { for (auto &w : s.rows) { i128 v = (i128)w.c[s.n] * d; for (int j = 0; j < s.n; j++) v += (i128)w.c[j] * x[j]; if (w.eq ? v != 0 : v < 0) return false; } return true; }
bool in(const List &l, const Vec &x, i64 d = 1) { for (auto &s : l) if (in1(s, x, d)) return true; return false; }
void box(int n, int B, const std::function<bool(const Vec &)> &f) { Vec x(n, -B); for (;;) { if (!f(x)) return; int k = 0; while (k < n && x[k] == B) x[k++] = -B; if (k == n) return; x[k]++; } }
int span(int n) { return n <= 2 ? 7 : n == 3 ? 5 : 3; }
// is there a rational value of variable p for the point x/d of the others?
bool fiber(const Sys &s, int p, const Vec &x, i64 d) {
  // v*y + w/d >= 0
  bool hl = false, hu = false; i128 ln = 0, ld = 1, un = 0, ud = 1;
  for (auto &w : s.rows) {
    i128 k = (i128)w.c[s.n] * d; for (int j = 0, q = 0; j < s.n; j++) if (j != p) k += (i128)w.c[j] * x[q++];
    i64 v = w.c[p]; if (v == 0) { if (w.eq ? k != 0 : k < 0) return false; continue; }
    // y >= -k/(v d) or <=
    auto lo = [&](i128 a, i128 b) { if (!hl || a * ld > ln * b) { ln = a; ld = b; hl = true; } };
    auto up = [&](i128 a, i128 b) { if (!hu || a * ud < un * b) { un = a; ud = b; hu = true; } };
    i128 a = v > 0 ? -k : k, b = (i128)(v > 0 ? v : -v) * d; if (v > 0 || w.eq) lo(a, b); if (v < 0 || w.eq) up(a, b);
  }
  return !(hl && hu) || ln * ud <= un * ld;
}
// vertices of a bounded system as rational points (x/d)
struct Vx { Vec x; i64 d; };
i64 absl(i64 v) { return v < 0 ? -v : v; }
bool solve(vector<vector<i128>> m, int n, Vx &o) { // n equations, n unknowns, m[i][n] + sum m[i][j] y_j = 0
  i128 den = 1; (void)den;
  for (int c = 0; c < n; c++) { int p = c; while (p < n && m[p][c] == 0) p++; if (p == n) return false; std::swap(m[p], m[c]);
    for (int q = 0; q < n; q++) if (q != c && m[q][c] != 0) { i128 f = m[q][c], g = m[c][c]; for (int j = 0; j <= n; j++) m[q][j] = m[q][j] * g - m[c][j] * f; } }
  i128 l = 1; for (int c = 0; c < n; c++) { i128 a = m[c][c] < 0 ? -m[c][c] : m[c][c]; i128 x = l, y = a; while (y) { i128 t = x % y; x = y; y = t; } l = l / x * a; }
  o.d = (i64)l; o.x.clear(); for (int c = 0; c < n; c++) o.x.push_back((i64)(-m[c][n] * (l / m[c][c]))); i64 g = o.d; for (i64 v : o.x) g = std::gcd(g, absl(v)); o.d /= g; for (auto &v : o.x) v /= g; return true;
}
vector<Vx> vertices(const Sys &s) {
  vector<Vx> r; int n = s.n, m = (int)s.rows.size(); vector<int> pick; std::set<std::pair<i64, Vec>> seen;
  if (n == 0) { if (in1(s, Vec())) r.push_back({Vec(), 1}); return r; }
  std::function<void(int)> go = [&](int from) {
    if ((int)pick.size() == n) { vector<vector<i128>> a; for (int k : pick) a.push_back(vector<i128>(s.rows[k].c.begin(), s.rows[k].c.end())); Vx v; if (solve(a, n, v) && in1(s, v.x, v.d) && seen.insert({v.d, v.x}).second) r.push_back(v); return; }
    for (int k = from; k < m; k++) { pick.push_back(k); go(k + 1); pick.pop_back(); } };
  go(0); return r;
}
struct J {
  Out &o; Rng &r; string op; string ctx;
  void bad(const string &m) { o.fail(op, m + (ctx.empty() ? "" : " on " + ctx)); }
  void eq(bool c, const string &m) { o.add("facts"); if (!c) bad(m); }
  // got and want agree at every point of a box
  void sets(int n, const std::function<bool(const Vec &)> &got, const std::function<bool(const Vec &)> &want) {
    uint64_t k = 0, inn = 0; box(n, span(n), [&](const Vec &x) { k++; bool w = want(x); inn += w; if (got(x) != w) { bad(string("point ") + vstr(x) + (w ? " is missing" : " is added")); return false; } return true; });
    o.add("points", k); o.add("points_in", inn);
  }
  void lists(const List &got, const List &want, int n) { for (auto &s : got) if (s.n != n) { bad("result has " + std::to_string(s.n) + " dimensions, expected " + std::to_string(n)); return; } sets(n, [&](const Vec &x) { return in(got, x); }, [&](const Vec &x) { return in(want, x); }); }
  void names(const PlutoConstraints *c, const vector<string> &want) { if (!c->names) { bad("names lost"); return; } for (size_t k = 0; k < want.size(); k++) if (!c->names[k] || want[k] != c->names[k]) { bad("dimension " + std::to_string(k) + " has name " + (c->names[k] ? c->names[k] : "(null)") + ", expected " + want[k]); return; } o.add("names"); }
};
typedef void (*Op)(J &);
struct OpDef { const char *name; Op f; };

// ------------------------------------------------------------ constraint sets
void op_dup(J &j) {
  Rng &r = j.r; int n = r.in(1, 4); List l = gen_list(r, n, 3, false, 0); if (r.pct(20)) for (auto &w : l[0].rows) w.c[r.in(0, n)] = big(r); j.ctx = stext(l);
  PlutoConstraints *c = mk(r, l); bool nm = r.pct(50); vector<string> ns = gen_names(r, n); if (nm) name(c, ns);
  PlutoConstraints *d = nullptr; int how = r.in(0, 3); List want = l;
  if (how == 0) d = pluto_constraints_dup(c);
  else if (how == 1) { d = pluto_constraints_dup_single(c); want.resize(1); }
  else { int m = r.in(1, 5); List o = gen_list(r, m, 3, false, 0); d = mk(r, o); if (r.pct(50)) name(d, gen_names(r, m)); if (how == 2) pluto_constraints_copy(d, c); else { pluto_constraints_copy_single(d, c); want = o; want[0] = l[0]; if (rd(d).size() != o.size()) j.bad("list length changed"); } }
  static const char *hn[] = {"dup", "dup_single", "copy", "copy_single"}; j.op = string("set-") + hn[how];
  if (how != 3) j.eq(same(rd(d), want), "not equal to the original: " + stext(rd(d))); else j.eq(same({rd(d)[0]}, {l[0]}), "first element not equal to the original: " + stext(rd(d)));
  if (nm) j.names(d, ns); else j.eq(d->names == nullptr, "names appeared");
  if (how == 0 && d->next) { if (nm) j.names(d->next, ns); }
  // independent of each other
  for (PlutoConstraints *q = d; q; q = q->next) for (unsigned i = 0; i < q->nrows; i++) for (unsigned k = 0; k < q->ncols; k++) q->val[i][k] ^= 0x55;
  if (d->names && n) d->names[0][0] = '!';
  j.eq(same(rd(c), l), "changing the copy changed the original"); if (nm) j.names(c, ns);
  pluto_constraints_free(d); j.eq(same(rd(c), l), "freeing the copy changed the original"); pluto_constraints_free(c);
}
void op_resize(J &j) {
  Rng &r = j.r; int n = r.in(1, 4); List l = gen_list(r, n, 1, false, 0); j.ctx = stext(l); PlutoConstraints *c = mk(r, l); bool nm = r.pct(50); vector<string> ns = gen_names(r, n); if (nm) name(c, ns);
  int nr = r.in(0, 7), nc = r.in(2, 7); if (r.pct(50)) pluto_constraints_resize(c, nr, nc); else pluto_constraints_resize_single(c, nr, nc);
  Sys w; w.n = nc - 1; for (int i = 0; i < nr; i++) { Row q; q.eq = i < (int)l[0].rows.size() && l[0].rows[i].eq; q.c.assign(nc, 0); if (i < (int)l[0].rows.size()) for (int k = 0; k < std::min(nc, n + 1); k++) q.c[k] = l[0].rows[i].c[k]; w.rows.push_back(q); }
  j.eq(same(rd(c), {w}), "resized to " + std::to_string(nr) + "x" + std::to_string(nc) + ": " + stext(rd(c)));
  if (nm) { ns.resize(std::min(n, nc - 1)); j.names(c, ns); for (int k = n; k < nc - 1; k++) j.eq(c->names[k] == nullptr, "a new dimension got a name"); }
  pluto_constraints_free(c);
}
void op_add(J &j) {
  Rng &r = j.r; int n = r.in(1, 3); bool each = r.pct(50); List a = gen_list(r, n, each ? 3 : 1, false, 0), b = gen_list(r, n, 1, false, 0); j.ctx = stext(a) + " and " + stext(b); j.op = each ? "set-add_to_each" : "set-add";
  PlutoConstraints *x = mk(r, a), *y = mk(r, b); PlutoConstraints *z = each ? pluto_constraints_add_to_each(x, y) : pluto_constraints_add(x, y);
  j.eq(z == x, "does not return its first argument"); j.eq(same(rd(y), b), "second argument changed"); List g = rd(x); j.eq(g.size() == a.size(), "number of elements changed");
  for (size_t k = 0; k < a.size() && k < g.size(); k++) { Sys w = a[k]; w.rows.insert(w.rows.end(), b[0].rows.begin(), b[0].rows.end()); j.lists({g[k]}, {w}, n); }
  pluto_constraints_free(x); pluto_constraints_free(y);
}
void op_simplify(J &j) {
  Rng &r = j.r; int n = r.in(1, 4); List l = gen_list(r, n, 2, false, 0, 35); for (auto &s : l) if (r.pct(40) && !s.rows.empty()) for (int k = r.in(1, 4); k > 0; k--) { Row w = s.rows[r.in(0, (int)s.rows.size() - 1)]; int f = r.in(1, 3); if (r.pct(20)) f = 0; for (auto &v : w.c) v *= f; if (r.pct(25)) w.eq = !w.eq; s.rows.push_back(w); }
  j.ctx = stext(l); PlutoConstraints *c = mk(r, l); pluto_constraints_simplify(c); List g = rd(c); j.lists(g, l, n); j.eq(g.size() == l.size(), "number of elements changed");
  for (auto &s : g) { size_t nz = 0; for (size_t i = 0; i < s.rows.size(); i++) { i64 q = 0; for (i64 v : s.rows[i].c) q = std::gcd(q, absl(v)); if (q == 0) nz++; else j.eq(q == 1, "a row with common factor " + std::to_string(q) + " is left: " + stext(g)); for (size_t k = 0; k < i; k++) j.eq(s.rows[i].c != s.rows[k].c || s.rows[i].eq != s.rows[k].eq, "a duplicate row is left: " + stext(g)); } j.eq(nz <= 1, "all-zero rows are left"); }
  for (size_t k = 0; k < g.size() && k < l.size(); k++) for (auto &w : g[k].rows) { bool f = false; for (auto &v : l[k].rows) if (v.eq == w.eq) { bool ok = true; i64 num = 0, den = 0; for (int q = 0; q <= n && ok; q++) { if ((v.c[q] == 0) != (w.c[q] == 0) || (v.c[q] < 0) != (w.c[q] < 0)) ok = false; else if (v.c[q]) { if (!den) num = v.c[q], den = w.c[q]; else if (num * w.c[q] != den * v.c[q]) ok = false; } } if (ok) f = true; } j.eq(f, "a row that is no multiple of a given one: " + stext(g)); }
  pluto_constraints_free(c);
}
void op_dims(J &j) {
  Rng &r = j.r; int n = r.in(1, 4); List l = gen_list(r, n, 2, false, 0); j.ctx = stext(l); PlutoConstraints *c = mk(r, l); bool nm = r.pct(50); vector<string> ns = gen_names(r, n); if (nm) name(c, ns);
  List w = l; string log;
  for (int k = r.in(1, 6); k > 0; k--) {
    int x = r.in(0, 3);
    if (x <= 1) { int p = r.in(0, w[0].n); string nn = "new" + std::to_string(k); log += " add_dim " + std::to_string(p); bool anon = r.pct(30); pluto_constraints_add_dim(c, p, anon ? nullptr : nn.c_str()); for (auto &s : w) { s.n++; for (auto &q : s.rows) q.c.insert(q.c.begin() + p, 0); } ns.insert(ns.begin() + p, anon ? "_u" : nn); }
    else if (x == 2 && w[0].n >= 2) { int p = r.in(0, w[0].n - 1); log += " remove_dim " + std::to_string(p); pluto_constraints_remove_dim(c, p); for (auto &s : w) { s.n--; for (auto &q : s.rows) q.c.erase(q.c.begin() + p); } ns.erase(ns.begin() + p); }
    else if (x == 3) { int m = r.in(0, 2); log += " add_leading " + std::to_string(m); pluto_constraints_add_leading_dims(c, m); for (auto &s : w) { s.n += m; for (auto &q : s.rows) q.c.insert(q.c.begin(), m, 0); } for (int q = 0; q < m; q++) ns.insert(ns.begin(), "_u"); }
  }
  j.eq(same(rd(c), w), "after" + log + ": " + stext(rd(c))); if (nm) { j.ctx += log; j.names(c, ns); if (c->next) j.names(c->next, ns); } pluto_constraints_free(c);
}
void op_rows(J &j) {
  Rng &r = j.r; int n = r.in(1, 4); List l = gen_list(r, n, 2, false, 0); j.ctx = stext(l); PlutoConstraints *c = mk(r, l); List w = l; string log;
  for (int k = r.in(1, 5); k > 0; k--) {
    int x = r.in(0, 6), v = r.in(0, n - 1); i64 b = r.pct(15) ? big(r) : r.in(-9, 9); auto row = [&](bool eq, i64 cv, i64 cc) { Row q; q.eq = eq; q.c.assign(n + 1, 0); q.c[v] = cv; q.c[n] = cc; return q; };
    if (x == 0) { log += " lb"; pluto_constraints_add_lb(c, v, b); for (auto &s : w) s.rows.push_back(row(false, 1, -b)); }
    else if (x == 1) { log += " ub"; pluto_constraints_add_ub(c, v, b); for (auto &s : w) s.rows.push_back(row(false, -1, b)); }
    else if (x == 2) { log += " set"; pluto_constraints_set_var(c, v, b); for (auto &s : w) s.rows.push_back(row(true, 1, -b)); }
    else if (x == 3) { bool e = r.pct(50); log += " addrow"; int h = r.in(0, 1); if (h) pluto_constraints_add_constraint(c, e); else if (e) pluto_constraints_add_equality(c); else pluto_constraints_add_inequality(c); for (auto &s : w) s.rows.push_back(row(e, 0, 0)); }
    else if (x == 4 && !w[0].rows.empty()) { int p = r.in(0, (int)w[0].rows.size() - 1); log += " rm" + std::to_string(p); pluto_constraints_remove_row(c, p); w[0].rows.erase(w[0].rows.begin() + p); }
    else if (x == 5) { int a = r.in(0, n), d = r.in(0, n); if (r.pct(30)) { for (auto &s : w) if (!s.rows.empty()) s.rows[0].c[a] = big(r); pluto_constraints_free(c); c = mk(r, w); } log += " swap"; pluto_constraints_interchange_cols(c, a, d); for (auto &s : w) for (auto &q : s.rows) std::swap(q.c[a], q.c[d]); }
    else if (x == 6 && w.size() == 1 && !w[0].rows.empty()) { int p = r.in(0, (int)w[0].rows.size() - 1); int h = r.in(0, 1); log += h ? " neg" : " zero"; if (h) { pluto_constraints_negate_row(c, p); for (auto &q : w[0].rows[p].c) q = -q; } else { pluto_constraints_zero_row(c, p); for (auto &q : w[0].rows[p].c) q = 0; } }
  }
  j.eq(same(rd(c), w), "after" + log + ": " + stext(rd(c)) + " expected " + stext(w));
  int nz = 0; for (auto &q : w[0].rows) for (int k = 0; k < n; k++) nz += q.c[k] != 0; j.eq(pluto_constraints_get_num_non_zero_coeffs(c) == nz, "wrong number of non-zero coefficients"); j.eq(pluto_constraints_num_in_list(c) == (int)w.size(), "wrong number of elements");
  pluto_constraints_free(c);
}
void op_negate(J &j) {
  Rng &r = j.r; int n = r.in(1, 3); List l = {gen_sys(r, n, r.in(1, 4), 0, false, 0)}; j.ctx = stext(l); PlutoConstraints *c = mk(r, l); for (auto &w : l[0].rows) w.eq = false; pluto_constraints_free(c); c = mk(r, l); int p = r.in(0, (int)l[0].rows.size() - 1); Sys one; one.n = n; one.rows = {l[0].rows[p]};
  PlutoConstraints *s = pluto_constraints_select_row(c, p); j.eq(same(rd(s), {one}), "selected row differs");
  pluto_constraints_negate_constraint(s, 0); List g = rd(s); j.op = "set-negate_constraint"; j.sets(n, [&](const Vec &x) { return in(g, x); }, [&](const Vec &x) { return !in1(one, x); });
  pluto_constraints_free(s);
  Sys h = one; h.rows[0].eq = true; PlutoConstraints *H = mk1(r, h); j.op = "set-half_space"; PlutoConstraints *a = pluto_hyperplane_get_non_negative_half_space(H), *b = pluto_hyperplane_get_negative_half_space(H); List ga = rd(a), gb = rd(b);
  j.sets(n, [&](const Vec &x) { return in(ga, x); }, [&](const Vec &x) { return in1(one, x); }); j.sets(n, [&](const Vec &x) { return in(gb, x); }, [&](const Vec &x) { return !in1(one, x); }); j.eq(same(rd(H), {h}), "hyperplane changed");
  pluto_constraints_free(a); pluto_constraints_free(b); pluto_constraints_free(H);
  j.op = "set-normalize_row"; int q = r.in(0, (int)l[0].rows.size() - 1); pluto_constraints_normalize_row(c, q); List gn = rd(c); j.lists(gn, l, n); i64 gg = 0; for (i64 v : gn[0].rows[q].c) gg = std::gcd(gg, absl(v)); j.eq(gg <= 1, "row not normalized: " + stext(gn)); pluto_constraints_free(c);
}
void op_pureineq(J &j) {
  Rng &r = j.r; int n = r.in(1, 3); List l = gen_list(r, n, 2, false, 0, 50); j.ctx = stext(l); PlutoConstraints *c = mk(r, l), *d = pluto_constraints_to_pure_inequalities_single(c); List g = rd(d); for (auto &w : g[0].rows) j.eq(!w.eq, "an equality is left"); j.lists({g[0]}, {l[0]}, n); j.eq(same(rd(c), l), "argument changed");
  // also at rational points
  if (n <= 2) box(n, 9, [&](const Vec &x) { if (in1(g[0], x, 2) != in1(l[0], x, 2)) { j.bad("differs at " + vstr(x) + "/2"); return false; } return true; });
  pluto_constraints_free(c); pluto_constraints_free(d);
}
void op_bool(J &j) {
  Rng &r = j.r; int n = r.in(1, 3); List a = gen_list(r, n, 2, r.pct(70), 4), b = gen_list(r, n, 2, r.pct(70), 3); int how = r.in(0, 10);
  // the difference is taken of unions of non-empty polyhedra (polylib's own convention)
  if (how == 7 || how == 8 || how == 10) for (List *u : {&a, &b}) { List k; for (auto &s : *u) { bool any = false; box(n, span(n), [&](const Vec &x) { any = in1(s, x); return !any; }); if (any) k.push_back(s); } if (k.empty()) k.push_back(gen_sys(r, n, 0, 0, true, 2)); *u = k; }
  if (r.pct(15)) b = a; j.ctx = stext(a) + " and " + stext(b); PlutoConstraints *x = mk(r, a), *y = mk(r, b), *z = nullptr; bool inplace = false;
  static const char *hn[] = {"intersect_isl", "union_isl", "unionize_isl", "unionize_simple", "union", "intersection", "intersect", "difference", "subtract", "unionize", "are_equal"}; j.op = string("set-") + hn[how];
  if (how == 0) { pluto_constraints_intersect_isl(x, y); inplace = true; } else if (how == 1) z = pluto_constraints_union_isl(x, y); else if (how == 2) { pluto_constraints_unionize_isl(x, y); inplace = true; } else if (how == 3) { pluto_constraints_unionize_simple(x, y); inplace = true; }
  else if (how == 4) z = pluto_constraints_union(x, y); else if (how == 5) z = pluto_constraints_intersection(x, y); else if (how == 6) { pluto_constraints_intersect(x, y); inplace = true; } else if (how == 7) z = pluto_constraints_difference(x, y); else if (how == 8) { pluto_constraints_subtract(x, y); inplace = true; } else if (how == 9) { pluto_constraints_unionize(x, y); inplace = true; }
  else { bool got = pluto_constraints_are_equal(x, y); bool boxed = true, eq = true; for (auto &s : a) if (vertices(s).empty()) boxed = boxed; box(n, 7, [&](const Vec &p) { if (in(a, p) != in(b, p)) eq = false; return eq; });
    if (!eq) j.eq(!got, "different sets reported equal"); else if (same(a, b)) j.eq(got, "equal sets reported different"); }
  if (how != 10) { List g = rd(inplace ? x : z); for (auto &s : g) if (s.n != n) { j.bad("dimensionality changed"); goto out; }
    j.sets(n, [&](const Vec &p) { return in(g, p); }, [&](const Vec &p) { bool A = in(a, p), B = in(b, p); return how == 0 || how == 5 || how == 6 ? A && B : how == 7 || how == 8 ? A && !B : A || B; }); }
out:
  j.eq(same(rd(y), b), "second argument changed"); if (!inplace) j.eq(same(rd(x), a), "first argument changed");
  pluto_constraints_free(x); pluto_constraints_free(y); pluto_constraints_free(z);
}
void op_empty(J &j) {
  Rng &r = j.r; int n = r.in(1, 3); List l = gen_list(r, n, 2, true, 5, 35); j.ctx = stext(l); PlutoConstraints *c = mk(r, l); bool any = false; box(n, 5, [&](const Vec &x) { any = in(l, x); return !any; });
  j.eq((pluto_constraints_is_empty(c) != 0) == !any, any ? "a set with points reported empty" : "an empty set reported non-empty"); j.o.add(any ? "nonempty" : "empty"); pluto_constraints_free(c);
  PlutoConstraints *e = pluto_constraints_empty(n + 1, C), *u = pluto_constraints_universe(n + 1, C); j.lists(rd(e), {}, n); j.eq(pluto_constraints_is_empty(e) != 0, "the empty set is not empty"); List g = rd(u); j.eq(g.size() == 1 && g[0].rows.empty() && g[0].n == n, "the universe has constraints"); pluto_constraints_free(e); pluto_constraints_free(u);
}
void op_lexmin(J &j) {
  Rng &r = j.r; int n = r.in(1, 4), B = n <= 2 ? 6 : n == 3 ? 4 : 3; List l = {gen_sys(r, n, r.in(0, 4), 20, true, B)}; if (r.pct(30)) { Vec lo(n); i64 sh = big(r); for (auto &w : l[0].rows) { i64 q = w.c[0] * (sh % 1000); (void)q; } } j.ctx = stext(l); PlutoConstraints *c = mk(r, l); int neg = r.pct(50); bool f = false; Vec best;
  box(n, B, [&](const Vec &x) { if (!neg) for (i64 v : x) if (v < 0) return true; if (in(l, x) && (!f || x < best)) { f = true; best = x; } return true; });
  i64 *s = (i64 *)(r.pct(50) ? pluto_constraints_lexmin(c, neg) : pluto_constraints_lexmin_isl(c, neg)); if (!s) j.eq(!f, "no solution, but " + vstr(best) + " is one"); else { Vec g(s, s + n); j.eq(f, "solution " + vstr(g) + " of an empty set"); if (f) j.eq(g == best, "minimum " + vstr(g) + ", expected " + vstr(best)); free(s); }
  j.o.add(f ? "lexmin_solved" : "lexmin_none"); pluto_constraints_free(c);
}
void op_glpk(J &j) {
  Rng &r = j.r; int n = r.in(1, 4), B = n <= 2 ? 6 : n == 3 ? 4 : 3; List l = {gen_sys(r, n, r.in(0, 4), 20, true, B)}; PlutoConstraints *c = mk(r, l); PlutoMatrix *ob = pluto_matrix_alloc(1, n, C); Vec ov; for (int k = 0; k < n; k++) { ob->val[0][k] = r.in(0, 20); ov.push_back(ob->val[0][k]); } j.ctx = stext(l) + " minimizing " + vstr(ov); bool f = false; i64 best = 0;
  box(n, B, [&](const Vec &x) { for (i64 v : x) if (v < 0) return true; if (in(l, x)) { i64 z = 0; for (int k = 0; k < n; k++) z += ov[k] * x[k]; if (!f || z < best) f = true, best = z; } return true; });
  C->options->lp = 0; C->options->ilp = 1; i64 *s = (i64 *)pluto_prog_constraints_lexmin_glpk(c, ob, nullptr, nullptr, 0, 0); if (!s) j.eq(!f, "no solution, but there is one"); else { Vec g(s, s + n); j.eq(in(l, g) && *std::min_element(g.begin(), g.end()) >= 0, "solution " + vstr(g) + " is not feasible"); i64 z = 0; for (int k = 0; k < n; k++) z += ov[k] * g[k]; if (f) j.eq(z == best, "objective " + std::to_string(z) + ", the minimum is " + std::to_string(best)); free(s); }
  j.op = "set-glpk-fcg"; double *d = pluto_fcg_constraints_lexmin_glpk(c, ob); if (!d) j.eq(!f, "no solution, but there is one"); else { double z = 0; for (int k = 0; k < n; k++) z += ov[k] * d[k]; if (f) j.eq(z < best + 1e-4 && z > best - 1e-4, "objective " + std::to_string(z) + ", the minimum is " + std::to_string(best)); free(d); }
  C->options->ilp = 0; pluto_matrix_free(ob); pluto_constraints_free(c);
}
void op_elim(J &j) {
  Rng &r = j.r; int n = r.in(2, 4); int how = r.in(0, 2); List l = {gen_sys(r, n, r.in(1, 6), how == 2 ? 60 : 25, false, 0)}; int p = r.in(0, n - 1);
  if (how == 2) { bool ok = false; for (auto &w : l[0].rows) if (w.eq && w.c[p]) ok = true; if (!ok) { Row w; w.eq = true; w.c.assign(n + 1, 0); for (int k = 0; k <= n; k++) w.c[k] = r.in(-3, 3); if (!w.c[p]) w.c[p] = r.pct(50) ? 2 : -3; l[0].rows.insert(l[0].rows.begin() + r.in(0, (int)l[0].rows.size()), w); } }
  bool two = how == 0 && r.pct(30); if (two) l.push_back(gen_sys(r, n, r.in(1, 5), 25, false, 0));
  j.ctx = stext(l) + " variable " + std::to_string(p); PlutoConstraints *c = mk(r, l); bool nm = how != 1 && r.pct(30); vector<string> ns = gen_names(r, n); if (nm) name(c, ns);
  static const char *hn[] = {"fourier_motzkin", "fourier_motzkin_smart", "gaussian_eliminate"}; j.op = string("set-") + hn[how]; if (how == 0) fourier_motzkin_eliminate(c, p); else if (how == 1) fourier_motzkin_eliminate_smart(c, p); else pluto_constraints_gaussian_eliminate(c, p);
  List g = rd(c); if (g.size() != l.size() || g[0].n != n - 1) { j.bad("shape"); pluto_constraints_free(c); return; }
  for (i64 d = 1; d <= 3; d++) box(n - 1, n - 1 <= 2 ? 9 : 4, [&](const Vec &x) { for (size_t k = 0; k < l.size(); k++) { bool w = fiber(l[k], p, x, d), q = in1(g[k], x, d); j.o.add("points"); if (w != q) { j.bad("projection " + string(w ? "lacks " : "contains ") + vstr(x) + "/" + std::to_string(d)); return false; } } return true; });
  pluto_constraints_free(c);
}
void op_project(J &j) {
  Rng &r = j.r; int n = r.in(2, 4); bool b0 = r.pct(70); List l = gen_list(r, n, 1, b0, 4, 20); vector<bool> bx = {b0, true}; int num = r.in(1, std::min(2, n - 1)), st = r.in(0, n - num); int pk = r.in(0, &pluto_constraints_project_out_isl ? 2 : 1); bool islp = pk == 0; if (!islp && r.pct(40)) l.push_back(gen_sys(r, n, r.in(1, 4), 20, true, 4)); j.ctx = stext(l) + " dims " + std::to_string(st) + "+" + std::to_string(num); j.op = islp ? "set-project_out_isl_single" : pk == 1 ? "set-project_out" : "set-project_out_isl";
  PlutoConstraints *c = mk(r, l); if (islp) pluto_constraints_project_out_isl_single(&c, st, num); else if (pk == 1) pluto_constraints_project_out(c, st, num); else pluto_constraints_project_out_isl(c, st, num); List g = rd(c);
  if (g.empty() || g[0].n != n - num || (pk != 2 && g.size() != l.size())) { j.bad("shape"); pluto_constraints_free(c); return; }
  // isl drops divs: an overapproximation unless the coefficients are units
  bool unit = num == 1; for (auto &s : l) for (auto &w : s.rows) if (absl(w.c[st]) > 1) unit = false;
  if (pk == 2) { // the elements need not correspond one to one
    box(n, span(n), [&](const Vec &x) { if (in(l, x)) { Vec y = x; y.erase(y.begin() + st, y.begin() + st + num); j.o.add("points_in"); if (!in(g, y)) { j.bad("the projection of " + vstr(x) + " is missing"); return false; } } return true; });
    if (num == 1 && unit) box(n - 1, span(n - 1), [&](const Vec &x) { bool w = false; for (auto &s : l) w = w || fiber(s, st, x, 1); j.o.add("points"); if (in(g, x) && !w) { j.bad("the projection contains " + vstr(x)); return false; } return true; });
    pluto_constraints_free(c); return; }
  box(n, span(n), [&](const Vec &x) { for (size_t k = 0; k < l.size(); k++) if (in1(l[k], x)) { Vec y = x; y.erase(y.begin() + st, y.begin() + st + num); j.o.add("points_in"); if (!in1(g[k], y)) { j.bad("the projection of " + vstr(x) + " is missing"); return false; } } return true; });
  if (islp && !unit) ;
  else if (num == 1) box(n - 1, span(n - 1), [&](const Vec &x) { for (size_t k = 0; k < l.size(); k++) if (in1(g[k], x) && !fiber(l[k], st, x, 1)) { j.bad("the projection contains " + vstr(x)); return false; } return true; });
  else box(n - 2, n - 2 == 1 ? 6 : 3, [&](const Vec &x) { for (size_t k = 0; k < l.size(); k++) if (bx[k]) {
      Sys f; f.n = 2; for (auto &w : l[k].rows) { Row q; q.eq = w.eq; q.c = {w.c[st], w.c[st + 1], w.c[n]}; for (int a = 0, b = 0; a < n; a++) if (a < st || a > st + 1) q.c[2] += w.c[a] * x[b++]; f.rows.push_back(q); }
      bool w = !vertices(f).empty(); j.o.add("points"); if (in1(g[k], x) && !w) { j.bad("the projection contains " + vstr(x)); return false; } } return true; });
  pluto_constraints_free(c);
}
void op_image(J &j) {
  Rng &r = j.r; int n = r.in(1, 3); List l = {gen_sys(r, n, r.in(0, 4), 20, true, 3)}; vector<Vec> M(n, Vec(n, 0)), I = M; for (int k = 0; k < n; k++) M[k][k] = I[k][k] = 1; Vec t(n); for (auto &v : t) v = r.in(-2, 2);
  for (int k = r.in(0, 3); k > 0 && n > 1; k--) { int a = r.in(0, n - 1), b = r.in(0, n - 1); if (a == b) continue; int f = r.in(-1, 1); for (int q = 0; q < n; q++) M[a][q] += f * M[b][q]; for (int q = 0; q < n; q++) I[q][b] -= f * I[q][a]; }
  PlutoMatrix *f = pluto_matrix_alloc(n + 1, n + 1, C); pluto_matrix_set(f, 0); for (int a = 0; a < n; a++) { for (int b = 0; b < n; b++) f->val[a][b] = M[a][b]; f->val[a][n] = t[a]; } f->val[n][n] = 1; j.ctx = stext(l);
  PlutoConstraints *c = mk(r, l), *g = pluto_constraints_image(c, f); List G = rd(g); j.eq(G.size() == 1 && G[0].n == n, "shape");
  if (G.size() == 1 && G[0].n == n) j.sets(n, [&](const Vec &y) { return in(G, y); }, [&](const Vec &y) { Vec x(n, 0); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) x[a] += I[a][b] * (y[b] - t[b]); return in(l, x); });
  pluto_matrix_free(f); pluto_constraints_free(c); pluto_constraints_free(g);
}
void op_bounds(J &j) {
  Rng &r = j.r; int n = r.in(1, 3); List l = gen_list(r, n, 2, r.pct(80), 5, 25); int p = r.in(0, n - 1); j.ctx = stext(l) + " variable " + std::to_string(p); vector<vector<Vx>> vs; for (auto &s : l) { bool boxed = true; for (int k = 0; k < n; k++) for (int sg : {1, -1}) { bool f = false; for (auto &w : s.rows) { Vec e(n + 1, 0); e[k] = sg; e[n] = 5; if (w.c == e) f = true; } if (!f) boxed = false; } if (!boxed) return; vs.push_back(vertices(s)); if (vs.back().empty()) return; }
  PlutoConstraints *c = mk(r, l); for (int up = 0; up < 2; up++) { i64 b = 0; int64_t bb = 0; int ok = up ? pluto_constraints_get_const_ub(c, p, &bb) : pluto_constraints_get_const_lb(c, p, &bb); b = bb; j.op = up ? "set-get_const_ub" : "set-get_const_lb";
    vector<i64> e; for (auto &v : vs) { bool f = false; i64 m = 0; for (auto &x : v) { i64 a = x.x[p], d = x.d; i64 fl = a >= 0 ? a / d : -((-a + d - 1) / d), q = up ? fl : (fl * d == a ? fl : fl + 1); if (!f || (up ? q > m : q < m)) m = q, f = true; } e.push_back(m); }
    bool all = std::all_of(e.begin(), e.end(), [&](i64 v) { return v == e[0]; }); j.o.add("bounds"); if (all) j.eq(ok && b == e[0], "reported " + (ok ? std::to_string(b) : string("none")) + ", the bound is " + std::to_string(e[0])); else j.eq(!ok, "a single bound reported for a union with several"); }
  pluto_constraints_free(c);
}
void op_islconv(J &j) {
  Rng &r = j.r; isl_ctx *ctx = isl_ctx_alloc(); int n = r.in(1, 4); List l = gen_list(r, n, 3, false, 0); bool huge = r.pct(20); if (huge) for (auto &s : l) if (!s.rows.empty()) { for (auto &w : s.rows) w.eq = false; Row &w = s.rows[r.in(0, (int)s.rows.size() - 1)]; w.eq = r.pct(50); w.c[r.in(0, n - 1)] = big(r); w.c[n] = 0; } j.ctx = stext(l); PlutoConstraints *c = mk(r, l); int how = r.in(0, 3);
  if (how == 0) { j.op = "set-isl_set"; isl_set *s = isl_set_from_pluto_constraints(c, ctx); PlutoConstraints *d = isl_set_to_pluto_constraints(s, C); isl_set_free(s); j.lists(rd(d), l, n); pluto_constraints_free(d); }
  else if (how == 1) { j.op = "set-isl_basic_set"; isl_basic_set *s = isl_basic_set_from_pluto_constraints(ctx, c); PlutoConstraints *d = isl_basic_set_to_pluto_constraints(s, C); isl_basic_set_free(s); List g = rd(d); j.eq(g.size() == 1, "more than one element"); j.lists(g, {l[0]}, n); pluto_constraints_free(d); }
  else if (how == 2) { // columns [range | domain | parameters]
    j.op = "set-isl_basic_map"; int a = r.in(0, n), b = r.in(0, n - a), p = n - a - b; isl_basic_map *m = isl_basic_map_from_pluto_constraints(ctx, c, a, b, p);
    if (isl_basic_map_dim(m, isl_dim_in) != a || isl_basic_map_dim(m, isl_dim_out) != b || isl_basic_map_dim(m, isl_dim_param) != p) j.bad("dimensions of the map");
    else { PlutoConstraints *d = isl_basic_map_to_pluto_constraints(m, C); List g = rd(d); if (g[0].n != n) j.bad("dimensions"); else j.sets(n, [&](const Vec &x) { Vec y(x.begin() + b, x.begin() + b + a); y.insert(y.end(), x.begin(), x.begin() + b); y.insert(y.end(), x.begin() + a + b, x.end()); return in(g, y); }, [&](const Vec &x) { return in1(l[0], x); }); pluto_constraints_free(d); }
    isl_basic_map_free(m); }
  else { j.op = "isl-values"; i64 v = r.pct(60) ? big(r) : r.in(-100, 100); if (r.pct(15)) v = INT64_MAX - r.in(0, 3); if (r.pct(15)) v = INT64_MIN + r.in(0, 3); isl_val *iv = isl_val_int_from_si(ctx, v); j.eq(isl_val_get_num_ll(iv) == v, "value " + std::to_string(v) + " changed"); isl_val_free(iv); mpz_t z; mpz_init(z); mpz_set_sll(z, v); j.eq(mpz_get_si(z) == v, "mpz value " + std::to_string(v) + " changed"); mpz_clear(z);
    if (&pluto_matrix_from_isl_mat) { int R = r.in(1, 3), K = r.in(1, 3); isl_mat *m = isl_mat_alloc(ctx, R, K); vector<i64> e; for (int a = 0; a < R; a++) for (int b = 0; b < K; b++) { i64 q = r.pct(30) ? big(r) : r.in(-9, 9); e.push_back(q); m = isl_mat_set_element_val(m, a, b, isl_val_int_from_si(ctx, q)); } PlutoMatrix *pm = pluto_matrix_from_isl_mat(m, C); for (int a = 0; a < R; a++) for (int b = 0; b < K; b++) j.eq(pm->val[a][b] == e[a * K + b], "matrix entry changed"); pluto_matrix_free(pm); isl_mat_free(m); } }
  j.eq(same(rd(c), l), "argument changed"); pluto_constraints_free(c); isl_ctx_free(ctx);
}
void op_matconv(J &j) {
  Rng &r = j.r; int n = r.in(1, 4); List l = {gen_sys(r, n, r.in(1, 5), 30, false, 0)}; if (r.pct(30)) l[0].rows[0].c[0] = big(r); j.ctx = stext(l); PlutoConstraints *c = mk(r, l); PlutoMatrix *m = pluto_constraints_to_matrix(c); PlutoConstraints *d = pluto_constraints_from_matrix(m); j.op = "set-matrix"; j.eq(same(rd(d), l), "round trip: " + stext(rd(d))); pluto_constraints_free(d);
  PlutoMatrix *pm = pluto_matrix_alloc(c->nrows, c->ncols + 1, C); pluto_constraints_to_pip_matrix(c, pm); j.op = "set-pip_matrix"; j.eq(are_pluto_matrices_equal(pm, m), "differs from the polylib form"); pluto_matrix_free(pm); pluto_matrix_free(m);
  PlutoMatrix *q = pluto_matrix_alloc(c->nrows, c->ncols, C); vector<int> e; Sys eq = l[0], ne = l[0], only; only.n = n; for (unsigned i = 0; i < c->nrows; i++) { e.push_back(l[0].rows[i].eq); eq.rows[i].eq = true; ne.rows[i].eq = false; if (l[0].rows[i].eq) only.rows.push_back(l[0].rows[i]); for (unsigned k = 0; k < c->ncols; k++) q->val[i][k] = c->val[i][k]; }
  j.op = "set-mixed_matrix"; d = pluto_constraints_from_mixed_matrix(q, e.data()); j.eq(same(rd(d), l), "differs"); pluto_constraints_free(d); j.op = "set-from_equalities"; d = pluto_constraints_from_equalities(q); j.eq(same(rd(d), {eq}), "differs"); pluto_constraints_free(d); j.op = "set-from_inequalities"; d = pluto_constraints_from_inequalities(q); j.eq(same(rd(d), {ne}), "differs"); pluto_constraints_free(d);
  j.op = "set-extract_equalities"; PlutoMatrix *x = pluto_constraints_extract_equalities(c); j.eq(x->nrows == only.rows.size(), "number of equalities"); for (unsigned i = 0; i < x->nrows && i < only.rows.size(); i++) j.eq(Vec(x->val[i], x->val[i] + x->ncols) == only.rows[i].c, "an equality changed"); pluto_matrix_free(x); pluto_matrix_free(q);
  j.op = "set-read"; FILE *f = tmpfile(); pluto_constraints_print_polylib(f, c); if (r.pct(40)) { fprintf(f, "%d\n", n); for (int k = 0; k < n; k++) fprintf(f, "%s%d\n", r.pct(30) ? "averylongname" : "x", k); } rewind(f); d = pluto_constraints_read(f, C); fclose(f); if (!d) j.bad("not read back"); else { j.eq(same(rd(d), l), "read back " + stext(rd(d))); pluto_constraints_free(d); }
  pluto_constraints_free(c);
}
void op_shift(J &j) {
  Rng &r = j.r; int n = r.in(1, 3); List l = {gen_sys(r, n, r.in(1, 4), 20, false, 0)}; int p = r.in(0, n - 1); PlutoMatrix *f = pluto_matrix_alloc(1, n + 1, C); Vec fv; for (int k = 0; k <= n; k++) { f->val[0][k] = k == p ? 0 : r.in(-2, 2); fv.push_back(f->val[0][k]); } j.ctx = stext(l) + " dim " + std::to_string(p) + " by " + vstr(fv); PlutoConstraints *c = mk(r, l); pluto_constraints_shift_dim(c, p, f); List g = rd(c);
  j.sets(n, [&](const Vec &x) { Vec y = x; y[p] += fv[n]; for (int k = 0; k < n; k++) if (k != p) y[p] += fv[k] * x[k]; return in(g, y); }, [&](const Vec &x) { return in(l, x); }); pluto_matrix_free(f); pluto_constraints_free(c);
}
void op_cand(J &j) { Rng &r = j.r; int n = r.in(1, 5); List l = {gen_sys(r, n, r.in(1, 6), 20, false, 0)}; int m = r.in(1, n); j.ctx = stext(l); PlutoConstraints *c = mk(r, l); int b = pluto_constraints_best_elim_candidate(c, m); j.eq(b >= n - m && b <= n - 1, "candidate " + std::to_string(b) + " is not one of the last " + std::to_string(m) + " variables"); pluto_constraints_free(c); }

// ------------------------------------------------------------ Farkas
void op_farkas(J &j) {
  Rng &r = j.r; int n = r.in(1, 3), m = r.in(1, 3); Sys d = gen_sys(r, n, r.in(0, 3), 25, true, r.in(1, 3)); if (r.pct(25)) { // drop some bounds: an unbounded domain
    size_t k = r.in(0, (int)d.rows.size() - 1); d.rows.erase(d.rows.begin() + k); }
  vector<Vec> phi(n + 1, Vec(m + 1)); for (auto &w : phi) for (auto &v : w) v = r.pct(40) ? 0 : r.in(-2, 2); j.ctx = stext({d}) + " phi"; for (auto &w : phi) j.ctx += vstr(w);
  // vertices and, for unbounded domains, extreme rays: homogenise with y0 >= 0
  Sys h; h.n = n + 1; for (auto &w : d.rows) h.rows.push_back({w.c, w.eq}); for (auto &w : h.rows) w.c.push_back(0); { Row w; w.eq = false; w.c.assign(n + 2, 0); w.c[n] = 1; h.rows.push_back(w); }
  // cone generators within the box |y| <= 1 of the cone: its vertices
  Sys hb = h; for (int k = 0; k <= n; k++) for (int sg : {1, -1}) { Row w; w.eq = false; w.c.assign(n + 2, 0); w.c[k] = sg; w.c[n + 1] = 1; hb.rows.push_back(w); }
  vector<Vx> gen = vertices(hb); bool nonempty = false; for (auto &v : gen) if (v.x[n] > 0) nonempty = true; if (!nonempty) { j.o.add("farkas_empty"); return; }
  Rng r2(r.next()); PlutoConstraints *dom = mk1(r2, d); PlutoMatrix *P = pluto_matrix_alloc(n + 1, m + 1, C); for (int a = 0; a <= n; a++) for (int b = 0; b <= m; b++) P->val[a][b] = phi[a][b];
  PlutoConstraints *res = farkas_lemma_affine(dom, P); List g = rd(res); if (g.size() != 1 || g[0].n != m) { j.bad("shape"); }
  else { uint64_t k = 0, inn = 0; for (i64 dn = 1; dn <= 2; dn++) box(m, m <= 2 ? 6 : 3, [&](const Vec &c) {
      bool want = true; for (auto &v : gen) { i128 z = 0; for (int a = 0; a <= n; a++) { i128 co = (i128)phi[a][m] * dn; for (int b = 0; b < m; b++) co += (i128)phi[a][b] * c[b]; z += co * v.x[a]; } if (z < 0) want = false; }
      k++; inn += want; bool got = in1(g[0], c, dn); if (got != want) { j.bad("coefficients " + vstr(c) + "/" + std::to_string(dn) + (want ? " excluded although the form is non-negative" : " admitted although the form is negative somewhere")); return false; } return true; }); j.o.add("farkas_points", k); j.o.add("farkas_in", inn); }
  j.eq(same(rd(dom), {d}), "domain changed"); pluto_constraints_free(res); pluto_constraints_free(dom); pluto_matrix_free(P);
}

// ------------------------------------------------------------ matrices
typedef vector<Vec> Mat;
string mtext(const Mat &m) { string s = "["; for (auto &w : m) s += vstr(w); return s + "]"; }
Mat gen_mat(Rng &r, int a, int b, int zero = 35, bool huge = false, int mag = 0) { Mat m(a, Vec(b)); for (auto &w : m) for (auto &v : w) v = r.pct(zero) ? 0 : huge && r.pct(30) ? (mag ? r.in(-(1 << mag), 1 << mag) : big(r)) : r.in(-5, 5); if (a > 1 && r.pct(40)) { int x = r.in(0, a - 1), y = r.in(0, a - 1); int f = r.in(-2, 2); if (x != y) for (int k = 0; k < b; k++) m[x][k] = f * m[y][k]; } if (r.pct(25)) for (auto &w : m) w[r.in(0, b - 1) % std::max(1, b)] = 0; if (b > 2 && r.pct(20)) for (auto &w : m) w[0] = w[1] = 0; return m; }
PlutoMatrix *mm(Rng &r, const Mat &m, int cols) { int sr = r.pct(50) ? 0 : r.in(1, 2), sc = r.pct(50) ? 0 : r.in(1, 2); PlutoMatrix *x = pluto_matrix_alloc((int)m.size() + sr, cols + sc, C); x->nrows = m.size(); x->ncols = cols; for (size_t i = 0; i < m.size(); i++) for (int k = 0; k < cols; k++) x->val[i][k] = m[i][k]; return x; }
Mat rm(const PlutoMatrix *x) { Mat m; for (unsigned i = 0; i < x->nrows; i++) m.push_back(Vec(x->val[i], x->val[i] + x->ncols)); return m; }
int rank_of(Mat m0) { vector<vector<i128>> m; for (auto &w : m0) m.push_back(vector<i128>(w.begin(), w.end())); int r = 0, R = (int)m.size(), K = R ? (int)m[0].size() : 0; for (int c = 0; c < K && r < R; c++) { int p = r; while (p < R && m[p][c] == 0) p++; if (p == R) continue; std::swap(m[p], m[r]); for (int q = r + 1; q < R; q++) if (m[q][c] != 0) { i128 f = m[q][c], g = m[r][c]; i128 h = 0; for (int k = c; k < K; k++) { m[q][k] = m[q][k] * g - m[r][k] * f; i128 a = h, b = m[q][k] < 0 ? -m[q][k] : m[q][k]; while (b) { i128 t = a % b; a = b; b = t; } h = a; } if (h > 1) for (int k = c; k < K; k++) m[q][k] /= h; } r++; } return r; }
void op_medit(J &j) {
  Rng &r = j.r; int a = r.in(1, 4), b = r.in(1, 4); Mat m = gen_mat(r, a, b, 30, r.pct(40)); j.ctx = mtext(m); PlutoMatrix *x = mm(r, m, b); Mat w = m; string log; int cols = b;
  for (int k = r.in(1, 7); k > 0; k--) {
    int R = (int)w.size(), h = r.in(0, 12);
    if (h == 0) { int p = r.in(0, R); log += " add_row" + std::to_string(p); pluto_matrix_add_row(x, p); w.insert(w.begin() + p, Vec(cols, 0)); }
    else if (h == 1) { int p = r.in(0, cols); log += " add_col" + std::to_string(p); pluto_matrix_add_col(x, p); for (auto &q : w) q.insert(q.begin() + p, 0); cols++; }
    else if (h == 2 && R > 1) { int p = r.in(0, R - 1); log += " remove_row" + std::to_string(p); pluto_matrix_remove_row(x, p); w.erase(w.begin() + p); }
    else if (h == 3 && cols > 1) { int p = r.in(0, cols - 1); log += " remove_col" + std::to_string(p); pluto_matrix_remove_col(x, p); for (auto &q : w) q.erase(q.begin() + p); cols--; }
    else if (h == 4) { int p = r.in(0, cols - 1), q = r.in(0, cols - 1); log += " interchange_cols"; pluto_matrix_interchange_cols(x, p, q); for (auto &v : w) std::swap(v[p], v[q]); }
    else if (h == 5) { int p = r.in(0, R - 1), q = r.in(0, R - 1); log += " interchange_rows"; pluto_matrix_interchange_rows(x, p, q); std::swap(w[p], w[q]); }
    else if (h == 6) { int p = r.in(0, cols - 1), q = r.in(0, cols - 1); log += " move_col" + std::to_string(p) + ">" + std::to_string(q); pluto_matrix_move_col(x, p, q); for (auto &v : w) { i64 t = v[p]; v.erase(v.begin() + p); v.insert(v.begin() + q, t); } }
    else if (h == 7) { log += " negate"; int p = r.in(0, R - 1); if (r.pct(50)) { pluto_matrix_negate(x); for (auto &v : w) for (auto &q : v) q = -q; } else { pluto_matrix_negate_row(x, p); for (auto &q : w[p]) q = -q; } }
    else if (h == 8) { log += " reverse_rows"; pluto_matrix_reverse_rows(x); std::reverse(w.begin(), w.end()); }
    else if (h == 9) { Mat n = gen_mat(r, r.in(1, 2), cols); PlutoMatrix *y = mm(r, n, cols); log += " add"; pluto_matrix_add(x, y); pluto_matrix_free(y); w.insert(w.end(), n.begin(), n.end()); }
    else if (h == 10) { int p = r.in(0, R - 1); log += " zero_row"; pluto_matrix_zero_row(x, p); w[p].assign(cols, 0); }
    else if (h == 11) { int p = r.in(0, cols - 1); log += " zero_col"; pluto_matrix_zero_col(x, p); for (auto &v : w) v[p] = 0; }
    else if (h == 12) { log += " dup"; PlutoMatrix *y = pluto_matrix_dup(x); pluto_matrix_set(x, 77); pluto_matrix_free(x); x = y; }
  }
  j.eq((int)x->ncols == cols && x->nrows == w.size(), "shape after" + log); if ((int)x->ncols == cols && x->nrows == w.size()) j.eq(rm(x) == w, "after" + log + ": " + mtext(rm(x)) + " expected " + mtext(w));
  PlutoMatrix *y = pluto_matrix_dup(x); j.eq(are_pluto_matrices_equal(x, y), "a copy is not equal"); if (x->nrows && x->ncols) { unsigned p = r.in(0, x->nrows - 1), q = r.in(0, x->ncols - 1); y->val[p][q] += 1ll << r.in(0, 40); j.eq(!are_pluto_matrices_equal(x, y), "different matrices are equal"); } pluto_matrix_free(y);
  FILE *f = tmpfile(); pluto_matrix_print(f, x); rewind(f); PlutoMatrix *z = pluto_matrix_input(f, C); fclose(f); j.eq(are_pluto_matrices_equal(x, z), "printed and read back differently"); pluto_matrix_free(z); pluto_matrix_free(x);
}
void op_product(J &j) {
  Rng &r = j.r; int a = r.in(1, 4), b = r.in(1, 4), c = r.in(1, 4); bool h = r.pct(30); Mat A = gen_mat(r, a, b, 30, h), B = gen_mat(r, b, c, 30, false); j.ctx = mtext(A) + "*" + mtext(B); PlutoMatrix *x = mm(r, A, b), *y = mm(r, B, c), *z = pluto_matrix_product(x, y); Mat w(a, Vec(c, 0)); for (int i = 0; i < a; i++) for (int k = 0; k < c; k++) for (int q = 0; q < b; q++) w[i][k] += A[i][q] * B[q][k];
  j.eq(z->nrows == (unsigned)a && z->ncols == (unsigned)c && rm(z) == w, "product is " + mtext(rm(z))); j.eq(rm(x) == A && rm(y) == B, "argument changed"); int s = r.in(1, 4); PlutoMatrix *i = pluto_matrix_identity(s, C); for (int p = 0; p < s; p++) for (int q = 0; q < s; q++) j.eq(i->val[p][q] == (p == q), "identity"); pluto_matrix_free(i); pluto_matrix_free(x); pluto_matrix_free(y); pluto_matrix_free(z);
}
void op_rank(J &j) {
  Rng &r = j.r; int a = r.in(1, 5), b = r.in(1, 5); Mat A = gen_mat(r, a, b, r.in(20, 70), r.pct(20) && a <= 2, 24); j.ctx = mtext(A); PlutoMatrix *x = mm(r, A, b); int w = rank_of(A); unsigned g = pluto_matrix_get_rank(x); j.eq((int)g == w, "rank " + std::to_string(g) + ", expected " + std::to_string(w)); j.eq(rm(x) == A, "argument changed"); j.o.add("ranks");
  if (!&pluto_matrix_to_row_echelon) { pluto_matrix_free(x); return; }
  j.op = "matrix-row_echelon"; PlutoMatrix *e = pluto_matrix_to_row_echelon(pluto_matrix_dup(x)); Mat E = rm(e); int last = -1; bool ok = true, z = false; for (auto &v : E) { int k = 0; while (k < b && v[k] == 0) k++; if (k == b) { z = true; continue; } if (z || k <= last) ok = false; last = k; } j.eq(ok, "not in echelon form: " + mtext(E)); Mat both = A; both.insert(both.end(), E.begin(), E.end()); j.eq(rank_of(E) == w && rank_of(both) == w, "row space changed: " + mtext(E)); pluto_matrix_free(e); pluto_matrix_free(x);
}
void op_gauss(J &j) {
  Rng &r = j.r; int a = r.in(1, 4), b = r.in(2, 5); Mat A = gen_mat(r, a, b, 35, r.pct(20) && a <= 2, 24); int num = r.in(1, std::min(2, b - 1)), st = r.in(0, b - num); j.ctx = mtext(A) + " columns " + std::to_string(st) + "+" + std::to_string(num); PlutoMatrix *x = mm(r, A, b); gaussian_eliminate(x, st, num); Mat g = rm(x);
  // rows of A u with no component in the eliminated columns: the row space of the result is exactly that
  j.eq((int)x->ncols == b - num, "columns"); Mat sub; for (auto &v : A) sub.push_back(Vec(v.begin() + st, v.begin() + st + num)); int want = rank_of(A) - rank_of(sub); Mat ext; for (auto v : g) { v.insert(v.begin() + st, num, 0); ext.push_back(v); } Mat both = A; both.insert(both.end(), ext.begin(), ext.end()); j.eq((ext.empty() ? 0 : rank_of(ext)) == want, "rank of the result " + mtext(g) + ", expected " + std::to_string(want)); j.eq(rank_of(both) == rank_of(A), "the result is not implied: " + mtext(g)); pluto_matrix_free(x);
}
void op_scalar(J &j) {
  Rng &r = j.r; i64 a = r.pct(30) ? big(r) : r.in(-60, 60), b = r.pct(30) ? big(r) : r.in(-60, 60); if (r.pct(20)) b = a * r.in(-3, 3); if (r.pct(8)) a = 0; if (r.pct(8)) b = 0; j.ctx = std::to_string(a) + " " + std::to_string(b); i64 g = std::gcd(absl(a), absl(b)); j.op = "gcd"; j.eq(gcd(a, b) == g, "gcd is " + std::to_string(gcd(a, b)));
  i128 l = g ? (i128)absl(a) / g * absl(b) : 0; if (l < ((i128)1 << 62)) { j.op = "lcm"; i64 v = lcm(a, b); j.eq(absl(v) == (i64)l && (a < 0 || b < 0 || v >= 0), "lcm is " + std::to_string(v)); }
  int n = r.in(1, 4); Vec u, v; for (int k = 0; k < n; k++) { u.push_back(r.in(-2, 2)); v.push_back(r.pct(70) ? u[k] : r.in(-2, 2)); } j.op = "min_lexical"; int64_t *p = min_lexical((int64_t *)u.data(), (int64_t *)v.data(), n); j.eq(p == (int64_t *)(v < u ? v.data() : u.data()) || u == v, "wrong vector");
  // parallel and normal vectors
  Mat m = gen_mat(r, 2, n, 30, r.pct(25)); if (r.pct(50)) { int f = r.in(-3, 3); for (int k = 0; k < n; k++) m[1][k] = f * m[0][k]; } j.ctx = mtext(m); PlutoMatrix *x = mm(r, m, n); bool z0 = true, z1 = true; for (int k = 0; k < n; k++) { if (m[0][k]) z0 = false; if (m[1][k]) z1 = false; } j.op = "vector_is_parallel"; if (!z0 && !z1) j.eq((pluto_vector_is_parallel(x, 0, x, 1) != 0) == (rank_of(m) == 1), "wrong");
  i128 d = 0; for (int k = 0; k < n; k++) d += (i128)m[0][k] * m[1][k]; if (d < ((i128)1 << 62) && d > -((i128)1 << 62)) { bool fit = true; for (int k = 0; k < n; k++) { i128 q = (i128)m[0][k] * m[1][k]; if (q > ((i128)1 << 60) || q < -((i128)1 << 60)) fit = false; } j.op = "vector_is_normal"; if (fit) j.eq((pluto_vector_is_normal(x, 0, x, 1) != 0) == (d == 0), "wrong"); }
  j.op = "matrix-normalize_row"; int row = r.in(0, 1); pluto_matrix_normalize_row(x, row); for (int q = 0; q < 2; q++) { Vec w = m[q]; i64 gg = 0; for (i64 e : w) gg = std::gcd(gg, absl(e)); if (q == row && gg > 1) for (auto &e : w) e /= gg; Vec got(x->val[q], x->val[q] + n); if (q == row) j.eq(got == w, "row is " + vstr(got) + ", expected " + vstr(w)); else j.eq(got == w, "another row changed"); }
  pluto_matrix_free(x);
}
void op_affine(J &j) {
  Rng &r = j.r; int n = r.in(0, 4); Vec f; for (int k = 0; k <= n; k++) f.push_back(r.pct(30) ? 0 : r.pct(50) ? r.in(-2, 2) : r.pct(80) ? r.in(-200, 200) : big(r)); vector<string> nm; for (int k = 0; k < n; k++) nm.push_back((r.pct(25) ? "iterator_name" : "v") + std::to_string(k)); vector<const char *> p; for (auto &s : nm) p.push_back(s.c_str()); p.push_back(nullptr); bool named = r.pct(70); j.ctx = vstr(f);
  string w; for (int k = 0; k < n; k++) { string v = named ? nm[k] : "x" + std::to_string(k + 1); if (!f[k]) continue; if (f[k] == 1) w += (w.empty() ? "" : "+") + v; else if (f[k] == -1) w += "-" + v; else w += (f[k] > 0 && !w.empty() ? "+" : "") + std::to_string(f[k]) + v; } if (f[n] > 0) w += (w.empty() ? "" : "+") + std::to_string(f[n]); else if (f[n] < 0) w += std::to_string(f[n]); else if (w.empty()) w = "0";
  char *s = pluto_affine_function_sprint((int64_t *)f.data(), n, named ? p.data() : nullptr); j.op = "affine-sprint"; j.eq(w == s, string("text is ") + s + ", expected " + w); free(s);
  char *buf = nullptr; size_t len = 0; FILE *fp = open_memstream(&buf, &len); pluto_affine_function_print(fp, (int64_t *)f.data(), n, named ? p.data() : nullptr); fclose(fp); j.op = "affine-print"; j.eq(w == buf, string("text is ") + buf + ", expected " + w); free(buf); char *q = concat("ab", w.c_str()); j.eq("ab" + w == q, "concat"); free(q);
}
#include "alg_graph.h"
#include "alg_prog.h"
const OpDef P16OPS[] = {{"graph", op_graph}};
const OpDef P25OPS[] = {{"program", op_prog}};
const OpDef P13OPS[] = {{"set-dup", op_dup}, {"set-resize", op_resize}, {"set-add", op_add}, {"set-simplify", op_simplify}, {"set-dims", op_dims}, {"set-rows", op_rows}, {"set-negate", op_negate}, {"set-to_pure_inequalities", op_pureineq}, {"set-bool", op_bool}, {"set-bool", op_bool}, {"set-bool", op_bool}, {"set-is_empty", op_empty}, {"set-lexmin", op_lexmin}, {"set-glpk", op_glpk}, {"set-elim", op_elim}, {"set-elim", op_elim}, {"set-project", op_project}, {"set-image", op_image}, {"set-bounds", op_bounds}, {"set-islconv", op_islconv}, {"set-matconv", op_matconv}, {"set-shift_dim", op_shift}, {"set-best_elim_candidate", op_cand}};
const OpDef P14OPS[] = {{"matrix-edit", op_medit}, {"matrix-product", op_product}, {"matrix-rank", op_rank}, {"matrix-rank", op_rank}, {"matrix-gaussian_eliminate", op_gauss}, {"scalar", op_scalar}, {"affine", op_affine}};
const OpDef P20OPS[] = {{"farkas", op_farkas}};
}
bool is_alg(const string &p) { return p == "P13" || p == "P14" || p == "P16" || p == "P20" || p == "P25"; }
Case gen_alg(const string &prop, uint64_t seed, long k) {
  Case c; c.name = prop + "/algebra"; c.api = "alg"; c.prog = std::to_string(seed * 1000003ull + (uint64_t)k * 7919ull) + "\n"; return c;
}
void judge_alg(const string &prop, const Case &c, Out &o) {
  uint64_t seed = strtoull(c.prog.c_str(), nullptr, 10); Rng top(seed); C = pluto_context_alloc(); C->options->silent = 1; C->options->islsolve = 1;
  const OpDef *ops = prop == "P13" ? P13OPS : prop == "P14" ? P14OPS : prop == "P16" ? P16OPS : prop == "P25" ? P25OPS : P20OPS; int nops = prop == "P13" ? sizeof P13OPS / sizeof *ops : prop == "P14" ? sizeof P14OPS / sizeof *ops : 1;
  int n = prop == "P20" ? 12 : prop == "P16" || prop == "P25" ? 6 : prop == "P13" ? nops : 4 * nops;
  for (int k = 0; k < n; k++) { Rng r(top.next()); const OpDef &d = ops[k % nops]; fprintf(stderr, "op %s\n", d.name); J j{o, r, d.name, ""}; d.f(j); o.add("ops"); o.add(string("op_") + j.op); if (o.v.size() > 6) break; }
  o.shapes.insert(std::to_string(seed)); pluto_context_free(C);
}
