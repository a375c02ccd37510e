#include "scop.h"
#include <algorithm>
#include <cstring>
#include <cctype>
#include <sstream>
#include <set>
using std::string; using std::vector;

// ---------------------------------------------------------------- systems
static i64 fdiv(i64 a, i64 b) { i64 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
static i64 cdiv(i64 a, i64 b) { return -fdiv(-a, b); }
static const i64 INF = (i64)1 << 40;

bool sys_holds(const Sys &s, const Vec &x) {
  for (auto &r : s.rows) {
    __int128 v = r.c[s.n];
    for (int j = 0; j < s.n; j++) v += (__int128)r.c[j] * x[j];
    if (r.eq ? v != 0 : v < 0) return false;
  }
  return true;
}
Sys sys_fix_prefix(const Sys &s, const Vec &p) {
  Sys o; o.n = s.n - (int)p.size();
  for (auto &r : s.rows) {
    Row q; q.eq = r.eq; q.c.assign(r.c.begin() + p.size(), r.c.end());
    for (size_t j = 0; j < p.size(); j++) q.c.back() += r.c[j] * p[j];
    o.rows.push_back(q);
  }
  return o;
}
Sys sys_fix_suffix(const Sys &s, const Vec &p) {
  Sys o; o.n = s.n - (int)p.size();
  for (auto &r : s.rows) {
    Row q; q.eq = r.eq; q.c.assign(r.c.begin(), r.c.begin() + o.n); q.c.push_back(r.c.back());
    for (size_t j = 0; j < p.size(); j++) q.c.back() += r.c[o.n + j] * p[j];
    o.rows.push_back(q);
  }
  return o;
}

struct Enum {
  const Sys &s; const std::function<bool(const Vec &)> &f; size_t cap, cnt = 0, steps = 0;
  Enum(const Sys &s_, const std::function<bool(const Vec &)> &f_, size_t c) : s(s_), f(f_), cap(c) {}
  bool prop(Vec &lo, Vec &hi) {
    for (int iter = 0; iter < 60; iter++) {
      bool ch = false;
      for (auto &r : s.rows) {
        if (++steps > 80000000) throw TooBig("enumeration steps");
        for (int dir = 0; dir < (r.eq ? 2 : 1); dir++) {
          // sum sg*c_j x_j + sg*c0 >= 0
          i64 sg = dir ? -1 : 1; int ninf = 0, infj = -1; __int128 mx = sg * r.c[s.n];
          for (int j = 0; j < s.n; j++) {
            i64 c = sg * r.c[j]; if (!c) continue;
            i64 b = c > 0 ? hi[j] : lo[j];
            if (b >= INF || b <= -INF) { ninf++; infj = j; } else mx += (__int128)c * b;
          }
          if (ninf == 0 && mx < 0) return false;
          if (ninf > 1) continue;
          for (int j = 0; j < s.n; j++) {
            i64 c = sg * r.c[j]; if (!c) continue;
            if (ninf == 1 && j != infj) continue;
            __int128 rest = mx;
            if (ninf == 0) rest -= (__int128)c * (c > 0 ? hi[j] : lo[j]);
            // c*x_j + rest >= 0
            i64 rr = (i64)rest;
            if (c > 0) { i64 l = cdiv(-rr, c); if (l > lo[j]) { lo[j] = l; ch = true; } }
            else { i64 h = fdiv(rr, -c); if (h < hi[j]) { hi[j] = h; ch = true; } }
            if (lo[j] > hi[j]) return false;
          }
        }
      }
      if (!ch) break;
    }
    return true;
  }
  bool rec(Vec lo, Vec hi) {
    if (!prop(lo, hi)) return true;
    int best = -1; i64 bw = 0;
    for (int j = 0; j < s.n; j++) if (lo[j] != hi[j]) { i64 w = hi[j] - lo[j]; if (best < 0 || w < bw) { best = j; bw = w; } }
    if (best < 0) {
      if (!sys_holds(s, lo)) return true;
      if (++cnt > cap) throw TooBig("too many points");
      return f(lo);
    }
    if (bw > 4000) throw TooBig("unbounded");
    for (i64 v = lo[best]; v <= hi[best]; v++) {
      Vec l = lo, h = hi; l[best] = h[best] = v;
      if (!rec(l, h)) return false;
    }
    return true;
  }
};
void sys_points(const Sys &s, const std::function<bool(const Vec &)> &f, size_t cap) {
  Enum e(s, f, cap);
  e.rec(Vec(s.n, -INF), Vec(s.n, INF));
}

// ---------------------------------------------------------------- parser
namespace {
struct P {
  const string &t; size_t p = 0;
  Scop sc;
  vector<string> its;                       // open iterators
  vector<vector<Row>> dom{vector<Row>()};   // rows over (iters open at push time; sparse by name)
  struct SRow { std::map<string, i64> c; i64 k = 0; bool eq = false; };
  vector<vector<SRow>> sdom{vector<SRow>()};
  vector<i64> beta{0};
  explicit P(const string &s) : t(s) {}
  [[noreturn]] void err(const string &m) { throw std::runtime_error("program text: " + m + " at " + std::to_string(p) + ": " + t.substr(p, 30)); }
  void ws() { for (;;) { while (p < t.size() && isspace((unsigned char)t[p])) p++; if (p < t.size() && t[p] == '#') { while (p < t.size() && t[p] != '\n') p++; } else break; } }
  bool eat(const char *s) { ws(); size_t n = strlen(s); if (t.compare(p, n, s) == 0) { if (isalpha((unsigned char)s[0]) && p + n < t.size() && (isalnum((unsigned char)t[p + n]) || t[p + n] == '_')) return false; p += n; return true; } return false; }
  void need(const char *s) { if (!eat(s)) err(string("expected ") + s); }
  bool isid() { ws(); return p < t.size() && (isalpha((unsigned char)t[p]) || t[p] == '_'); }
  string id() { ws(); size_t q = p; while (p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_')) p++; if (q == p) err("identifier"); return t.substr(q, p - q); }
  SRow aff() {
    SRow r; i64 sg = 1; bool first = true;
    for (;;) {
      ws();
      if (eat("-")) sg = -1; else if (eat("+")) sg = 1; else if (!first) break; else sg = 1;
      first = false; ws();
      if (isdigit((unsigned char)t[p])) {
        i64 v = 0; while (p < t.size() && isdigit((unsigned char)t[p])) v = v * 10 + (t[p++] - '0');
        if (p < t.size() && isalpha((unsigned char)t[p])) r.c[id()] += sg * v; else if (eat("*")) r.c[id()] += sg * v; else r.k += sg * v;
      } else r.c[id()] += sg;
    }
    return r;
  }
  static SRow sub(const SRow &a, const SRow &b) { SRow r = a; for (auto &x : b.c) r.c[x.first] -= x.second; r.k -= b.k; return r; }
  Vec dense(const SRow &r) {
    size_t n = its.size(), np = sc.params.size(); Vec v(n + np + 1, 0);
    for (auto &x : r.c) { if (!x.second) continue; bool ok = false;
      for (size_t j = 0; j < n; j++) if (its[j] == x.first) { v[j] = x.second; ok = true; }
      for (size_t j = 0; j < np; j++) if (sc.params[j] == x.first) { v[n + j] = x.second; ok = true; }
      if (!ok) err("unknown name " + x.first); }
    v[n + np] = r.k; return v;
  }
  SRow cond() {
    SRow a = aff(); SRow r;
    if (eat(">=")) r = sub(a, aff()); else if (eat("<=")) r = sub(aff(), a);
    else if (eat("==")) { r = sub(a, aff()); r.eq = true; }
    else if (eat(">")) { r = sub(a, aff()); r.k--; } else if (eat("<")) { r = sub(aff(), a); r.k--; } else err("comparison");
    return r;
  }
  Acc acc() { Acc a; a.arr = id(); while (eat("[")) { a.rows.push_back(dense(aff())); need("]"); } return a; }
  void item() {
    if (eat("for")) {
      string v = id(); need("=");
      vector<SRow> lo{aff()}; while (eat(",")) lo.push_back(aff());
      need(".."); vector<SRow> hi{aff()}; while (eat(",")) hi.push_back(aff());
      auto save = sdom; auto sits = its; its.push_back(v);
      SRow me; me.c[v] = 1;
      for (auto &d : sdom) { for (auto &l : lo) d.push_back(sub(me, l)); for (auto &h : hi) d.push_back(sub(h, me)); }
      beta.push_back(0);
      if (eat("{")) { while (!eat("}")) item(); } else item();
      beta.pop_back(); beta.back()++;
      sdom = save; its = sits;
    } else if (eat("if")) {
      need("("); vector<vector<SRow>> g{{}};
      for (;;) { g.back().push_back(cond()); if (eat("&")) continue; if (eat("|")) { g.push_back({}); continue; } break; }
      need(")");
      auto save = sdom; vector<vector<SRow>> nd;
      for (auto &d : sdom) for (auto &c : g) { auto x = d; x.insert(x.end(), c.begin(), c.end()); nd.push_back(x); }
      sdom = nd;
      if (eat("{")) { while (!eat("}")) item(); } else item();
      sdom = save;
    } else {
      St s; s.dim = (int)its.size(); s.iters = its; s.beta = beta;
      if (eat("nop")) {} else { s.haswrite = true; s.write = acc(); }
      if (eat("=")) { ws(); if (t[p] != ';') { s.reads.push_back(acc()); while (eat(",")) s.reads.push_back(acc()); } }
      need(";");
      for (auto &d : sdom) { vector<Row> rr; for (auto &r : d) rr.push_back(Row{dense(r), r.eq}); s.dom.push_back(rr); }
      sc.st.push_back(s); beta.back()++;
    }
  }
};
} // namespace

Scop scop_parse(const string &text) {
  P p(text); p.sc.text = text;
  if (p.eat("params")) { while (!p.eat(";")) { p.eat(","); p.sc.params.push_back(p.id()); } }
  for (;;) { p.ws(); if (p.p >= text.size()) break; p.item(); }
  return p.sc;
}

// ---------------------------------------------------------------- isl text
static string affstr(const Vec &v, const vector<string> &its, const vector<string> &ps) {
  std::ostringstream o; bool any = false;
  auto term = [&](i64 c, const string &n) { if (!c) return; if (any) o << (c < 0 ? " - " : " + "); else if (c < 0) o << "-"; i64 a = c < 0 ? -c : c; if (a != 1) o << a << "*"; o << n; any = true; };
  for (size_t j = 0; j < its.size(); j++) term(v[j], its[j]);
  for (size_t j = 0; j < ps.size(); j++) term(v[its.size() + j], ps[j]);
  i64 k = v.back();
  if (k || !any) { if (any) o << (k < 0 ? " - " : " + ") << (k < 0 ? -k : k); else o << k; }
  return o.str();
}
static string itlist(const St &s) { string r = "["; for (int j = 0; j < s.dim; j++) { if (j) r += ","; r += s.iters[j]; } return r + "]"; }
static string parlist(const Scop &s) { string r = "["; for (size_t j = 0; j < s.np(); j++) { if (j) r += ","; r += s.params[j]; } return r + "] -> "; }
static string domcond(const Scop &sc, const St &s, const string &ctx = "") {
  string r;
  for (size_t d = 0; d < s.dom.size(); d++) {
    if (d) r += " or ";
    string c;
    for (auto &row : s.dom[d]) { if (!c.empty()) c += " and "; c += affstr(row.c, s.iters, sc.params) + (row.eq ? " = 0" : " >= 0"); }
    if (!ctx.empty()) { if (!c.empty()) c += " and "; c += ctx; }
    if (c.empty()) c = "0 = 0";
    r += "(" + c + ")";
  }
  return r;
}
string isl_domains(const Scop &s, const string &ctx) {
  string r = parlist(s) + "{ ";
  for (size_t i = 0; i < s.st.size(); i++) { if (i) r += "; "; r += "S_" + std::to_string(i) + itlist(s.st[i]) + " : " + domcond(s, s.st[i], ctx); }
  return r + " }";
}
string isl_schedule(const Scop &s) {
  string r = parlist(s) + "{ "; size_t m = 2 * s.maxdim() + 1;
  for (size_t i = 0; i < s.st.size(); i++) {
    const St &t = s.st[i]; if (i) r += "; ";
    r += "S_" + std::to_string(i) + itlist(t) + " -> [";
    for (size_t k = 0; k < m; k++) { if (k) r += ","; if (k > 2 * (size_t)t.dim) r += "0"; else if (k % 2) r += t.iters[k / 2]; else r += std::to_string(t.beta[k / 2]); }
    r += "] : " + domcond(s, t);
  }
  return r + " }";
}
string isl_accesses(const Scop &s, bool writes) {
  string r = parlist(s) + "{ "; bool any = false;
  for (size_t i = 0; i < s.st.size(); i++) {
    const St &t = s.st[i]; vector<Acc> as; if (writes) { if (t.haswrite) as.push_back(t.write); } else as = t.reads;
    for (auto &a : as) { if (any) r += "; "; any = true; r += "S_" + std::to_string(i) + itlist(t) + " -> " + a.arr + "[";
      for (size_t k = 0; k < a.rows.size(); k++) { if (k) r += ","; r += affstr(a.rows[k], t.iters, s.params); }
      r += "] : " + domcond(s, t); }
  }
  return r + " }";
}

// ---------------------------------------------------------------- execution
static i64 dot(const Vec &c, const Vec &it, const Vec &par) {
  i64 v = c.back(); for (size_t j = 0; j < it.size(); j++) v += c[j] * it[j];
  for (size_t j = 0; j < par.size(); j++) v += c[it.size() + j] * par[j]; return v;
}
static std::pair<string, Vec> cell(const Acc &a, const Vec &it, const Vec &par) {
  Vec x; for (auto &r : a.rows) x.push_back(dot(r, it, par)); return {a.arr, x};
}
Trace scop_trace(const Scop &sc, const Vec &par, size_t instcap, size_t depcap) {
  Trace t; t.params = par;
  struct K { Vec key; Inst in; }; vector<K> ks; size_t m = 2 * sc.maxdim() + 1;
  for (size_t i = 0; i < sc.st.size(); i++) {
    const St &s = sc.st[i]; std::set<Vec> pts;
    for (auto &d : s.dom) {
      Sys y; y.n = s.dim + (int)par.size(); y.rows = d; y = sys_fix_suffix(y, par);
      sys_points(y, [&](const Vec &x) { pts.insert(x); return true; }, instcap);
    }
    for (auto &x : pts) { Vec k(m, 0); for (int j = 0; j <= s.dim; j++) { k[2 * j] = s.beta[j]; if (j < s.dim) k[2 * j + 1] = x[j]; } ks.push_back({k, {(int)i, x}}); }
    if (ks.size() > instcap) throw TooBig("instances");
  }
  std::sort(ks.begin(), ks.end(), [](const K &a, const K &b) { return a.key < b.key; });
  std::map<std::pair<string, Vec>, vector<std::pair<int, bool>>> hist;
  for (auto &k : ks) {
    int id = (int)t.inst.size(); t.inst.push_back(k.in); t.id[{k.in.s, k.in.it}] = id;
    const St &s = sc.st[k.in.s];
    std::map<std::pair<string, Vec>, int> mine; // 1 read, 2 write
    for (auto &a : s.reads) mine[cell(a, k.in.it, par)] |= 1;
    if (s.haswrite) mine[cell(s.write, k.in.it, par)] |= 2;
    for (auto &c : mine) { auto &h = hist[c.first];
      for (auto &e : h) if ((c.second & 2) || e.second) { if (t.dep.size() < depcap) t.dep.push_back({e.first, id}); else t.depcapped = true; }
      h.push_back({id, (c.second & 2) != 0}); }
  }
  std::sort(t.dep.begin(), t.dep.end()); t.dep.erase(std::unique(t.dep.begin(), t.dep.end()), t.dep.end());
  return t;
}
std::map<std::pair<string, Vec>, uint64_t> scop_run(const Scop &sc, const Trace &t, const vector<int> &order, vector<uint64_t> *vals) {
  std::map<std::pair<string, Vec>, uint64_t> mem;
  auto mix = [](uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); };
  auto init = [&](const std::pair<string, Vec> &c) { uint64_t h = 7; for (char ch : c.first) h = mix(h, ch); for (i64 v : c.second) h = mix(h, v); return h; };
  if (vals) vals->assign(t.inst.size(), 0);
  for (int id : order) {
    const Inst &in = t.inst[id]; const St &s = sc.st[in.s]; uint64_t h = mix(11, in.s); for (i64 v : in.it) h = mix(h, v);
    for (auto &a : s.reads) { auto c = cell(a, in.it, t.params); auto f = mem.find(c); h = mix(h, f == mem.end() ? init(c) : f->second); }
    if (s.haswrite) mem[cell(s.write, in.it, t.params)] = h;
    if (vals) (*vals)[id] = h;
  }
  return mem;
}

// ---------------------------------------------------------------- kernels
const vector<Kernel> &kernels() {
  static const vector<Kernel> k = {
    {"matmul", "params N; for i=0..N-1 for j=0..N-1 for k=0..N-1 C[i][j] = C[i][j],A[i][k],B[k][j];", 3, false},
    {"matmul-init", "params N; for i=0..N-1 for j=0..N-1 { C[i][j]=; for k=0..N-1 C[i][j] = C[i][j],A[i][k],B[k][j]; }", 3, false},
    {"2mm", "params N; for i=0..N-1 for j=0..N-1 { T[i][j]=; for k=0..N-1 T[i][j] = T[i][j],A[i][k],B[k][j]; } for i=0..N-1 for j=0..N-1 { D[i][j]=D[i][j]; for k=0..N-1 D[i][j] = D[i][j],T[i][k],C[k][j]; }", 1, false},
    {"jacobi-1d-imper", "params T,N; for t=0..T-1 { for i=2..N-2 b[i]=a[i-1],a[i],a[i+1]; for j=2..N-2 a[j]=b[j]; }", 3, true},
    {"jacobi-1d", "params T,N; for t=1..T for i=1..N-2 a[t][i]=a[t-1][i-1],a[t-1][i],a[t-1][i+1];", 3, true},
    {"jacobi-2d", "params T,N; for t=1..T for i=1..N-2 for j=1..N-2 a[t][i][j]=a[t-1][i-1][j],a[t-1][i][j],a[t-1][i+1][j],a[t-1][i][j-1],a[t-1][i][j+1];", 2, true},
    {"heat-1d-mod", "params T,N; for t=1..T for i=0..N-1 a[t][i]=a[t-1][i-1],a[t-1][i],a[t-1][i+1];", 2, true},
    {"heat-2d", "params T,N; for t=1..T for i=0..N-1 for j=0..N-1 a[t][i][j]=a[t-1][i-1][j],a[t-1][i][j],a[t-1][i+1][j],a[t-1][i][j-1],a[t-1][i][j+1],a[t-1][i+1][j+1];", 1, true},
    {"seidel-1d", "params T,N; for t=0..T-1 for i=1..N-2 a[i]=a[i-1],a[i],a[i+1];", 3, false},
    {"seidel-2d", "params T,N; for t=0..T-1 for i=1..N-2 for j=1..N-2 a[i][j]=a[i-1][j-1],a[i-1][j],a[i-1][j+1],a[i][j-1],a[i][j],a[i][j+1],a[i+1][j-1],a[i+1][j],a[i+1][j+1];", 2, false},
    {"fdtd-1d", "params T,N; for t=1..T { for i=1..N-1 e[i]=e[i],h[i],h[i-1]; for i=0..N-1 h[i]=h[i],e[i+1],e[i]; }", 3, true},
    {"fdtd-2d", "params T,N,M; for t=0..T-1 { for j=0..M-1 ey[0][j]=; for i=1..N-1 for j=0..M-1 ey[i][j]=ey[i][j],hz[i][j],hz[i-1][j]; for i=0..N-1 for j=1..M-1 ex[i][j]=ex[i][j],hz[i][j],hz[i][j-1]; for i=0..N-1 for j=0..M-1 hz[i][j]=hz[i][j],ex[i][j+1],ex[i][j],ey[i+1][j],ey[i][j]; }", 1, false},
    {"lu", "params N; for k=0..N-1 { for j=k+1..N-1 a[k][j]=a[k][j],a[k][k]; for i=k+1..N-1 for j=k+1..N-1 a[i][j]=a[i][j],a[i][k],a[k][j]; }", 3, false},
    {"cholesky", "params N; for i=0..N-1 { for j=0..i-1 { for k=0..j-1 a[i][j]=a[i][j],a[i][k],a[j][k]; a[i][j]=a[i][j],a[j][j]; } for k=0..i-1 a[i][i]=a[i][i],a[i][k]; a[i][i]=a[i][i]; }", 1, false},
    {"trisolv", "params N; for i=0..N-1 { x[i]=b[i]; for j=0..i-1 x[i]=x[i],L[i][j],x[j]; x[i]=x[i],L[i][i]; }", 2, false},
    {"mvt", "params N; for i=0..N-1 for j=0..N-1 x1[i]=x1[i],A[i][j],y1[j]; for i=0..N-1 for j=0..N-1 x2[i]=x2[i],A[j][i],y2[j];", 3, false},
    {"gemver", "params N; for i=0..N-1 for j=0..N-1 A[i][j]=A[i][j],u1[i],v1[j]; for i=0..N-1 for j=0..N-1 x[i]=x[i],A[j][i],y[j]; for i=0..N-1 x[i]=x[i],z[i]; for i=0..N-1 for j=0..N-1 w[i]=w[i],A[i][j],x[j];", 2, false},
    {"atax", "params N,M; for i=0..N-1 y[i]=; for i=0..M-1 { t[i]=; for j=0..N-1 t[i]=t[i],A[i][j],x[j]; for j=0..N-1 y[j]=y[j],A[i][j],t[i]; }", 2, false},
    {"bicg", "params N,M; for i=0..M-1 s[i]=; for i=0..N-1 { q[i]=; for j=0..M-1 { s[j]=s[j],r[i],A[i][j]; q[i]=q[i],A[i][j],p[j]; } }", 2, false},
    {"doitgen", "params N; for r=0..N-1 for q=0..N-1 { for p=0..N-1 { s[p]=; for k=0..N-1 s[p]=s[p],A[r][q][k],C[k][p]; } for p=0..N-1 A[r][q][p]=s[p]; }", 0, false},
    {"floyd", "params N; for k=0..N-1 for i=0..N-1 for j=0..N-1 p[i][j]=p[i][j],p[i][k],p[k][j];", 1, false},
    {"syrk", "params N,M; for i=0..N-1 { for j=0..i C[i][j]=C[i][j]; for k=0..M-1 for j=0..i C[i][j]=C[i][j],A[i][k],A[j][k]; }", 1, false},
    {"trmm", "params N,M; for i=0..M-1 for j=0..N-1 { for k=i+1..M-1 B[i][j]=B[i][j],A[k][i],B[k][j]; B[i][j]=B[i][j]; }", 1, false},
    {"durbin-ish", "params N; for k=1..N-1 { b[k]=b[k-1],a[k-1]; for i=0..k-1 z[k][i]=y[k-1][i],y[k-1][k-i-1],b[k]; for i=0..k-1 y[k][i]=z[k][i]; }", 1, false},
    {"fusion1", "params N; for i=0..N-1 a[i]=x[i]; for i=0..N-1 b[i]=a[i]; for i=0..N-1 c[i]=b[i],a[i];", 3, false},
    {"fusion2-shift", "params N; for i=0..N-1 a[i]=x[i]; for i=1..N-2 b[i]=a[i-1],a[i+1]; for i=2..N-3 c[i]=b[i-1],b[i+1];", 3, false},
    {"fusion3-perm", "params N; for i=0..N-1 for j=0..N-1 a[i][j]=x[i][j]; for i=0..N-1 for j=0..N-1 b[i][j]=a[j][i];", 3, false},
    {"fusion4-rev", "params N; for i=0..N-1 a[i]=x[i]; for i=0..N-1 b[i]=a[N-1-i];", 3, false},
    {"fusion5-dims", "params N; for i=0..N-1 s[i]=x[i]; for i=0..N-1 for j=0..N-1 m[i][j]=s[j],y[i][j]; for i=0..N-1 t[i]=m[i][i];", 3, false},
    {"fusion6-red", "params N; for i=0..N-1 s[0]=s[0],x[i]; for i=0..N-1 y[i]=s[0],x[i];", 3, false},
    {"wavefront", "params N; for i=1..N-1 for j=1..N-1 a[i][j]=a[i-1][j],a[i][j-1];", 3, false},
    {"wave-neg", "params N; for i=1..N-1 for j=0..N-2 a[i][j]=a[i-1][j+1],a[i][j];", 3, false},
    {"pca", "params N; for i=0..N-1 for j=0..N-1 for k=0..N-1 C[i][j]=C[i][j],A[i][k]; for i=0..N-1 for j=0..N-1 for k=0..N-1 E[i][j]=E[i][j],C[k][j];", 1, false},
    {"tce2", "params N; for a=0..N-1 for q=0..N-1 for r=0..N-1 for p=0..N-1 T1[a][q][r]=T1[a][q][r],A[p][q][r],C4[p][a]; for a=0..N-1 for b=0..N-1 for r=0..N-1 for q=0..N-1 T2[a][b][r]=T2[a][b][r],T1[a][q][r],C3[q][b];", 0, false},
    {"dct1", "params N; for i=0..N-1 for j=0..N-1 { t[i][j]=; for k=0..N-1 t[i][j]=t[i][j],c[i][k],b[k][j]; }", 1, false},
    {"polynomial", "params N; for i=0..2N-1 c[i]=; for i=0..N-1 for j=0..N-1 c[i+j]=c[i+j],a[i],b[j];", 3, false},
    {"scalars", "s[0]=; s[1]=s[0]; s[2]=s[0],s[1];", 1, false},
    {"loop-scalar", "params N; q[0]=; for i=0..N-1 { q[0]=q[0],a[i]; b[i]=q[0]; } r[0]=q[0];", 2, false},
    {"guard-union", "params N; for i=0..N-1 for j=0..N-1 if (i+j<=2 | i-j>=2 | j-i>=3) a[i][j]=a[i][j],b[i]; for i=0..N-1 c[i]=a[i][0];", 2, false},
    {"triang-param", "params N,M; for i=0..N-1 for j=i..M-1,2i+3 a[i][j]=a[i][j],a[i][i];", 2, false},
    {"multi-nest-par", "params N; for i=0..N-1 { a[i]=x[i]; for j=0..N-1 { b[i][j]=a[i],y[j]; for k=0..N-1 c[i][j]=c[i][j],b[i][j],z[k]; } }", 2, false},
    {"adi-ish", "params T,N; for t=0..T-1 { for i=0..N-1 for j=1..N-1 X[i][j]=X[i][j],X[i][j-1]; for i=1..N-1 for j=0..N-1 X[i][j]=X[i][j],X[i-1][j]; }", 2, false},
    {"strided-acc", "params N; for i=0..N-1 a[2i]=b[i]; for i=0..N-1 c[i]=a[i];", 2, false},
    {"mod-dep", "params N; for i=0..2N-1 a[i]=x[i]; for i=0..N-1 b[i]=a[2i],a[2i+1];", 2, false},
  };
  return k;
}

// ---------------------------------------------------------------- random programs
static const char *ITN[] = {"i", "j", "k", "l"};
namespace {
struct Gen {
  Rng &r; GenCfg g; std::ostringstream o; int nst = 0; vector<string> its; vector<string> ps; vector<std::pair<string, int>> arrs;
  Gen(Rng &r_, const GenCfg &g_) : r(r_), g(g_) {}
  string off(int lo, int hi) { int v = r.in(lo, hi); if (!v) return ""; return (v > 0 ? "+" : "-") + std::to_string(v < 0 ? -v : v); }
  string sub() {
    if (its.empty()) return std::to_string(r.in(0, 1));
    int c = r.in(0, 99); string a = r.pick(its);
    if (c < 62) return a + (r.pct(55) ? "" : off(-2, 2));
    if (c < 72) return its.back() + off(-1, 1);
    if (c < 80) { string b = r.pick(its); return a + (r.pct(50) ? "+" : "-") + b; }
    if (c < 84) return "2" + a + off(0, 1);
    if (c < 84 + g.paramAcc && !ps.empty()) return r.pct(70) ? r.pick(ps) + "-1-" + a : a + "+" + r.pick(ps);
    return std::to_string(r.in(0, 1));
  }
  string acc() { auto &a = r.pick(arrs); string s = a.first; for (int k = 0; k < a.second; k++) s += "[" + sub() + "]"; if (a.second == 0) s += "[0]"; return s; }
  // identity-style access of current nest
  string idacc() { auto &a = r.pick(arrs); string s = a.first; if (!a.second) return s + "[0]"; for (int k = 0; k < a.second; k++) { if (its.empty()) s += "[0]"; else s += "[" + its[std::min((size_t)k, its.size() - 1)] + (r.pct(75) ? "" : off(-1, 1)) + "]"; } return s; }
  void stmt() {
    nst++; bool guard = r.pct(8) && !its.empty(), un = !guard && r.pct(g.unions) && !its.empty();
    if (guard) { string a = r.pick(its); if (its.size() > 1 && r.pct(50)) { string b = r.pick(its); o << "if (" << a << (r.pct(50) ? "<=" : ">=") << b << off(-1, 1) << ") "; } else o << "if (" << a << (r.pct(40) ? "==" : ">=") << r.in(0, 2) << ") "; }
    if (un) { string a = r.pick(its), b = r.pick(its); o << "if (" << a << "<=" << r.in(0, 1) << " | " << b << ">=" << r.in(2, 3); if (r.pct(40)) o << " | " << a << ">=" << r.in(4, 5); o << ") "; }
    o << (r.pct(60) ? idacc() : acc()) << "=";
    int n = r.in(0, 3); for (int k = 0; k < n; k++) { if (k) o << ","; o << (r.pct(40) ? idacc() : acc()); }
    o << ";\n";
  }
  void block(int depth, int budget) {
    int items = r.in(1, depth == 0 ? 3 : 2);
    for (int x = 0; x < items && nst < g.maxstmt && budget > 0; x++) {
      if (depth < g.maxdepth && (depth == 0 ? r.pct(94) : r.pct(60))) {
        string v = ITN[depth]; o << "for " << v << "=";
        if (!its.empty() && r.pct(22)) o << r.pick(its) << off(0, 1); else o << r.in(0, 2);
        o << " .. ";
        int c = r.in(0, 99);
        if (!its.empty() && c < 18) o << r.pick(its) << off(-1, 2); else if (ps.empty() || c < 24) o << r.in(2, 4); else if (!its.empty() && c < 32) o << r.pick(ps) << "-1," << r.pick(its) << "+2"; else o << r.pick(ps) << "-" << r.in(1, 2);
        o << " {\n"; its.push_back(v);
        int before = nst; block(depth + 1, budget - 1); if (nst == before) stmt();
        its.pop_back(); o << "}\n";
      } else stmt();
    }
  }
};
} // namespace
string gen_random(Rng &r, const GenCfg &g) {
  Gen G(r, g); int np = r.pct(12) ? 0 : r.in(1, 2); if (np) { G.o << "params N"; G.ps.push_back("N"); if (np > 1) { G.o << ",M"; G.ps.push_back("M"); } G.o << ";\n"; }
  int na = r.in(1, 3); const char *AN[] = {"A", "B", "C"}; for (int k = 0; k < na; k++) { int c = r.in(0, 99); G.arrs.push_back({AN[k], c < 6 ? 0 : c < 45 ? 1 : c < 90 ? 2 : 3}); }
  G.block(0, g.maxdepth + 1); if (!G.nst) G.stmt();
  return G.o.str();
}
// Full-dimensional arrays, uniform (constant-distance) flow dependences only.
string gen_uniform(Rng &r, int maxdepth) {
  int d = r.in(1, maxdepth), ns = d < 3 ? r.in(1, 3) : r.in(1, 2); std::ostringstream o; o << "params N;\n"; bool fused = r.pct(60);
  auto open = [&] { for (int k = 0; k < d; k++) o << "for " << ITN[k] << "=" << r.in(0, 1) << "..N-" << r.in(1, 2) << " {\n"; };
  auto close = [&] { for (int k = 0; k < d; k++) o << "}"; o << "\n"; };
  if (fused) open();
  for (int s = 0; s < ns; s++) {
    if (!fused) open();
    o << "A" << s << ""; for (int k = 0; k < d; k++) o << "[" << ITN[k] << "]"; o << "=";
    int n = r.in(1, 3);
    for (int x = 0; x < n; x++) {
      int src = r.in(0, ns - 1); Vec v(d);
      for (int k = 0; k < d; k++) v[k] = r.in(-2, 2);
      // source iteration it+v; keep lexicographically negative when same nest
      int lead = r.in(0, d - 1); for (int k = 0; k < lead; k++) v[k] = 0; v[lead] = -r.in(1, 2);
      if (fused ? src < s && r.pct(40) : src < s) { if (r.pct(40)) std::fill(v.begin(), v.end(), 0); }
      if (x) o << ","; o << "A" << src; for (int k = 0; k < d; k++) { o << "[" << ITN[k]; if (v[k]) o << (v[k] > 0 ? "+" : "-") << (v[k] > 0 ? v[k] : -v[k]); o << "]"; }
    }
    o << ";\n"; if (!fused) close();
  }
  if (fused) close();
  return o.str();
}
string gen_stencil(Rng &r) {
  int d = r.pct(70) ? 1 : 2, ns = r.pct(60) ? 1 : 2; std::ostringstream o; o << "params T,N;\nfor t=1..T {\n";
  for (int s = 0; s < ns; s++) {
    o << "for i=" << r.in(0, 1) << "..N-" << r.in(1, 2) << " "; if (d > 1) o << "for j=" << r.in(0, 1) << "..N-" << r.in(1, 2) << " ";
    o << "a" << s << "[t][i]" << (d > 1 ? "[j]" : "") << "=";
    int n = r.in(2, 4); auto offs = [&](int v) { return v ? string(v > 0 ? "+" : "-") + std::to_string(v < 0 ? -v : v) : string(); };
    for (int x = 0; x < n; x++) {
      int src = r.in(0, ns - 1); bool same = ns > 1 && src < s && r.pct(50); if (x) o << ",";
      o << "a" << src << "[t" << (same ? "" : "-1") << "][i" << offs(x == 0 ? 1 : x == 1 ? -1 : r.in(-1, 1)) << "]"; if (d > 1) o << "[j" << offs(r.in(-1, 1)) << "]";
    }
    o << ";\n";
  }
  o << "}\n"; return o.str();
}
// A time-iterated stencil that can start everywhere at once: every value depends on the step before only, on both
// sides in every space dimension.
string gen_diamond(Rng &r) {
  int d = r.pct(65) ? 1 : 2, kind = r.in(0, 99); std::ostringstream o; bool two = r.pct(40); string M = d > 1 && two ? "M" : "N";
  o << "params T,N" << (M == "M" ? ",M" : "") << ";\n"; const char *iv[] = {"i", "j"};
  int lo = r.in(0, 2), hi = r.in(1, 2), tl = r.in(0, 2); auto loops = [&](int) { std::ostringstream q; for (int k = 0; k < d; k++) q << "for " << iv[k] << "=" << lo << ".." << (k ? M : "N") << "-" << hi << " "; return q.str(); };
  auto off = [](int v) { return v ? string(v > 0 ? "+" : "-") + std::to_string(v < 0 ? -v : v) : string(); };
  auto pt = [&](const string &a, const string &t, vector<int> x) { string s = a + t; for (int k = 0; k < d; k++) s += "[" + string(iv[k]) + off(x[k]) + "]"; return s; };
  auto star = [&](const string &a, const string &t, int rad) { string s; for (int k = 0; k < d; k++) for (int g : {-1, 1}) { vector<int> x(d, 0); x[k] = g * (k ? 1 : rad); s += (s.empty() ? "" : ",") + pt(a, t, x); } if (r.pct(50)) s += "," + pt(a, t, vector<int>(d, 0)); if (d > 1 && r.pct(30)) s += "," + pt(a, t, {r.pct(50) ? 1 : -1, r.pct(50) ? 1 : -1}); return s; };
  o << "for t=" << tl << "..T" << (r.pct(50) ? "" : "-1") << " ";
  if (kind < 70) o << loops(0) << pt("a", "[t]", vector<int>(d, 0)) << "=" << star("a", "[t-1]", d == 1 && r.pct(25) ? 2 : 1) << ";\n";
  else if (kind < 85) o << "{ " << loops(0) << pt("b", "", vector<int>(d, 0)) << "=" << star("a", "", 1) << "; " << loops(1) << pt("a", "", vector<int>(d, 0)) << "=" << pt("b", "", vector<int>(d, 0)) << "; }\n";
  else o << "{ " << loops(0) << pt("a", "[t]", vector<int>(d, 0)) << "=" << star("a", "[t-1]", 1) << "," << star("b", "[t-1]", 1) << "; " << loops(1) << pt("b", "[t]", vector<int>(d, 0)) << "=" << star("b", "[t-1]", 1) << (r.pct(50) ? "," + star("a", "[t-1]", 1) : string()) << "; }\n";
  return o.str();
}
// A chain/DAG of nests of mixed dimensionality: fusion and distribution decisions.
string gen_chain(Rng &r, bool many) {
  int ns = many ? r.in(10, 12) : r.in(2, 5); std::ostringstream o; o << "params N;\n"; vector<int> dm; 
  for (int s = 0; s < ns; s++) {
    int d = many ? (r.pct(12) ? 2 : 1) : r.in(1, 2); dm.push_back(d); o << "for i=0..N-1 "; if (d > 1) o << "for j=0..N-1 ";
    o << "A" << s << "[i]" << (d > 1 ? "[j]" : "") << "="; vector<string> rd;
    int n = r.in(0, 2); if (s && n == 0 && r.pct(50)) n = 1;
    for (int x = 0; x < n && s; x++) { int q = r.in(0, s - 1); std::ostringstream a; a << "A" << q;
      vector<string> iv{"i"}; if (d > 1) iv.push_back("j");
      for (int k = 0; k < dm[q]; k++) { a << "["; int c = r.in(0, 99); if (c < 55) a << iv[std::min(k, d - 1)]; else if (c < 72) a << iv[std::min(k, d - 1)] << (r.pct(50) ? "+1" : "-1"); else if (c < 84) a << iv[d - 1 - std::min(k, d - 1)]; else if (c < 92) a << "N-1-" << iv[0]; else a << "0"; a << "]"; }
      rd.push_back(a.str()); }
    if (r.pct(35)) { std::ostringstream a; a << "A" << s << (r.pct(50) || d == 1 ? "[i-1]" : "[i]"); if (d > 1) a << (r.pct(50) ? "[j]" : "[j-1]"); rd.push_back(a.str()); }
    for (size_t x = 0; x < rd.size(); x++) o << (x ? "," : "") << rd[x]; o << ";\n";
  }
  return o.str();
}

// One nest with many statements linked both ways: interleaved SCCs.
string gen_multi(Rng &r) {
  int d = r.pct(60) ? 1 : 2, ns = r.in(3, d == 1 ? 7 : 5); std::ostringstream o; o << "params N;\n"; bool two = d == 2 && r.pct(40);
  o << "for i=2..N-1 {\n"; if (d == 2 && !two) o << "for j=2..N-1 {\n";
  for (int s = 0; s < ns; s++) {
    if (two) o << "for j=2..N-1 ";
    o << "A" << s << "[i]" << (d > 1 ? "[j]" : "") << "="; int n = r.in(1, 2); bool first = true;
    for (int x = 0; x < n; x++) {
      int q = r.in(0, ns - 1); int oi = q < s ? -r.in(0, 1) * r.in(0, 2) : -r.in(1, 2), oj = r.pct(60) ? 0 : oi < 0 ? r.in(-1, 1) : q < s && two ? r.in(-1, 1) : -1;
      if (q == s && oi == 0) oi = -1;
      if (!first) o << ","; first = false; o << "A" << q << "[i" << (oi ? std::to_string(oi) : "") << "]"; if (d > 1) o << "[j" << (oj > 0 ? "+" : "") << (oj ? std::to_string(oj) : "") << "]";
    }
    o << ";\n";
  }
  if (d == 2 && !two) o << "}"; o << "}\n"; return o.str();
}
// One statement, one or two accesses to an array of fewer dimensions or with
// coupled subscripts: reductions, convolutions, in-place updates.
string gen_single(Rng &r) {
  int d = r.in(2, 3), m = r.in(1, d); std::ostringstream o; o << "params N;\n"; for (int k = 0; k < d; k++) { o << "for " << ITN[k] << "="; if (k && r.pct(20)) o << ITN[r.in(0, k - 1)]; else o << r.in(0, 1); o << "..N-1 "; }
  auto sub = [&](int k) { std::ostringstream q; int c = r.in(0, 99); if (c < 50) q << ITN[k]; else if (c < 70) q << ITN[r.in(0, d - 1)] << (r.pct(50) ? "+" : "-") << r.in(1, 2); else if (c < 85) q << ITN[r.in(0, d - 1)] << (r.pct(60) ? "+" : "-") << ITN[r.in(0, d - 1)]; else q << ITN[r.in(0, d - 1)]; return q.str(); };
  vector<int> ix; for (int k = 0; k < d; k++) ix.push_back(k); for (int k = d; k > 1; k--) std::swap(ix[k - 1], ix[r.in(0, k - 1)]);
  auto acc = [&](bool same) { o << "A"; for (int k = 0; k < m; k++) o << "[" << (same ? string(ITN[ix[k]]) : sub(ix[k])) << "]"; };
  acc(r.pct(70)); o << "="; acc(r.pct(50)); if (r.pct(60)) { o << ","; acc(false); } o << ";\n"; return o.str();
}
Scop case_scop(const Case &c) {
  Scop s = scop_parse(c.prog); if (c.perm.size() != s.st.size()) return s;
  Scop t = s; for (size_t k = 0; k < s.st.size(); k++) t.st[c.perm[k]] = s.st[k]; return t;
}

// ---------------------------------------------------------------- case text
string case_text(const Case &c) {
  std::ostringstream o; o << "#name " << c.name << "\n#api " << c.api << "\n#opt"; for (auto &x : c.opt) o << " " << x.first << "=" << x.second;
  o << "\n#pval"; for (auto &x : c.pval) o << " " << x.first << "=" << x.second;
  o << "\n#flags withacc=" << c.withacc << " coalesce=" << c.coalesce << " ctxmin=" << c.ctxmin << " revpar=" << c.revpar << " droppar=" << c.droppar; if (c.given) o << " given=" << c.given; o << "\n";
  if (!c.perm.empty()) { o << "#perm"; for (int x : c.perm) o << " " << x; o << "\n"; }
  if (!c.tilesizes.empty()) o << "#tile.sizes " << c.tilesizes << "\n";
  if (!c.fst.empty()) o << "#fst " << c.fst << "\n";
  if (!c.precut.empty()) o << "#precut " << c.precut << "\n";
  o << "#prog\n" << c.prog << (c.prog.empty() || c.prog.back() != '\n' ? "\n" : ""); return o.str();
}
Case case_parse(const string &t) {
  Case c; std::istringstream in(t); string l; bool prog = false;
  while (std::getline(in, l)) {
    if (prog) { c.prog += l + "\n"; continue; }
    std::istringstream w(l); string k, x; w >> k;
    auto kv = [&](auto f) { while (w >> x) { size_t e = x.find('='); f(x.substr(0, e), std::stoll(x.substr(e + 1))); } };
    if (k == "#name") w >> c.name; else if (k == "#api") w >> c.api;
    else if (k == "#opt") kv([&](string a, i64 b) { c.opt[a] = (int)b; });
    else if (k == "#pval") kv([&](string a, i64 b) { c.pval[a] = b; });
    else if (k == "#flags") kv([&](string a, i64 b) { if (a == "withacc") c.withacc = b; if (a == "coalesce") c.coalesce = b; if (a == "ctxmin") c.ctxmin = (int)b; if (a == "revpar") c.revpar = b; if (a == "droppar") c.droppar = b; if (a == "given") c.given = (int)b; });
    else if (k == "#perm") { int v; while (w >> v) c.perm.push_back(v); }
    else if (k == "#tile.sizes") std::getline(w >> std::ws, c.tilesizes); else if (k == "#fst") std::getline(w >> std::ws, c.fst); else if (k == "#precut") std::getline(w >> std::ws, c.precut);
    else if (k == "#prog") prog = true;
  }
  return c;
}

string gen_reflected(Rng &r) {
  bool time = r.pct(75); int d = r.pct(65) ? 1 : r.pct(75) ? 2 : 3; if (d == 3) time = false; int ns = r.pct(65) ? 1 : 2; static const char *it[] = {"i", "j", "k"};
  std::ostringstream o; bool two = r.pct(25) && d >= 2; o << "params " << (time ? "T," : "") << "N" << (two ? ",M" : "") << ";\n"; vector<string> n(d, "N"); if (two) n[1] = "M";
  if (time) o << "for t=1..T ";
  for (int k = 0; k < d; k++) o << "for " << it[k] << "=" << r.in(0, 1) << ".." << n[k] << "-" << r.in(1, 2) << " ";
  o << "{\n";
  auto offs = [&](int v) { return v ? string(v > 0 ? "+" : "-") + std::to_string(v < 0 ? -v : v) : string(); };
  for (int s = 0; s < ns; s++) {
    o << "a" << s; if (time) o << "[t]"; for (int k = 0; k < d; k++) o << "[" << it[k] << "]"; o << "=";
    int m = r.in(1, 3);
    for (int x = 0; x < m; x++) {
      if (x) o << ","; o << "a" << r.in(0, ns - 1); if (time) o << "[t-" << (r.pct(85) ? 1 : 2) << "]";
      for (int k = 0; k < d; k++) { int q = r.in(0, 99); o << "["; if (q < 45) o << n[k] << "-" << it[k] << offs(r.in(-2, 1)); else if (q < 60) o << it[k] << (r.pct(50) ? "-" : "+") << n[k] << offs(r.in(-1, 1)); else o << it[k] << offs(r.in(-1, 1)); o << "]"; }
    }
    o << ";\n";
  }
  o << "}\n"; return o.str();
}

// sequences of nests of different depth inside one or two common loops: scalar dimensions in the middle of a band
string gen_mixed(Rng &r) {
  std::ostringstream o; bool time = r.pct(65), expand = time && r.pct(50), fwd = r.pct(60); int outer = time ? 1 : r.in(1, 2), ng = r.in(2, 3), budget = 5; static const char *it[] = {"i", "j", "k"};
  o << "params " << (time ? "T,N;\nfor t=1..T {\n" : "N;\n"); if (!time) { for (int k = 0; k < outer; k++) o << "for " << (k ? "u" : "t") << "=1..N-1 {\n"; }
  vector<int> dim; vector<vector<int>> grp; int maxd = outer == 2 ? 1 : 2; string mul = r.pct(15) ? std::to_string(r.in(2, 6)) + "*" : "";
  for (int g = 0; g < ng; g++) { int d = r.pct(15) ? 0 : r.pct(time ? 60 : 50) ? 1 : maxd, ns = r.pct(70) ? 1 : 2; vector<int> v; for (int k = 0; k < ns && budget > 0; k++) { v.push_back((int)dim.size()); dim.push_back(d); budget--; } if (v.size()) grp.push_back(v); }
  auto off = [&](int v) { return v ? string(v > 0 ? "+" : "-") + std::to_string(v < 0 ? -v : v) : string(); };
  for (auto &g : grp) {
    int d = dim[g[0]]; int lo = r.in(0, 1); for (int k = 0; k < d; k++) o << "for " << it[k] << "=" << lo << "..N-" << r.in(1, 2) << " "; if (d) o << "{\n";
    for (int s : g) {
      auto acc = [&](int a, bool w) {
        std::ostringstream q; q << "a" << a; int ad = dim[a] + (expand ? 1 : 0); int k0 = 0;
        if (expand) { q << "[t" << (w ? "" : off(-r.pick(vector<int>{0, 1, 1, 2}))) << "]"; k0 = 1; } else if (outer == 2 && ad < 2 && !w && r.pct(0)) {}
        for (int k = k0; k < ad; k++) { int x = k - k0; q << "["; if (x < d) { if (k == ad - 1) q << mul; if (w) q << it[x]; else if (fwd) q << it[x] << off(-r.pick(vector<int>{0, 0, 1, 2})); else if (mul.empty() && r.pct(10)) q << "N-" << it[x]; else q << it[x] << off(r.pick(vector<int>{0, 0, -1, 1})); } else q << (r.pct(50) ? string(outer == 2 && r.pct(50) ? "u" : "t") : std::to_string(r.in(0, 1))); q << "]"; }
        return q.str(); };
      o << acc(s, true) << "="; int m = r.in(1, 3); for (int k = 0; k < m; k++) { int a = r.pct(30) ? s : r.in(0, (int)dim.size() - 1); o << (k ? "," : "") << acc(a, false); } o << ";\n";
    }
    if (d) o << "}\n";
  }
  for (int k = 0; k < outer; k++) o << "}"; o << "\n"; return o.str();
}
