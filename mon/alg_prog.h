// The program object: random sequences of edits against a plain model.  Included by alg.cpp.
struct MStmt { bool uni = true; int dim = 0, dim0 = 0; Sys dom; Mat tr; vector<int> hyp; vector<string> it; vector<bool> orig; vector<std::pair<string, Mat>> rd, wr; };
struct MDep { int src, dest; Sys p; };
struct MProg { vector<MStmt> st; vector<MDep> dp; vector<string> par; vector<int> htype; Sys ctx; };
Sys rd1(const PlutoConstraints *c) { List l = ::rd(c); return l[0]; }
void inscol(Sys &s, int p) { for (auto &w : s.rows) w.c.insert(w.c.begin() + p, 0); s.n++; }
void delcol(Sys &s, int p) { for (auto &w : s.rows) w.c.erase(w.c.begin() + p); s.n--; }
void inscol(Mat &m, int p) { for (auto &w : m) w.insert(w.begin() + p, 0); }
void delcol(Mat &m, int p) { for (auto &w : m) w.erase(w.begin() + p); }
bool rows_same(const Sys &a, const Sys &b) { if (a.n != b.n || a.rows.size() != b.rows.size()) return false; std::multiset<std::pair<bool, Vec>> x, y; for (auto &w : a.rows) x.insert({w.eq, w.c}); for (auto &w : b.rows) y.insert({w.eq, w.c}); return x == y; }
void same_prog(J &j, const PlutoProg *p, const MProg &m, const string &log) {
  j.op = "program-edit"; string w = " after" + log; auto S = [](int k) { return "S" + std::to_string(k); };
  if ((int)p->nstmts != (int)m.st.size() || p->ndeps != (int)m.dp.size() || p->npar != (int)m.par.size() || (int)p->num_hyperplanes != (int)m.htype.size()) { j.bad("numbers of statements, dependences, parameters or dimensions" + w); return; }
  for (size_t k = 0; k < m.par.size(); k++) j.eq(m.par[k] == p->params[k], "parameter names" + w);
  for (size_t k = 0; k < m.htype.size(); k++) j.eq(p->hProps[k].type == m.htype[k], "kind of dimension " + std::to_string(k) + w);
  j.eq(rows_same(rd1(p->param_context), m.ctx) && rows_same(rd1(p->codegen_context), m.ctx), "context" + w);
  for (size_t k = 0; k < m.st.size(); k++) {
    const Stmt *s = p->stmts[k]; const MStmt &q = m.st[k]; if (s->id != (int)k || (int)s->dim != q.dim || (int)s->dim_orig != q.dim0 || s->nreads != (int)q.rd.size() || s->nwrites != (int)q.wr.size()) { j.bad(S(k) + " has another shape" + w); return; }
    j.eq(rows_same(rd1(s->domain), q.dom), S(k) + " has another domain" + w); j.eq((int)s->trans->ncols == q.dim + (int)m.par.size() + 1 && rm(s->trans) == q.tr, S(k) + " has transformation " + mtext(rm(s->trans)) + ", expected " + mtext(q.tr) + w);
    for (size_t i = 0; i < q.hyp.size() && i < s->trans->nrows; i++) j.eq(s->hyp_types[i] == q.hyp[i], S(k) + " kind of dimension " + std::to_string(i) + w);
    for (int i = 0; i < q.dim; i++) j.eq(q.it[i] == s->iterators[i] && (s->is_orig_loop[i] != 0) == q.orig[i], S(k) + " iterator " + std::to_string(i) + w);
    for (int z = 0; z < 2; z++) { auto &A = z ? q.wr : q.rd; for (size_t i = 0; i < A.size(); i++) { const PlutoAccess *a = (z ? s->writes : s->reads)[i]; j.eq(A[i].first == a->name && (int)a->mat->ncols == q.dim + (int)m.par.size() + 1 && rm(a->mat) == A[i].second, S(k) + " accesses " + a->name + mtext(rm(a->mat)) + ", expected " + A[i].first + mtext(A[i].second) + w); } }
  }
  for (size_t k = 0; k < m.dp.size(); k++) { const Dep *d = p->deps[k]; j.eq(d->src == m.dp[k].src && d->dest == m.dp[k].dest && rows_same(rd1(d->dpolytope), m.dp[k].p), "dependence " + std::to_string(k) + " links other pairs" + w); }
  j.o.add("programs_compared");
}
MStmt gen_mstmt(Rng &r, int npar, int nrows) {
  MStmt s; s.dim = s.dim0 = r.in(0, 3); int n = s.dim + npar; s.dom = gen_sys(r, n, r.in(0, 2), 20, false, 0); for (int k = 0; k < s.dim; k++) for (int sg : {1, -1}) { Row w; w.eq = false; w.c.assign(n + 1, 0); w.c[k] = sg; w.c[n] = sg > 0 ? 1 : 2; s.dom.rows.push_back(w); }
  for (int k = 0; k < s.dim; k++) { s.it.push_back("i" + std::to_string(r.in(0, 99)) + "_" + std::to_string(k)); s.orig.push_back(true); }
  // one to one: a permutation, skewed, with scalar dimensions between
  vector<int> ord(s.dim); std::iota(ord.begin(), ord.end(), 0); for (int k = s.dim; k > 1; k--) std::swap(ord[k - 1], ord[r.in(0, k - 1)]);
  for (int a : ord) { Vec v(n + 1, 0); v[a] = r.pct(80) ? 1 : -1; if (!s.tr.empty() && r.pct(40)) { const Vec &u = s.tr[r.in(0, (int)s.tr.size() - 1)]; int f = r.in(-2, 2); for (int c = 0; c <= n; c++) v[c] += f * u[c]; } if (npar && r.pct(20)) v[s.dim + r.in(0, npar - 1)] = r.in(-1, 1); v[n] = r.pct(40) ? r.in(-3, 3) : 0; if (r.pct(12)) { int f = r.in(2, 3); for (auto &e : v) e *= f; s.uni = false; } s.tr.push_back(v); s.hyp.push_back(H_LOOP); }
  while ((int)s.tr.size() < nrows) { int p = r.in(0, (int)s.tr.size()); Vec v(n + 1, 0); v[n] = r.in(0, 2); s.tr.insert(s.tr.begin() + p, v); s.hyp.insert(s.hyp.begin() + p, H_SCALAR); }
  return s;
}
void gen_accesses(Rng &r, MStmt &s, int npar) { static const char *nm[] = {"A", "B", "some_array"}; for (int z = 0; z < 2; z++) for (int k = r.in(z ? 1 : 0, z ? 1 : 2); k > 0; k--) (z ? s.wr : s.rd).push_back({nm[r.in(0, 2)], gen_mat(r, r.in(1, 2), s.dim + npar + 1)}); }
PlutoAccess *mk_access(Rng &r, const std::pair<string, Mat> &a, int cols) { PlutoAccess *x = (PlutoAccess *)malloc(sizeof *x); x->name = strdup(a.first.c_str()); x->sym_id = 3; x->mat = mm(r, a.second, cols); return x; }
void fill(Rng &r, Stmt *s, const MStmt &m, int cols) {
  for (size_t k = 0; k < m.hyp.size(); k++) s->hyp_types[k] = (PlutoHypType)m.hyp[k]; for (int k = 0; k < m.dim; k++) { s->is_orig_loop[k] = m.orig[k]; if (!s->iterators[k]) s->iterators[k] = strdup(m.it[k].c_str()); }
  s->nreads = m.rd.size(); s->nwrites = m.wr.size(); s->reads = (PlutoAccess **)malloc((m.rd.size() + 1) * sizeof(PlutoAccess *)); s->writes = (PlutoAccess **)malloc((m.wr.size() + 1) * sizeof(PlutoAccess *)); for (size_t k = 0; k < m.rd.size(); k++) s->reads[k] = mk_access(r, m.rd[k], cols); for (size_t k = 0; k < m.wr.size(); k++) s->writes[k] = mk_access(r, m.wr[k], cols); s->intra_stmt_dep_cst = nullptr;
}
// what is derived from a statement: schedule, image, accesses in terms of the new iterators
void derived(J &j, const PlutoProg *p, const MProg &m) {
  int np = (int)m.par.size(); Rng &r = j.r;
  for (size_t k = 0; k < m.st.size(); k++) {
    const Stmt *s = p->stmts[k]; const MStmt &q = m.st[k]; int T = (int)q.tr.size(); if (!T || q.dim > 4) continue; string nm = "S" + std::to_string(k) + " " + mtext(q.tr);
    for (int l = 0; l < T; l++) { bool sc = true; for (int c = 0; c < q.dim; c++) if (q.tr[l][c]) sc = false; j.op = "program-scalar"; j.eq((pluto_is_hyperplane_scalar(s, l) != 0) == sc && (pluto_is_hyperplane_loop(s, l) != 0) == !sc, nm + " dimension " + std::to_string(l)); }
    Mat sub; for (auto &v : q.tr) sub.push_back(Vec(v.begin(), v.begin() + q.dim)); Mat o0; for (auto &v : q.tr) o0.push_back(Vec(v.begin(), v.begin() + q.dim0)); j.op = "program-rank"; if (q.dim == q.dim0 && q.dim) j.eq((int)pluto_stmt_get_num_ind_hyps(s) == rank_of(o0), nm + " rank");
    bool full = q.dim == 0 || rank_of(sub) == q.dim; vector<Vec> pt; vector<Vec> dates; Vec par(np); for (auto &v : par) v = r.in(0, 4); int n = q.dim + np; std::set<Vec> img; bool bounded = true; for (int c = 0; c < q.dim; c++) if (c >= (int)q.orig.size()) bounded = false;
    Sys Z; if (q.dim) box(q.dim, q.dim <= 2 ? 4 : 3, [&](const Vec &x) { Vec y = x; y.insert(y.end(), par.begin(), par.end()); if (in1(q.dom, y)) { pt.push_back(x); Vec dt; for (auto &v : q.tr) { i64 e = v[n]; for (int c = 0; c < n; c++) e += v[c] * y[c]; dt.push_back(e); } dates.push_back(dt); img.insert(dt); } return pt.size() < 400; });
    j.op = "program-schedule"; PlutoConstraints *sc = pluto_stmt_get_schedule(s); List g = rd(sc); pluto_constraints_free(sc); if (g.size() != 1 || g[0].n != T + n) { j.bad(nm + " schedule has another shape"); return; }
    for (size_t i = 0; i < pt.size(); i++) { Vec z = dates[i]; z.insert(z.end(), pt[i].begin(), pt[i].end()); z.insert(z.end(), par.begin(), par.end()); j.o.add("dates"); if (!in1(g[0], z)) { j.bad(nm + " schedule lacks " + vstr(z)); return; } z[r.in(0, T - 1)] += r.pct(50) ? 1 : -1; if (in1(g[0], z)) { j.bad(nm + " schedule contains " + vstr(z)); return; } }
    if (!full) continue;
    // image of the domain: exact for unimodular transformations of closed domains
    bool closed = true; for (int c = 0; c < q.dim; c++) { bool lo = false, hi = false; for (auto &w : q.dom.rows) { bool only = w.c[c] != 0; for (int d = 0; d < n; d++) if (d != c && w.c[d]) only = false; if (only && std::llabs(w.c[c]) == 1) { if (w.c[c] > 0 || w.eq) lo = true; if (w.c[c] < 0 || w.eq) hi = true; } } if (!lo || !hi) closed = false; }
    j.op = "program-new_domain"; PlutoConstraints *nd = pluto_get_new_domain(s); g = rd(nd); pluto_constraints_free(nd); if (g.size() != 1 || g[0].n != T + np) { j.bad(nm + " image has another shape"); return; }
    for (size_t i = 0; i < dates.size(); i++) { Vec z = dates[i]; z.insert(z.end(), par.begin(), par.end()); if (!in1(g[0], z)) { j.bad(nm + " image lacks " + vstr(z)); return; } Vec u = dates[i]; u[r.in(0, T - 1)] += r.in(-2, 2); Vec uz = u; uz.insert(uz.end(), par.begin(), par.end()); if (closed && q.uni && pt.size() < 400 && in1(g[0], uz) && !img.count(u)) { j.bad(nm + " image contains " + vstr(uz)); return; } j.o.add("image_points"); }
    j.op = "program-new_access"; for (int z = 0; z < 2; z++) for (auto &A : z ? q.wr : q.rd) { PlutoMatrix *a = mm(r, A.second, n + 1); int *dv = nullptr; PlutoMatrix *na = pluto_get_new_access_func(a, s, &dv); if (na->nrows != A.second.size() || (int)na->ncols != T + np + 1) j.bad(nm + " access has another shape");
      else for (size_t i = 0; i < pt.size(); i++) for (size_t row = 0; row < A.second.size(); row++) { i64 e = A.second[row][n], f = na->val[row][T + np]; for (int c = 0; c < q.dim; c++) e += A.second[row][c] * pt[i][c]; for (int c = 0; c < np; c++) { e += A.second[row][q.dim + c] * par[c]; f += na->val[row][T + c] * par[c]; } for (int c = 0; c < T; c++) f += na->val[row][c] * dates[i][c]; j.o.add("addresses"); if (dv[row] == 0 || f != e * dv[row]) { j.bad(nm + " access " + mtext(A.second) + " at " + vstr(pt[i]) + " is " + std::to_string(f) + "/" + std::to_string(dv[row]) + " in terms of the date"); i = pt.size() - 1; break; } }
      free(dv); pluto_matrix_free(na); pluto_matrix_free(a); }
  }
}
void op_prog(J &j) {
  Rng &r = j.r; MProg m; PlutoProg *p = pluto_prog_alloc(C); int np = r.in(0, 2), rows = r.in(3, 5); m.ctx.n = 0; string log;
  for (int k = 0; k < np; k++) { int pos = r.in(0, k); string nm = "p" + std::to_string(r.in(0, 9)) + "_" + std::to_string(k); pluto_prog_add_param(p, nm.c_str(), pos); m.par.insert(m.par.begin() + pos, nm); inscol(m.ctx, pos); log += " param" + std::to_string(pos); }
  auto add_stmt = [&](bool given, int rows) { MStmt s = gen_mstmt(r, np, rows); int cols = s.dim + np + 1; PlutoConstraints *d = mk1(r, s.dom); PlutoMatrix *t = mm(r, s.tr, cols); vector<char *> it; for (auto &x : s.it) it.push_back((char *)x.c_str()); it.push_back(nullptr);
    gen_accesses(r, s, np); if (given) { Stmt *x = pluto_stmt_alloc(s.dim, d, t); x->type = ORIG; x->text = strdup("text"); fill(r, x, s, cols); pluto_add_given_stmt(p, x); } else { pluto_add_stmt(p, d, t, it.data(), "text", ORIG); fill(r, p->stmts[p->nstmts - 1], s, cols); }
    pluto_constraints_free(d); pluto_matrix_free(t); m.st.push_back(s); size_t mx = 0; for (auto &x : m.st) mx = std::max(mx, x.tr.size()); for (auto &x : m.st) while (x.tr.size() < mx) { x.tr.push_back(Vec(x.dim + np + 1, 0)); x.hyp.push_back(H_SCALAR); } while (m.htype.size() < mx) m.htype.push_back(H_SCALAR); log += given ? " given_stmt" : " add_stmt"; };
  for (int k = r.in(1, 3); k > 0; k--) add_stmt(r.pct(50), r.pct(70) ? rows : rows + r.in(-2, 1) < 3 ? 3 : rows + 1);
  int nd = r.in(0, 3); p->deps = (Dep **)malloc((nd + 1) * sizeof(Dep *)); for (int k = 0; k < nd; k++) { MDep d; d.src = r.in(0, (int)m.st.size() - 1); d.dest = r.in(0, (int)m.st.size() - 1); d.p = gen_sys(r, m.st[d.src].dim + m.st[d.dest].dim + np, r.in(0, 4), 30, false, 0); Dep *x = pluto_dep_alloc(); x->id = k; x->src = d.src; x->dest = d.dest; x->type = PLUTO_DEP_RAW; x->dpolytope = mk1(r, d.p); x->bounding_poly = mk1(r, d.p); p->deps[k] = x; p->ndeps = k + 1; m.dp.push_back(d); }
  vector<std::pair<int, string>> dummies; // unrelated dimensions that may be removed again
  same_prog(j, p, m, log); derived(j, p, m);
  for (int q = r.in(1, 8); q > 0 && j.o.v.empty(); q--) {
    int h = r.in(0, 11), k = r.in(0, (int)m.st.size() - 1), H = (int)m.htype.size(); MStmt &s = m.st[k]; Stmt *S = p->stmts[k]; auto depcol = [&](int st, int pos, bool del) { for (auto &d : m.dp) { // source first
        if (d.src == st) { if (del) delcol(d.p, pos); else inscol(d.p, pos); } if (d.dest == st) { int o = m.st[d.src].dim + pos; if (del) delcol(d.p, o); else inscol(d.p, o); } } };
    if (h == 0 || h == 1) { // a new iterator, perhaps with a dimension of its own
      if (s.dim >= 5) continue; int pos = r.in(0, s.dim), tp = h == 0 ? -1 : r.in(0, (int)s.tr.size()); string nm = "z" + std::to_string(q); log += " add_dim(S" + std::to_string(k) + "," + std::to_string(pos) + "," + std::to_string(tp) + ")"; pluto_stmt_add_dim(S, pos, tp, nm.c_str(), H_TILE_SPACE_LOOP, p);
      s.dim++; inscol(s.dom, pos); inscol(s.tr, pos); for (auto &a : s.rd) inscol(a.second, pos); for (auto &a : s.wr) inscol(a.second, pos); s.it.insert(s.it.begin() + pos, nm); s.orig.insert(s.orig.begin() + pos, true); depcol(k, pos, false);
      if (tp >= 0) { Vec v(s.dim + np + 1, 0); v[pos] = 1; s.tr.insert(s.tr.begin() + tp, v); s.hyp.insert(s.hyp.begin() + tp, H_TILE_SPACE_LOOP);
        // the same dimension for the other statements
        for (size_t u = 0; u < m.st.size(); u++) if ((int)u != k) { pluto_stmt_add_hyperplane(p->stmts[u], H_SCALAR, tp); m.st[u].tr.insert(m.st[u].tr.begin() + tp, Vec(m.st[u].dim + np + 1, 0)); m.st[u].hyp.insert(m.st[u].hyp.begin() + tp, H_SCALAR); } pluto_prog_add_hyperplane(p, tp, H_TILE_SPACE_LOOP); m.htype.insert(m.htype.begin() + tp, H_TILE_SPACE_LOOP); }
      else dummies.push_back({k, nm});
    } else if (h == 2) { if (dummies.empty()) continue; int w = r.in(0, (int)dummies.size() - 1); auto e = dummies[w]; dummies.erase(dummies.begin() + w); MStmt &t = m.st[e.first]; int pos = std::find(t.it.begin(), t.it.end(), e.second) - t.it.begin(); bool used = false; for (auto &x : t.dom.rows) if (x.c[pos]) used = true; if (used) continue; log += " remove_dim(S" + std::to_string(e.first) + "," + std::to_string(pos) + ")";
      pluto_stmt_remove_dim(p->stmts[e.first], pos, p); t.dim--; depcol(e.first, pos, true); delcol(t.dom, pos); delcol(t.tr, pos); for (auto &a : t.rd) delcol(a.second, pos); for (auto &a : t.wr) delcol(a.second, pos); t.it.erase(t.it.begin() + pos); t.orig.erase(t.orig.begin() + pos);
    } else if (h == 3) { int pos = r.in(0, H); log += " hyperplane" + std::to_string(pos); for (size_t u = 0; u < m.st.size(); u++) { if (r.pct(50)) pluto_stmt_add_hyperplane(p->stmts[u], H_SCALAR, pos); else pluto_sink_transformation(p->stmts[u], pos); m.st[u].tr.insert(m.st[u].tr.begin() + pos, Vec(m.st[u].dim + np + 1, 0)); m.st[u].hyp.insert(m.st[u].hyp.begin() + pos, H_SCALAR); } pluto_prog_add_hyperplane(p, pos, H_SCALAR); m.htype.insert(m.htype.begin() + pos, H_SCALAR);
    } else if (h == 4) { if (H < 2) continue; int a = r.in(0, H - 1), b = r.in(0, H - 1); log += " interchange" + std::to_string(a) + "," + std::to_string(b); // kinds of a statement's rows stay in place
      pluto_interchange(p, a, b); for (auto &x : m.st) std::swap(x.tr[a], x.tr[b]); std::swap(m.htype[a], m.htype[b]);
    } else if (h == 5) { int a = r.in(0, H - 1), b = r.in(0, H - 1); log += " stmt_interchange"; pluto_stmt_loop_interchange(S, a, b); std::swap(s.tr[a], s.tr[b]);
    } else if (h == 6 || h == 7) { int lv = r.in(0, H); int off = r.in(0, 3); log += h == 6 ? " separate_stmt" : " separate_stmts"; for (auto &x : m.st) { x.tr.insert(x.tr.begin() + lv, Vec(x.dim + np + 1, 0)); x.hyp.insert(x.hyp.begin() + lv, H_SCALAR); } m.htype.insert(m.htype.begin() + lv, H_SCALAR);
      if (h == 6) { pluto_separate_stmt(p, S, lv); s.tr[lv].back() = 1; } else { vector<Stmt *> v; vector<int> id; for (size_t u = 0; u < m.st.size(); u++) if (r.pct(60)) { v.push_back(p->stmts[u]); id.push_back(u); } v.push_back(nullptr); pluto_separate_stmts(p, v.data(), (int)id.size(), lv, off); for (size_t u = 0; u < id.size(); u++) m.st[id[u]].tr[lv].back() = off + 1 + (int)u; }
    } else if (h == 8) { if (s.dim >= 5) continue; int pos = r.in(0, s.dim), val = r.in(-2, 3); string nm = "d" + std::to_string(s.dim + 1); log += " sink(S" + std::to_string(k) + "," + std::to_string(pos) + "," + std::to_string(val) + ")"; nm = "d" + std::to_string(S->dim); pluto_sink_statement(S, pos, val, p);
      s.dim++; inscol(s.dom, pos); Row w; w.eq = true; w.c.assign(s.dom.n + 1, 0); w.c[pos] = 1; w.c[s.dom.n] = -val; List before = {s.dom}; s.dom.rows.push_back(w); inscol(s.tr, pos); for (auto &a : s.rd) inscol(a.second, pos); for (auto &a : s.wr) inscol(a.second, pos); s.it.insert(s.it.begin() + pos, nm); s.orig.insert(s.orig.begin() + pos, false); depcol(k, pos, false);
    } else if (h == 9) { if (np >= 4) continue; int pos = r.in(0, np); string nm = "q" + std::to_string(q); log += " add_param" + std::to_string(pos); pluto_prog_add_param(p, nm.c_str(), pos); for (auto &x : m.st) { inscol(x.dom, x.dim + pos); inscol(x.tr, x.dim + pos); for (auto &a : x.rd) inscol(a.second, x.dim + pos); for (auto &a : x.wr) inscol(a.second, x.dim + pos); } for (auto &d : m.dp) inscol(d.p, m.st[d.src].dim + m.st[d.dest].dim + pos); inscol(m.ctx, pos); m.par.insert(m.par.begin() + pos, nm); np++; for (int i = 0; i < p->ndeps; i++) { pluto_constraints_free(p->deps[i]->bounding_poly); p->deps[i]->bounding_poly = pluto_constraints_dup(p->deps[i]->dpolytope); }
    } else if (h == 10) { add_stmt(r.pct(50), r.in(3, 6));
    } else { // copies share nothing with the original
      log += " copies"; for (int i = 0; i < p->ndeps; i++) { p->deps[i]->satisfied = r.pct(50); p->deps[i]->satisfaction_level = r.in(-1, 2); Dep *d = pluto_dep_dup(p->deps[i]); j.op = "program-dep_dup"; j.eq(d->id == p->deps[i]->id && d->src == p->deps[i]->src && d->dest == p->deps[i]->dest && d->type == p->deps[i]->type && d->satisfied == p->deps[i]->satisfied && d->satisfaction_level == p->deps[i]->satisfaction_level && rows_same(rd1(d->dpolytope), rd1(p->deps[i]->dpolytope)) && d->dpolytope != p->deps[i]->dpolytope, "copy of a dependence differs"); pluto_dep_free(p->deps[i]); p->deps[i] = d; }
      j.op = "program-stmt_dup"; Stmt *c = pluto_stmt_dup(S); j.eq(c->dim == S->dim && c->dim_orig == S->dim_orig && c->type == S->type && c->text && !strcmp(c->text, S->text) && c->nreads == S->nreads && c->nwrites == S->nwrites && rows_same(rd1(c->domain), s.dom) && rm(c->trans) == s.tr, "copy of a statement differs"); for (int i = 0; i < s.dim; i++) j.eq(s.it[i] == c->iterators[i] && (c->is_orig_loop[i] != 0) == s.orig[i], "iterators of the copy differ");
      for (int z = 0; z < 2; z++) { auto &A = z ? s.wr : s.rd; for (size_t i = 0; i < A.size(); i++) { PlutoAccess *a = (z ? c->writes : c->reads)[i]; j.eq(A[i].first == a->name && rm(a->mat) == A[i].second && a != (z ? S->writes : S->reads)[i], "accesses of the copy differ"); } } pluto_stmt_free(c);
    }
    same_prog(j, p, m, log); if (j.o.v.empty()) derived(j, p, m);
  }
  // membership
  vector<Stmt *> a, b; bool sub = true; for (size_t k = 0; k < m.st.size(); k++) { bool x = r.pct(50), y = r.pct(70); if (x) a.push_back(p->stmts[k]); if (y) b.push_back(p->stmts[k]); if (x && !y) sub = false; j.op = "program-member"; b.push_back(nullptr); j.eq((pluto_stmt_is_member_of((int)k, b.data(), (int)b.size() - 1) != 0) == y, "membership"); b.pop_back(); } a.push_back(nullptr); b.push_back(nullptr); j.op = "program-subset"; j.eq((pluto_stmt_is_subset_of(a.data(), (int)a.size() - 1, b.data(), (int)b.size() - 1) != 0) == sub, "subset");
  pluto_prog_free(p);
}
