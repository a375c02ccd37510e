// Dependence graphs: components, order, closure.  Included by alg.cpp.
typedef vector<vector<int>> Adj; // reachability or multiplicity
PlutoProg *gen_graph_prog(Rng &r, int n, vector<int> &dims) {
  PlutoProg *p = pluto_prog_alloc(C); p->npar = 0;
  for (int k = 0; k < n; k++) {
    int d = r.in(0, 3); dims.push_back(d); PlutoConstraints *dom = pluto_constraints_alloc(1, d + 1, C); PlutoMatrix *t = pluto_matrix_alloc(1, d + 1, C); for (int j = 0; j <= d; j++) t->val[0][j] = 0;
    Stmt *s = pluto_stmt_alloc(d, dom, t); s->type = ORIG; for (int j = 0; j < d; j++) s->is_orig_loop[j] = true; pluto_constraints_free(dom); pluto_matrix_free(t); s->scc_id = s->cc_id = -7; s->intra_stmt_dep_cst = nullptr; pluto_add_given_stmt(p, s);
  }
  return p;
}
Adj closure(const Adj &a) { Adj c = a; int n = (int)a.size(); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (c[i][k] && c[k][j]) c[i][j] = 1; for (auto &v : c) for (auto &x : v) x = x != 0; return c; }
void check_graph(J &j, PlutoProg *p, const Adj &w, const vector<int> &dims, int sat0) {
  Rng &r = j.r; int n = (int)dims.size(); Graph *g = p->ddg;
  auto adjeq = [&](const PlutoMatrix *m, const Adj &x) { if ((int)m->nrows != n || (int)m->ncols != n) return false; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if ((m->val[a][b] != 0) != (x[a][b] != 0)) return false; return true; };
  bool cnt = true; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g->adj->val[a][b] != w[a][b]) cnt = false; j.op = "graph-edges"; j.eq(cnt && g->nVertices == n, "the graph does not hold exactly the unsatisfied dependences");
  Adj c = closure(w), u = w; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (w[b][a]) u[a][b] = 1; Adj uc = closure(u);
  auto same = [&](const Adj &m, int a, int b) { return a == b || (m[a][b] && m[b][a]); };
  // strongly connected components
  ddg_compute_scc(p); j.op = "graph-scc"; vector<int> sz(n, 0); int num = 0; bool ids = true;
  for (int a = 0; a < n; a++) { int s = g->vertices[a].scc_id; if (s < 0 || s >= g->num_sccs || p->stmts[a]->scc_id != s) ids = false; else sz[s]++; bool first = true; for (int b = 0; b < a; b++) if (same(c, a, b)) first = false; num += first; }
  j.eq(ids, "component number out of range or different at the statement"); j.eq(g->num_sccs == num, std::to_string(g->num_sccs) + " components, expected " + std::to_string(num));
  if (!ids) return;
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { j.o.add("pairs"); bool eq = g->vertices[a].scc_id == g->vertices[b].scc_id; if (eq != same(c, a, b)) { j.bad("S" + std::to_string(a) + " and S" + std::to_string(b) + (eq ? " share a component" : " are in different components")); return; } if (w[a][b] && g->vertices[a].scc_id > g->vertices[b].scc_id) { j.bad("a dependence leads from a later component to an earlier one"); return; } }
  for (int s = 0; s < g->num_sccs; s++) { int md = -1; for (int a = 0; a < n; a++) if (g->vertices[a].scc_id == s) md = std::max(md, dims[a]); j.eq(g->sccs[s].size == sz[s] && (int)g->sccs[s].max_dim == md && g->sccs[s].id == s, "size, dimensionality or number of a component"); }
  for (int s = 0; s < g->num_sccs; s++) for (int t = 0; t < g->num_sccs; t++) { bool e = false; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (w[a][b] && g->vertices[a].scc_id == s && g->vertices[b].scc_id == t) e = true; j.op = "graph-connected"; j.eq((ddg_sccs_direct_connected(g, p, s, t) != 0) == e, "direct connection of components"); }
  j.op = "graph-scc-vertices"; compute_scc_vertices(g); for (int s = 0; s < g->num_sccs; s++) { vector<int> v, x; for (int a = 0; a < n; a++) if (g->vertices[a].scc_id == s) x.push_back(a); for (int k = 0; k < g->sccs[s].size; k++) v.push_back(g->sccs[s].vertices[k]); std::sort(v.begin(), v.end()); j.eq(v == x, "vertices of a component"); } free_scc_vertices(g); for (int s = 0; s < n; s++) g->sccs[s].vertices = nullptr;
  // connected components
  ddg_compute_cc(p); j.op = "graph-cc"; num = 0; ids = true; std::set<int> used;
  for (int a = 0; a < n; a++) { int s = g->vertices[a].cc_id; used.insert(s); if (s < 0 || s >= g->num_ccs || p->stmts[a]->cc_id != s) ids = false; bool first = true; for (int b = 0; b < a; b++) if (same(uc, a, b)) first = false; num += first; }
  j.eq(ids, "component number out of range or different at the statement"); j.eq(g->num_ccs == num && (int)used.size() == num, std::to_string(g->num_ccs) + " connected components, expected " + std::to_string(num));
  for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) { bool eq = g->vertices[a].cc_id == g->vertices[b].cc_id; if (eq != same(uc, a, b)) { j.bad("S" + std::to_string(a) + " and S" + std::to_string(b) + (eq ? " share a connected component" : " are in different connected components")); return; } }
  j.op = "graph-edges"; cnt = true; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g->adj->val[a][b] != w[a][b]) cnt = false; j.eq(cnt, "computing components changed the graph");
  Adj tr = w; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) tr[a][b] = w[b][a]; Graph *t = graph_transpose(g); j.op = "graph-transpose"; j.eq(adjeq(t->adj, tr), "transpose"); graph_free(t);
  t = get_undirected_graph(g); j.op = "graph-undirected"; j.eq(adjeq(t->adj, u), "undirected graph"); graph_free(t);
  if (n) { int a = r.in(0, n - 1), b = r.in(0, n - 1); j.op = "graph-adjacent"; j.eq(is_adjacent(g, a, b) == (w[a][b] || w[b][a]), "adjacency"); }
  // dependences left
  int un = 0, ui = 0, us = 0; for (int k = 0; k < p->ndeps; k++) { Dep *d = p->deps[k]; if (d->type == PLUTO_DEP_RAR || d->satisfied) continue; un++; if (d->src != d->dest) ui++; if (g->vertices[d->src].scc_id != g->vertices[d->dest].scc_id) us++; }
  j.op = "graph-unsatisfied"; j.eq((!get_num_unsatisfied_deps || get_num_unsatisfied_deps(p->deps, p->ndeps) == un) && (!get_num_unsatisfied_inter_stmt_deps || get_num_unsatisfied_inter_stmt_deps(p->deps, p->ndeps) == ui) && (!get_num_unsatisfied_inter_scc_deps || get_num_unsatisfied_inter_scc_deps(p) == us) && (deps_satisfaction_check(p) != 0) == (un == 0), "number of unsatisfied dependences");
}
void op_graph(J &j) {
  Rng &r = j.r; int n = r.pct(4) ? 0 : r.in(1, r.pct(20) ? 14 : 7); vector<int> dims; PlutoProg *p = gen_graph_prog(r, n, dims);
  int nd = n ? r.in(0, r.pct(50) ? n : 3 * n) : 0; p->deps = (Dep **)malloc((nd + 1) * sizeof(Dep *)); p->ndeps = nd; std::ostringstream tx; tx << n << " statements:"; int back = r.in(0, 60);
  for (int k = 0; k < nd; k++) { Dep *d = pluto_dep_alloc(); d->id = k; d->src = r.in(0, n - 1); d->dest = r.in(0, n - 1); if (d->src > d->dest && !r.pct(back)) std::swap(d->src, d->dest); d->type = r.pct(15) ? PLUTO_DEP_RAR : r.pick(vector<PlutoDepType>{PLUTO_DEP_RAW, PLUTO_DEP_WAR, PLUTO_DEP_WAW}); d->satisfied = r.pct(20); p->deps[k] = d; tx << " " << d->src << (d->satisfied ? "~" : d->type == PLUTO_DEP_RAR ? "=" : ">") << d->dest; }
  j.ctx = tx.str();
  auto adj = [&] { Adj w(n, vector<int>(n, 0)); for (int k = 0; k < nd; k++) if (p->deps[k]->type != PLUTO_DEP_RAR && !p->deps[k]->satisfied) w[p->deps[k]->src][p->deps[k]->dest]++; return w; };
  p->ddg = ddg_create(p); for (int k = 0; k < n; k++) p->ddg->sccs[k].vertices = nullptr; check_graph(j, p, adj(), dims, 0);
  for (int q = 0; q < 2 && j.o.v.empty(); q++) { for (int k = 0; k < nd; k++) if (r.pct(30)) p->deps[k]->satisfied = !p->deps[k]->satisfied; j.ctx += " then"; for (int k = 0; k < nd; k++) j.ctx += p->deps[k]->satisfied ? " 1" : " 0"; ddg_update(p->ddg, p); check_graph(j, p, adj(), dims, 1); }
  // closure on a copy
  Adj w = adj(); Graph *t = graph_alloc(n, C); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) t->adj->val[a][b] = w[a][b]; compute_transitive_closure(t); Adj c = closure(w); bool ok = true; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if ((t->adj->val[a][b] != 0) != (c[a][b] != 0)) ok = false; j.op = "graph-closure"; j.eq(ok, "transitive closure"); graph_free(t);
  pluto_prog_free(p);
}
