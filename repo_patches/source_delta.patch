From 422817cefe29923500856c3f33d651731d88c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:33 +0000
Subject: [PATCH 01/49] verif: guarded observation points in
 pluto_schedule_prog (PLUTO_VERIF_HOOKS)

---
 lib/plutolib.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index db5221c..07a2b98 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -26,6 +26,20 @@
 #include "pluto/pluto.h"
 #include "program.h"
 
+#ifdef PLUTO_VERIF_HOOKS
+/* Observation points for external monitors (off in normal builds). */
+void (*pluto_verif_event)(const char *event, PlutoProg *prog) = NULL;
+#define VERIF_EVENT(event, prog)                                               \
+  do {                                                                         \
+    if (pluto_verif_event)                                                     \
+      pluto_verif_event(event, prog);                                          \
+  } while (0)
+#else
+#define VERIF_EVENT(event, prog)                                               \
+  do {                                                                         \
+  } while (0)
+#endif
+
 /// Run Pluto on the supplied PlutoProg.
 static int pluto_schedule_prog(PlutoProg *prog) {
   // Set global var for rest of Pluto.
@@ -52,6 +66,7 @@ static int pluto_schedule_prog(PlutoProg *prog) {
 
   pluto_compute_dep_directions(prog);
   pluto_compute_dep_satisfaction(prog);
+  VERIF_EVENT("auto", prog);
 
   if (!options->silent) {
     fprintf(stdout,
@@ -97,6 +112,7 @@ static int pluto_schedule_prog(PlutoProg *prog) {
     printf("\n");
     pluto_loops_free(ploops, nploops);
   }
+  VERIF_EVENT("final", prog);
   return 0;
 }
 
-- 
2.43.0


From 58f6270ede90893e99addcc586c6d07e370a75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:46 +0000
Subject: [PATCH 02/49] fix: --innerpar marked sequential band loops parallel

pluto_create_tile_schedule_band() doesn't create a wavefront with innerpar,
but it still moved dependence satisfaction to the first loop of the band as if
it had, and so, inner loops of the band carrying dependences were reported
parallel.
---
 lib/tile.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 9939b8a..5b39018 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -389,6 +389,11 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
   PlutoContext *context = prog->context;
   PlutoOptions *options = context->options;
 
+  /* Without a wavefront, none of the loops becomes parallel: dependence
+   * satisfaction information shouldn't be updated */
+  if (options->innerpar)
+    return false;
+
   /* A band can have scalar dimensions; it starts from a loop */
   int loop_depths[band->width];
   loop_depths[0] = band->loop->depth;
@@ -430,14 +435,12 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
    * become parallel */
   int first = band->loop->depth;
 
-  if (!options->innerpar) {
-    /* Create the wavefront */
-    for (unsigned i = 0; i < band->loop->nstmts; i++) {
-      Stmt *stmt = band->loop->stmts[i];
-      for (unsigned k = 1; k <= nip_dims; k++) {
-        for (unsigned j = 0; j < stmt->trans->ncols; j++) {
-          stmt->trans->val[first][j] += stmt->trans->val[loop_depths[k]][j];
-        }
+  /* Create the wavefront */
+  for (unsigned i = 0; i < band->loop->nstmts; i++) {
+    Stmt *stmt = band->loop->stmts[i];
+    for (unsigned k = 1; k <= nip_dims; k++) {
+      for (unsigned j = 0; j < stmt->trans->ncols; j++) {
+        stmt->trans->val[first][j] += stmt->trans->val[loop_depths[k]][j];
       }
     }
   }
-- 
2.43.0


From da08fc98c606baca886a1acef05a188dae39df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:42 +0000
Subject: [PATCH 03/49] fix: wavefront violated dependences satisfied by a
 scalar dimension in a band

A band can have scalar dimensions inside it, and a dependence satisfied by one
can have negative components at the inner loops of the band. Adding such a loop
to the first one for the wavefront leads to a negative component at the
outermost level for the dependence.
---
 lib/tile.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/tile.c b/lib/tile.c
index 5b39018..da4e822 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -379,6 +379,28 @@ void pluto_tile_scattering_dims(PlutoProg *prog, Band **bands, int nbands,
   pluto_detect_hyperplane_types_stmtwise(prog);
 }
 
+/// Returns true if a dependence between statements of the band that isn't
+/// satisfied outside of the band can have a negative component at `depth'.
+static bool band_has_neg_dep_component(const PlutoProg *prog, const Band *band,
+                                       unsigned depth) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    const Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type))
+      continue;
+    if (!pluto_stmt_is_member_of(prog->stmts[dep->src]->id, band->loop->stmts,
+                                 band->loop->nstmts) ||
+        !pluto_stmt_is_member_of(prog->stmts[dep->dest]->id, band->loop->stmts,
+                                 band->loop->nstmts))
+      continue;
+    if (dep->satisfaction_level >= 0 &&
+        dep->satisfaction_level < (int)band->loop->depth)
+      continue;
+    if (dep->dirvec[depth] == DEP_MINUS || dep->dirvec[depth] == DEP_STAR)
+      return true;
+  }
+  return false;
+}
+
 /// Transform a band of dimensions to get a wavefront (a wavefront of tiles
 /// typically). Returns true if something was done, false otherwise.
 bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
@@ -406,7 +428,11 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
       if (pluto_is_hyperplane_scalar(band->loop->stmts[j], depth))
         break;
     }
-    if (j == band->loop->nstmts) {
+    /* A dependence satisfied by a scalar dimension of the band can have a
+     * negative component at the band's loops inner to it; such loops can't be
+     * part of the wavefront */
+    if (j == band->loop->nstmts &&
+        !band_has_neg_dep_component(prog, band, depth)) {
       /* All of them are loops */
       loop_depths[nloops++] = depth;
     }
-- 
2.43.0


From 4ea7b401568b1d5cc55580d7a5bae6dd99eeffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:42 +0000
Subject: [PATCH 04/49] fix: diamond tiling left dependences unsatisfied inside
 tiles

The hyperplane evicted by diamond tiling is put back for the intra-tile order,
but dependences were marked satisfied based on the cone complement hyperplane
alone. On jacobi-1d-imper or fdtd-1d, iterations of the two statements connected
by a dependence got identical schedules.
---
 lib/pluto.c | 57 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 7ccd33f..9a75e43 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1483,6 +1483,61 @@ static void copy_hyperplane(int64_t *h1, int64_t *h2, int ncols) {
   }
 }
 
+/* Swap the hyperplanes evicted by diamond tiling with their replacements */
+static void swap_evicted_hyperplanes(PlutoProg *prog) {
+  for (int i = 0; i < prog->nstmts; i++) {
+    Stmt *stmt = prog->stmts[i];
+    if (!stmt->evicted_hyp)
+      continue;
+    int64_t *hyp = stmt->trans->val[stmt->evicted_hyp_pos];
+    for (unsigned j = 0; j < stmt->trans->ncols; j++) {
+      int64_t tmp = hyp[j];
+      hyp[j] = stmt->evicted_hyp->val[0][j];
+      stmt->evicted_hyp->val[0][j] = tmp;
+    }
+  }
+}
+
+/// The hyperplane evicted by diamond tiling is put back to determine the
+/// intra-tile order (pluto_diamond_tile_reschedule). A dependence satisfied by
+/// the cone complement hyperplane but not by the one it evicted is not
+/// satisfied inside a tile. Satisfy such dependences by distributing at the
+/// innermost level; if that isn't possible, give up on the reschedule.
+static void pluto_diamond_tile_satisfy_intra_tile_deps(PlutoProg *prog) {
+  swap_evicted_hyperplanes(prog);
+  pluto_compute_dep_directions(prog);
+  pluto_compute_dep_satisfaction_precise(prog);
+
+  bool is_legal = deps_satisfaction_check(prog);
+  if (!is_legal) {
+    /* Distribution at the innermost level won't help a dependence that has a
+     * negative component at an outer level. */
+    bool has_neg_comp = false;
+    for (int i = 0; i < prog->ndeps; i++) {
+      Dep *dep = prog->deps[i];
+      if (IS_RAR(dep->type) || dep_is_satisfied(dep))
+        continue;
+      for (int level = 0; level < prog->num_hyperplanes; level++) {
+        if (dep->dirvec[level] == DEP_MINUS || dep->dirvec[level] == DEP_STAR)
+          has_neg_comp = true;
+      }
+    }
+    if (!has_neg_comp) {
+      ddg_update(prog->ddg, prog);
+      ddg_compute_scc(prog);
+      cut_all_sccs(prog, prog->ddg);
+      pluto_compute_dep_satisfaction_precise(prog);
+      is_legal = deps_satisfaction_check(prog);
+    }
+  }
+  swap_evicted_hyperplanes(prog);
+
+  for (int i = 0; i < prog->nstmts && !is_legal; i++) {
+    pluto_matrix_free(prog->stmts[i]->evicted_hyp);
+    prog->stmts[i]->evicted_hyp = NULL;
+  }
+}
+
 /**
  * Top-level automatic transformation algoritm. Returns 0 on success.
  *
@@ -1833,6 +1888,8 @@ int pluto_auto_transform(PlutoProg *prog) {
   if (options->diamondtile && !conc_start_found) {
     PLUTO_MESSAGE(printf("[pluto] Diamond tiling not possible/useful\n"););
   }
+  if (conc_start_found)
+    pluto_diamond_tile_satisfy_intra_tile_deps(prog);
 
   denormalize_domains(prog);
 
-- 
2.43.0


From 227373d5ebfd1b4cc4093c0b8a75a353f4b369e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:19 +0000
Subject: [PATCH 05/49] fix: crash on statements with no surrounding loops in
 libpluto

extract_stmt() wrote parameter names into the names array of the domain; the
array isn't allocated for a statement of dimensionality zero.
---
 lib/plutolib.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 07a2b98..bae51df 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -192,9 +192,10 @@ static isl_stat extract_stmt(__isl_take isl_set *set, void *user) {
                                     stmt->dim);
 
   for (int i = 0; i < npar; i++) {
-    char *param = (char *)malloc(13);
+    char param[13];
+    char *names[] = {param};
     sprintf(param, "p%d", i);
-    stmt->domain->names[stmt->dim + i] = param;
+    pluto_constraints_set_names_range(stmt->domain, names, stmt->dim + i, 0, 1);
   }
 
   pluto_matrix_free(trans);
-- 
2.43.0


From 40226827f4c887919240be44d42c1b74bebcc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:34 +0000
Subject: [PATCH 06/49] fix: statement domains that are unions of several basic
 sets

normalize_domains() asserted on a union domain while collecting the context on
parameters, and pluto_constraints_unionize_simple() returned the last set of
the list instead of the list when the first argument was already a union.
---
 lib/constraints.c | 7 ++++---
 lib/pluto.c       | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index bb8a334..1568883 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1930,10 +1930,11 @@ int pluto_constraints_is_empty(const PlutoConstraints *cst) {
 PlutoConstraints *
 pluto_constraints_unionize_simple(PlutoConstraints *cst1,
                                   const PlutoConstraints *cst2) {
-  while (cst1->next != NULL) {
-    cst1 = cst1->next;
+  PlutoConstraints *last = cst1;
+  while (last->next != NULL) {
+    last = last->next;
   }
-  cst1->next = pluto_constraints_dup(cst2);
+  last->next = pluto_constraints_dup(cst2);
   return cst1;
 }
 
diff --git a/lib/pluto.c b/lib/pluto.c
index 9a75e43..38d3f45 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1163,6 +1163,9 @@ void normalize_domains(PlutoProg *prog) {
         pluto_constraints_alloc(prog->nstmts * npar, npar + 1, prog->context);
     pluto_constraints_set_names(param_context, prog->params);
     for (i = 0; i < prog->nstmts; i++) {
+      /* No single set of constraints on parameters from a union domain */
+      if (prog->stmts[i]->domain->next)
+        continue;
       PlutoConstraints *copy = pluto_constraints_dup(prog->stmts[i]->domain);
       for (unsigned j = 0; j < prog->stmts[i]->dim_orig; j++) {
         fourier_motzkin_eliminate(copy, 0);
-- 
2.43.0


From 32ea5d1a20acdf0427bce2789b401172f7d64ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:30 +0000
Subject: [PATCH 07/49] fix: bands with a negative dependence component
 reported permutable

pluto_get_permutable_band() ignored dependences that no single level satisfies
and those satisfied by a scalar dimension inner to the one being considered.
---
 lib/polyloop.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index bdb8da7..6a8cb9d 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -784,14 +784,12 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
         continue;
       assert(dep->satvec != NULL);
       /* Dependences satisfied outer to the band don't matter */
-      if (dep->satisfaction_level < loop->depth)
-        continue;
-      /* Dependences not satisfied yet don't matter */
-      if (!dep->satisfied)
+      if (dep->satisfied && dep->satisfaction_level < (int)loop->depth)
         continue;
       /* Dependences satisfied in previous scalar dimensions in the band
        * don't count as well (i.e., they can have negative components) */
-      if (pluto_is_depth_scalar(loop, dep->satisfaction_level))
+      if (dep->satisfied && dep->satisfaction_level < depth &&
+          pluto_is_depth_scalar(loop, dep->satisfaction_level))
         continue;
       /* Rest of the dependences need to have non-negative components */
       if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, loop->stmts,
@@ -808,16 +806,12 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
   } while (depth < prog->num_hyperplanes);
 
   /* Peel off scalar dimensions from the end */
-  while (pluto_is_depth_scalar(loop, depth - 1))
+  while (depth > (int)loop->depth && pluto_is_depth_scalar(loop, depth - 1))
     depth--;
 
-  /* depth will always be at least loop->depth + 1 at this stage */
-
   int width = depth - loop->depth;
 
-  assert(width >= 1);
-
-  if (width == 1) {
+  if (width <= 1) {
     /* Trivial (single loop in band) */
     return NULL;
   } else {
-- 
2.43.0


From a3585c28f4178682d9286a7c9ee9f55d9e0bf7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:30 +0000
Subject: [PATCH 08/49] fix: undefined behaviour on programs without loops

pluto_loops_cat() passed a NULL source to memcpy() when there was nothing to
append, and zero-length arrays were declared when tiling a program that has no
hyperplanes.
---
 lib/polyloop.c | 2 +-
 lib/tile.c     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index 6a8cb9d..3f0476f 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -78,7 +78,7 @@ void pluto_loops_free(Ploop **loops, int nloops) {
  * necessary */
 Ploop **pluto_loops_cat(Ploop **dest, int num1, Ploop **src, int num2) {
   assert(num1 >= 0 && num2 >= 0);
-  if (num1 == 0 && num2 == 0) {
+  if (num2 == 0) {
     return dest;
   }
   dest = (Ploop **)realloc(dest, (num1 + num2) * sizeof(Ploop *));
diff --git a/lib/tile.c b/lib/tile.c
index da4e822..74dd14e 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -214,6 +214,10 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
 void pluto_tile(PlutoProg *prog) {
   unsigned nbands, i, j, n_ibands, num_tiled_levels, nloops;
   Band **bands, **ibands;
+
+  if (prog->num_hyperplanes == 0)
+    return;
+
   bands = pluto_get_outermost_permutable_bands(prog, &nbands);
   /* Tiling has not been done yet. Hence num_tiled_levels argument to
    * pluto_get_innermost_permutable_bands is 0. */
-- 
2.43.0


From e29a84ccc0b7b46f911cded9721aa598d4c71259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:18 +0000
Subject: [PATCH 09/49] fix: per-CC objective summed the wrong columns

The u and w of connected component j are npar + 1 columns wide; using j + i as
the column made the bounds of the components and parameters overlap.
---
 lib/pluto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 38d3f45..8721276 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -752,7 +752,7 @@ PlutoConstraints *get_per_cc_obj_sum_constraints(PlutoProg *prog) {
   for (int i = 0; i < npar + 1; i++) {
     obj_sum_cst->val[i][i] = 1;
     for (int j = 1; j <= num_ccs; j++) {
-      obj_sum_cst->val[i][j + i] = -1;
+      obj_sum_cst->val[i][j * (npar + 1) + i] = -1;
     }
   }
   return obj_sum_cst;
-- 
2.43.0


From 651ac05c95c07a56bc9202486d6e0e7cb85caed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:18 +0000
Subject: [PATCH 10/49] fix: connected components of the DDG

ddg_compute_cc() overwrote the id of a vertex visited in an earlier DFS with
that of the most recent component.
---
 lib/pluto.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 8721276..fddb736 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2063,7 +2063,6 @@ void ddg_compute_cc(PlutoProg *prog) {
       dfs_vertex(gU, &gU->vertices[i], &time);
       gU->vertices[i].cc_id = cc_id;
     }
-    gU->vertices[i].cc_id = cc_id;
     g->vertices[i].cc_id = gU->vertices[i].cc_id;
     stmt_id = g->vertices[i].id;
     assert(stmt_id == i);
-- 
2.43.0


From 1a7ae9e5f6b32398f621fe5866ff26cd33a6b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:18 +0000
Subject: [PATCH 11/49] fix: transitive closure missed paths

The intermediate vertex has to be the outermost loop of Floyd-Warshall.
---
 lib/ddg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/ddg.c b/lib/ddg.c
index ad49d2f..259eb88 100644
--- a/lib/ddg.c
+++ b/lib/ddg.c
@@ -102,9 +102,9 @@ Graph *get_undirected_graph(const Graph *g) {
 /// Compute the transitive closure of the graph using Floyd-Warshall algorithm.
 void compute_transitive_closure(Graph *g) {
   int i, j, k;
-  for (i = 0; i < g->nVertices; i++) {
-    for (j = 0; j < g->nVertices; j++) {
-      for (k = 0; k < g->nVertices; k++) {
+  for (k = 0; k < g->nVertices; k++) {
+    for (i = 0; i < g->nVertices; i++) {
+      for (j = 0; j < g->nVertices; j++) {
         g->adj->val[i][j] =
             ((g->adj->val[i][j]) || (g->adj->val[i][k] && g->adj->val[k][j]));
       }
-- 
2.43.0


From 26d9a431f90e959f1eb542ab90f8d639c6f66cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:43 +0000
Subject: [PATCH 12/49] fix: double frees and missing results in the string
 interfaces of libpluto

pluto_schedule_str() freed the domains and dependences it had already given
away, and pluto_parallel_schedule_with_remapping() freed the space twice, never
set the parallel loops it is to return, and left the remapping uninitialized on
failure; pluto_get_remapping_str() dereferenced NULL on failure.
---
 lib/plutolib.c | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index bae51df..544c8a4 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -521,6 +521,10 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   isl_ctx *ctx = isl_union_set_get_ctx(domains);
   isl_space *space = isl_union_set_get_space(domains);
 
+  *ploops = NULL;
+  *nploops = 0;
+  *remap = NULL;
+
   PlutoProg *prog = pluto_prog_from_isl_domains_dependences(
       domains, dependences, NULL, NULL, context);
 
@@ -530,6 +534,7 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   if (pluto_schedule_prog(prog)) {
     /* Failure */
     pluto_prog_free(prog);
+    isl_space_free(space);
 
     if (!context->options->silent) {
       printf("[libpluto] failure, returning NULL schedules\n");
@@ -540,10 +545,12 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   Remapping *remapping = pluto_get_remapping(prog);
   *remap = remapping;
 
+  if (context->options->parallel)
+    *ploops = pluto_get_dom_parallel_loops(prog, nploops);
+
   isl_union_map *schedules = pluto_schedules_to_isl(prog, space, ctx);
 
   pluto_prog_free(prog);
-  isl_space_free(space);
 
   return schedules;
 }
@@ -562,7 +569,7 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
                         Remapping **remapping_ptr, PlutoContext *context) {
   isl_ctx *ctx = isl_ctx_alloc();
   Ploop **ploop;
-  unsigned nploop = 0, i;
+  unsigned nploop, i;
   Remapping *remapping;
 
   isl_union_set *domains = isl_union_set_read_from_str(ctx, domains_str);
@@ -574,15 +581,17 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       domains, dependences, &ploop, &nploop, &remapping, context);
   *remapping_ptr = remapping;
 
-  if (context->options->parallel) {
-    if (!context->options->silent) {
-      pluto_loops_print(ploop, nploop);
-    }
+  if (!schedule) {
+    *schedules_str_buffer_ptr = NULL;
+    isl_ctx_free(ctx);
+    return;
+  }
 
+  if (context->options->parallel) {
     // NOTE: assuming max 4 digits
     // number of parallel loops
-    char *str = (char *)(malloc(sizeof(char) * 5));
-    sprintf(str, "%d", nploop);
+    char str[5];
+    snprintf(str, sizeof(str), "%d", nploop);
 
     // NOTE: assuming max 4 digits per integer, and 1 char for comma
     // 1 place for 'nploop' int itself, and nploop places for the rest
@@ -593,21 +602,20 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       // the result is a csv list
       strcat(p_loops[0], ",");
       // add the i'th parallel loop dim
-      sprintf(str, "%d", ploop[i - 1]->depth + 1);
+      snprintf(str, sizeof(str), "%d", ploop[i - 1]->depth + 1);
       strcat(p_loops[0], str);
     }
   }
+  pluto_loops_free(ploop, nploop);
 
   isl_printer *printer = isl_printer_to_str(ctx);
-  isl_printer_print_union_map(printer, schedule);
+  printer = isl_printer_print_union_map(printer, schedule);
 
   *schedules_str_buffer_ptr = isl_printer_get_str(printer);
   assert(*schedules_str_buffer_ptr != NULL && "isl printer providing empty"
                                               " string");
 
   isl_printer_free(printer);
-  isl_union_set_free(domains);
-  isl_union_map_free(dependences);
   isl_union_map_free(schedule);
 
   isl_ctx_free(ctx);
@@ -623,8 +631,13 @@ void pluto_get_remapping_str(const char *domains_str,
 
   Remapping *remapping_l =
       pluto_schedule_and_get_remapping(domains, dependences, context);
-  *remapping = *remapping_l;
-  free(remapping_l);
+  if (remapping_l) {
+    *remapping = *remapping_l;
+    free(remapping_l);
+  } else {
+    /* No schedule found */
+    memset(remapping, 0, sizeof(*remapping));
+  }
   isl_ctx_free(ctx);
 };
 
-- 
2.43.0


From 011c1f5beecde373ece90d40477bf28fd36f6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:49 +0000
Subject: [PATCH 13/49] fix: abort on dependences with existentials in
 pluto_schedule

Projecting out the array index space from a dependence relation can introduce
existentially quantified variables; remove those as well before the relation
is converted.
---
 lib/program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index 391f1f6..ccf93a8 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -391,6 +391,8 @@ static isl_stat basic_map_extract_dep(__isl_take isl_basic_map *bmap,
   isl_space *space = isl_basic_map_get_space(bmap);
   if (isl_space_range_is_wrapping(space)) {
     bmap = isl_basic_map_range_factor_domain(bmap);
+    /* Dropping the array dimensions can introduce existentials */
+    bmap = isl_basic_map_remove_divs(bmap);
     isl_space_free(space);
     space = isl_basic_map_get_space(bmap);
   }
-- 
2.43.0


From 5af86cf4e2e27297debf783ce7d93d9b290ec4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:49 +0000
Subject: [PATCH 14/49] fix: crash in pluto_schedule with lastwriter and
 isldepcoalesce

pluto_schedule doesn't ask for the transitive dependences.
---
 lib/program.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index ccf93a8..14027a6 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -691,8 +691,10 @@ void compute_deps_isl(__isl_keep isl_union_map *reads,
     *dep_waw = isl_union_map_coalesce(*dep_waw);
 
     if (options->lastwriter) {
-      *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
-      *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
+      if (trans_dep_war)
+        *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
+      if (trans_dep_waw)
+        *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
     }
   }
 }
-- 
2.43.0


From 64402a9a02dc53afc648e0cac218f90a05de7614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:49 +0000
Subject: [PATCH 15/49] fix: pluto_schedule leaked the RAR dependences

---
 lib/plutolib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 544c8a4..309e963 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -447,7 +447,7 @@ __isl_give isl_union_map *pluto_schedule(__isl_take isl_union_map *schedules,
                                          __isl_take isl_union_map *reads,
                                          __isl_take isl_union_map *writes,
                                          PlutoContext *context) {
-  isl_union_map *dep_raw, *dep_war, *dep_waw, *dep_rar;
+  isl_union_map *dep_raw, *dep_war, *dep_waw, *dep_rar = NULL;
 
   isl_union_map *empty = isl_union_map_empty(isl_union_map_get_space(reads));
 
@@ -456,6 +456,8 @@ __isl_give isl_union_map *pluto_schedule(__isl_take isl_union_map *schedules,
   compute_deps_isl(reads, writes, schedules, empty, &dep_raw, &dep_war,
                    &dep_waw, &dep_rar, NULL, NULL, options);
   isl_union_map_free(empty);
+  /* RAR dependences aren't used here */
+  isl_union_map_free(dep_rar);
 
   isl_union_map *dependences = isl_union_map_union(dep_raw, dep_war);
   dependences = isl_union_map_union(dependences, dep_waw);
-- 
2.43.0


From e4a9075d73f5b12326f751e8a60fc4e60168ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:47 +0000
Subject: [PATCH 16/49] fix: tile coordinate of statements with a constant at a
 tiled loop

A statement that has a constant at a dimension that is a loop for other
statements of the band must be placed in the tile of that constant; the
constant itself was used as the tile number, which violated dependences.
---
 lib/tile.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/tile.c b/lib/tile.c
index 74dd14e..bf247ce 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -119,6 +119,9 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
   }
 
   for (unsigned depth = firstD; depth <= lastD; depth++) {
+    /* Is this dimension scalar for all statements in the band? */
+    bool is_scalar =
+        pluto_is_depth_scalar(band->loop, depth + depth - firstD);
     for (unsigned s = 0; s < band->loop->nstmts; s++) {
       Stmt *stmt = band->loop->stmts[s];
       /* 1. Specify tiles in the original domain.
@@ -198,6 +201,14 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
               stmt->trans
                   ->val[firstD + (depth - firstD) + 1 + (depth - firstD)][j];
         }
+        if (!is_scalar) {
+          /* This is a tiled loop for other statements in the band: use the
+           * number of the tile the constant lies in */
+          int64_t *val = &stmt->trans->val[depth][stmt->dim + npar];
+          int64_t size = tile_sizes[depth - firstD];
+          assert(size >= 1);
+          *val = *val >= 0 ? *val / size : -((-*val + size - 1) / size);
+        }
       }
       stmt->num_tiled_loops++;
       stmt->first_tile_dim = firstD;
-- 
2.43.0


From 7df9e3045b94a2b697c8bdaf5ca5577b097f33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:29 +0000
Subject: [PATCH 17/49] fix: crash with glpk, dfp and ilp: scaling is for the
 LP solver only

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 1568883..81abdd5 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1365,7 +1365,7 @@ int64_t *pluto_prog_constraints_lexmin_glpk(const PlutoConstraints *cst,
     return NULL;
   }
 
-  if (options->lp || options->dfp) {
+  if (options->lp) {
 
     fpsol = get_lp_solution_from_glpk_problem(lp);
     num_sols = glp_get_num_cols(lp);
-- 
2.43.0


From e9d38f636b22e22768176d161b29067a6bd381fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:29 +0000
Subject: [PATCH 18/49] fix: properties of SCCs were read uninitialised

---
 lib/ddg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ddg.c b/lib/ddg.c
index 259eb88..9ce07e4 100644
--- a/lib/ddg.c
+++ b/lib/ddg.c
@@ -44,7 +44,7 @@ Graph *graph_alloc(int nVertices, PlutoContext *context) {
       g->adj->val[i][j] = 0;
   }
 
-  g->sccs = (Scc *)malloc(nVertices * sizeof(Scc));
+  g->sccs = (Scc *)calloc(nVertices, sizeof(Scc));
 
   /* Not computed yet */
   g->num_sccs = -1;
-- 
2.43.0


From 18caf7cd9fef6fa907c25330121ef989591ba013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 19/49] fix: skewing one connected component reset the shifts
 of the others

---
 lib/framework-dfp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 0a0d528..2e89cd2 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -3388,6 +3388,9 @@ bool introduce_skew(PlutoProg *prog) {
 
       /* Set appropriate coeffs in the transformation matrix. */
       for (int j = 0; j < nstmts; j++) {
+        /* Only this connected component was constrained. */
+        if (stmts[j]->cc_id != cc_id)
+          continue;
         int stmt_offset = npar + 1 + j * (nvar + 1);
         for (int k = 0; k < nvar; k++) {
           stmts[j]->trans->val[level][k] = sol[stmt_offset + k];
-- 
2.43.0


From fb29b011a1fdbc0e1dde7839ef68b320dc72f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:46 +0000
Subject: [PATCH 20/49] fix: rank and row echelon form of matrices with
 dependent leading columns

---
 lib/math_support.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index bb23abd..918416c 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -452,10 +452,11 @@ PlutoMatrix *pluto_matrix_product(const PlutoMatrix *mat1,
 
 /* Converts matrix to row-echelon form in-place */
 PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat) {
-  int i, j, k, r, _lcm, factor1;
+  int i, j, k, r;
+  int64_t _lcm, factor1;
 
   r = 0;
-  for (i = 0; i < PLMIN(mat->ncols, mat->nrows); i++) {
+  for (i = 0; i < mat->ncols && r < mat->nrows; i++) {
     if (mat->val[r][i] == 0) {
       for (k = r + 1; k < mat->nrows; k++) {
         if (mat->val[k][i] != 0)
@@ -491,11 +492,12 @@ unsigned pluto_matrix_get_rank(const PlutoMatrix *mat) {
 
   unsigned null = 0;
   for (unsigned i = 0; i < re->nrows; i++) {
-    int sum = 0;
-    for (unsigned j = 0; j < re->ncols; j++) {
-      sum += llabs(re->val[i][j]);
+    unsigned j;
+    for (j = 0; j < re->ncols; j++) {
+      if (re->val[i][j] != 0)
+        break;
     }
-    if (sum == 0)
+    if (j == re->ncols)
       null++;
   }
   rank = re->nrows - null;
-- 
2.43.0


From 9bc7c4724c9bcf4b50fa6e08614a4b485df40932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:46 +0000
Subject: [PATCH 21/49] fix: 64-bit matrix entries were truncated to int

---
 lib/constraints.c  |  2 +-
 lib/math_support.c | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 81abdd5..a55f4dd 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -2565,7 +2565,7 @@ void fourier_motzkin_eliminate_smart(PlutoConstraints *cst, unsigned pos) {
 
 void pluto_constraints_gaussian_eliminate(PlutoConstraints *cst, int pos) {
   int r, r2, c;
-  int factor1, factor2;
+  int64_t factor1, factor2;
 
   assert(pos >= 0);
   assert(pos <= cst->ncols - 2);
diff --git a/lib/math_support.c b/lib/math_support.c
index 918416c..aa07617 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -204,10 +204,10 @@ void pluto_matrix_interchange_rows(PlutoMatrix *mat, int r1, int r2) {
 }
 
 void pluto_matrix_interchange_cols(PlutoMatrix *mat, int c1, int c2) {
-  int tmp, i;
+  int i;
 
   for (i = 0; i < mat->nrows; i++) {
-    tmp = mat->val[i][c1];
+    int64_t tmp = mat->val[i][c1];
     mat->val[i][c1] = mat->val[i][c2];
     mat->val[i][c2] = tmp;
   }
@@ -352,7 +352,7 @@ void pluto_matrix_normalize_row(PlutoMatrix *mat, int pos) {
 /* pos: 0-indexed */
 void gaussian_eliminate_var(PlutoMatrix *mat, int pos) {
   int r, r2, c;
-  int factor1, factor2;
+  int64_t factor1, factor2;
 
   for (r = 0; r < mat->nrows; r++) {
     if (mat->val[r][pos] != 0) {
@@ -389,9 +389,9 @@ void gaussian_eliminate(PlutoMatrix *mat, int start, int num_elim) {
 }
 
 int64_t lcm(int64_t a, int64_t b) {
-  if (a * b == 0)
+  if (a == 0 || b == 0)
     return 0;
-  return (a * b) / gcd(a, b);
+  return a / gcd(a, b) * b;
 }
 
 /* Assuming both args are not zero */
@@ -400,7 +400,7 @@ int64_t gcd(int64_t a, int64_t b) {
   b = llabs(b);
 
   /* If at least one of them is zero */
-  if (a * b == 0)
+  if (a == 0 || b == 0)
     return a + b;
 
   if (a == b)
@@ -645,7 +645,8 @@ char *pluto_affine_function_sprint(int64_t *func, int ndims,
  */
 int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                              int r2) {
-  int num, den, j;
+  int64_t num, den;
+  int j;
 
   assert(mat1->ncols == mat2->ncols);
 
@@ -676,7 +677,8 @@ int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
 
 int pluto_vector_is_normal(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                            int r2) {
-  int j, dot;
+  int64_t dot;
+  int j;
 
   assert(mat1->ncols == mat2->ncols);
 
-- 
2.43.0


From 72907bf252236fcb603e0317d62c18cfdf18986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:46 +0000
Subject: [PATCH 22/49] fix: normalizing a row by its gcd did nothing

---
 lib/constraints.c  | 25 ++++++++-----------------
 lib/math_support.c | 25 ++++++++-----------------
 2 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index a55f4dd..7bf69c9 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1572,27 +1572,18 @@ void pluto_constraints_zero_row(PlutoConstraints *cst, int pos) {
 
 /* Normalize row by its gcd */
 void pluto_constraints_normalize_row(PlutoConstraints *cst, int pos) {
-  int i, j, k;
+  int j;
 
   assert(cst->next == NULL);
   assert(pos >= 0 && pos <= cst->nrows - 1);
 
-  /* Normalize cst first */
-  for (i = 0; i < cst->nrows; i++) {
-    if (cst->val[i][0] == 0)
-      continue;
-    int64_t rowgcd = labs(cst->val[i][0]);
-    for (j = 1; j < cst->ncols; j++) {
-      if (cst->val[i][j] == 0)
-        break;
-      rowgcd = gcd(rowgcd, labs(cst->val[i][j]));
-    }
-    if (i == cst->nrows) {
-      if (rowgcd >= 2) {
-        for (k = 0; k < cst->ncols; k++) {
-          cst->val[i][k] /= rowgcd;
-        }
-      }
+  int64_t rowgcd = 0;
+  for (j = 0; j < cst->ncols; j++) {
+    rowgcd = gcd(rowgcd, cst->val[pos][j]);
+  }
+  if (rowgcd >= 2) {
+    for (j = 0; j < cst->ncols; j++) {
+      cst->val[pos][j] /= rowgcd;
     }
   }
 }
diff --git a/lib/math_support.c b/lib/math_support.c
index aa07617..3dbc128 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -327,24 +327,15 @@ void pluto_matrix_print(FILE *fp, const PlutoMatrix *mat) {
 
 /* Normalize row by its gcd */
 void pluto_matrix_normalize_row(PlutoMatrix *mat, int pos) {
-  int i, j, k;
+  int j;
 
-  /* Normalize mat first */
-  for (i = 0; i < mat->nrows; i++) {
-    if (mat->val[i][0] == 0)
-      continue;
-    int rowgcd = llabs(mat->val[i][0]);
-    for (j = 1; j < mat->ncols; j++) {
-      if (mat->val[i][j] == 0)
-        break;
-      rowgcd = gcd(rowgcd, llabs(mat->val[i][j]));
-    }
-    if (i == mat->nrows) {
-      if (rowgcd > 1) {
-        for (k = 0; k < mat->ncols; k++) {
-          mat->val[i][k] /= rowgcd;
-        }
-      }
+  int64_t rowgcd = 0;
+  for (j = 0; j < mat->ncols; j++) {
+    rowgcd = gcd(rowgcd, mat->val[pos][j]);
+  }
+  if (rowgcd >= 2) {
+    for (j = 0; j < mat->ncols; j++) {
+      mat->val[pos][j] /= rowgcd;
     }
   }
 }
-- 
2.43.0


From 5b09b8f5a3b44f7c4c010a2b4f08c2bb8c2a50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:46 +0000
Subject: [PATCH 23/49] fix: negation of a constraint had the wrong constant

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 7bf69c9..a6b1afa 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1729,7 +1729,7 @@ void pluto_constraints_negate_constraint(PlutoConstraints *cst, int pos) {
   for (j = 0; j < cst->ncols - 1; j++) {
     cst->val[pos][j] = -cst->val[pos][j];
   }
-  cst->val[pos][cst->ncols - 1]--;
+  cst->val[pos][cst->ncols - 1] = -cst->val[pos][cst->ncols - 1] - 1;
 }
 
 /* Convert everything to >= 0 form; for all equalities, add a single extra
-- 
2.43.0


From 8296adb2fdb646c1a16614dc4ef36c43a70333c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:34 +0000
Subject: [PATCH 24/49] fix: constant bounds of a variable ignored its
 coefficient

---
 lib/constraints.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index a6b1afa..6e62889 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1929,6 +1929,11 @@ pluto_constraints_unionize_simple(PlutoConstraints *cst1,
   return cst1;
 }
 
+/* floor(n/d) for a positive d */
+static int64_t floord(int64_t n, int64_t d) {
+  return n >= 0 ? n / d : -((-n + d - 1) / d);
+}
+
 /* Get lower bound for pos^th variable if it's a (single) constant: return 1
  * if constant, 0 otherwise */
 int pluto_constraints_get_const_lb(const PlutoConstraints *cnst, int pos,
@@ -1941,16 +1946,16 @@ int pluto_constraints_get_const_lb(const PlutoConstraints *cnst, int pos,
   pluto_constraints_project_out_single(cst, 1, cst->ncols - 2);
 
   retval = 0;
-  *lb = INT_MIN;
+  *lb = LLONG_MIN;
   for (i = 0; i < cst->nrows; i++) {
-    if (cst->is_eq[i]) {
-      *lb = cst->val[i][cst->ncols - 1];
-      retval = 1;
-      break;
+    int64_t coeff = cst->val[i][0], cons = cst->val[i][cst->ncols - 1];
+    if (cst->is_eq[i] && coeff < 0) {
+      coeff = -coeff;
+      cons = -cons;
     }
-    if (!cst->is_eq[i] && cst->val[i][0] >= 1) {
+    if (coeff >= 1) {
       retval = 1;
-      *lb = PLMAX(*lb, -cst->val[i][cst->ncols - 1]);
+      *lb = PLMAX(*lb, -floord(cons, coeff));
     }
   }
   pluto_constraints_free(cst);
@@ -1979,13 +1984,13 @@ int pluto_constraints_get_const_ub(const PlutoConstraints *cnst, int pos,
   retval = 0;
   *ub = LLONG_MAX;
   for (i = 0; i < cst->nrows; i++) {
-    if (cst->is_eq[i]) {
-      *ub = cst->val[i][cst->ncols - 1];
-      retval = 1;
-      break;
+    int64_t coeff = cst->val[i][0], cons = cst->val[i][cst->ncols - 1];
+    if (cst->is_eq[i] && coeff > 0) {
+      coeff = -coeff;
+      cons = -cons;
     }
-    if (!cst->is_eq[i] && cst->val[i][0] <= -1) {
-      *ub = PLMIN(*ub, cst->val[i][cst->ncols - 1]);
+    if (coeff <= -1) {
+      *ub = PLMIN(*ub, floord(cons, -coeff));
       retval = 1;
     }
   }
-- 
2.43.0


From 9c03557009b490f0be9a5140e422ca713ebc598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:34 +0000
Subject: [PATCH 25/49] fix: adding constraints to each element of a list
 dropped rows of later elements

---
 lib/constraints.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 6e62889..640c0b0 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -313,7 +313,8 @@ PlutoConstraints *pluto_constraints_add_to_each(PlutoConstraints *cst1,
   assert(cst1->ncols == cst2->ncols);
 
   if (cst1->nrows + cst2->nrows > cst1->alloc_nrows) {
-    pluto_constraints_resize(cst1, cst1->nrows + cst2->nrows, cst1->ncols);
+    pluto_constraints_resize_single(cst1, cst1->nrows + cst2->nrows,
+                                    cst1->ncols);
   } else {
     cst1->nrows = cst1->nrows + cst2->nrows;
   }
-- 
2.43.0


From 128e4f747d58a1eea1916f52cce146e6fbd96f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:34 +0000
Subject: [PATCH 26/49] fix: simplification stopped at the first unconstrained
 element of a list

---
 lib/constraints.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/constraints.c b/lib/constraints.c
index 640c0b0..791710f 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -380,6 +380,8 @@ void pluto_constraints_simplify(PlutoConstraints *const cst) {
   int64_t _gcd;
 
   if (cst->nrows == 0) {
+    if (cst->next != NULL)
+      pluto_constraints_simplify(cst->next);
     return;
   }
 
-- 
2.43.0


From 05bb754795efbb8d0fed37e8e3986b973b227b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:34 +0000
Subject: [PATCH 27/49] fix: names of constraint dimensions overran or dangled

---
 lib/constraints.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 791710f..14017cc 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -615,12 +615,7 @@ PlutoConstraints *pluto_constraints_copy_single(PlutoConstraints *dest,
 
   /* Resize above may not be needed; need to still free all names;
    * they will be reassigned */
-  if (dest->names) {
-    for (int i = 0; i < (int)dest->ncols - 1; i++) {
-      free(dest->names[i]);
-      dest->names[i] = NULL;
-    }
-  }
+  pluto_constraints_remove_names_single(dest);
 
   dest->nrows = src->nrows;
   dest->ncols = src->ncols;
@@ -632,8 +627,6 @@ PlutoConstraints *pluto_constraints_copy_single(PlutoConstraints *dest,
   memcpy(dest->is_eq, src->is_eq, dest->nrows * sizeof(int));
   if (src->names) {
     pluto_constraints_set_names(dest, src->names);
-  } else {
-    pluto_constraints_remove_names_single(dest);
   }
 
   return dest;
@@ -815,8 +808,8 @@ PlutoConstraints *pluto_constraints_read(FILE *fp, PlutoContext *context) {
     if (num >= 1)
       cst->names = (char **)malloc(num * sizeof(char *));
     for (int i = 0; i < num; i++) {
-      cst->names[i] = (char *)malloc(6);
-      fscanf(fp, "%s", cst->names[i]);
+      cst->names[i] = NULL;
+      fscanf(fp, "%ms", &cst->names[i]);
     }
   }
 
@@ -1548,7 +1541,7 @@ void pluto_constraints_remove_dim(PlutoConstraints *cst, int pos) {
   }
 
   for (int j = pos; j < (int)cst->ncols - 1; j++) {
-    if (cst->names && j < (int)cst->ncols - 2 && cst->names[j + 1]) {
+    if (cst->names && j < (int)cst->ncols - 2) {
       cst->names[j] = cst->names[j + 1];
     }
   }
-- 
2.43.0


From 94e5502791387acbe41a89c1bde4981c36925f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:34 +0000
Subject: [PATCH 28/49] fix: text of an affine function overran or was cut off

---
 lib/math_support.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 3dbc128..2cacb21 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -524,14 +524,14 @@ void pluto_matrix_reverse_rows(PlutoMatrix *mat) {
  */
 void pluto_affine_function_print(FILE *fp, int64_t *func, int ndims,
                                  const char **vars) {
-  char *var[ndims];
+  char *var[ndims + 1];
   int j;
 
   for (j = 0; j < ndims; j++) {
     if (vars && vars[j]) {
       var[j] = strdup(vars[j]);
     } else {
-      var[j] = (char *)malloc(5);
+      var[j] = (char *)malloc(12);
       sprintf(var[j], "x%d", j + 1);
     }
   }
@@ -575,31 +575,33 @@ void pluto_affine_function_print(FILE *fp, int64_t *func, int ndims,
 /* Returned string should be freed with malloc */
 char *pluto_affine_function_sprint(int64_t *func, int ndims,
                                    const char **vars) {
-  char *var[ndims], *out;
+  char *var[ndims + 1], *out;
   int j, n;
 
-  /* max 5 chars for var, 3 for coefficient + 1 if ndims is 0 + 1 null char */
-  n = 9 * ndims + 1 + 1;
-  out = (char *)malloc(n);
-  *out = '\0';
+  /* constant part and null char; 20 chars for a number, 1 for a sign */
+  n = 20 + 1 + 1;
 
   for (j = 0; j < ndims; j++) {
     if (vars && vars[j]) {
       var[j] = strdup(vars[j]);
     } else {
-      var[j] = (char *)malloc(5);
+      var[j] = (char *)malloc(12);
       sprintf(var[j], "x%d", j + 1);
     }
+    n += strlen(var[j]) + 20 + 1;
   }
 
+  out = (char *)malloc(n);
+  *out = '\0';
+
   int first = 0;
   for (j = 0; j < ndims; j++) {
     if (func[j] == 1) {
       if (first)
         strcat(out, "+");
-      snprintf(out + strlen(out), 5, "%s", var[j]);
+      snprintf(out + strlen(out), n - strlen(out), "%s", var[j]);
     } else if (func[j] == -1) {
-      snprintf(out + strlen(out), 6, "-%s", var[j]);
+      snprintf(out + strlen(out), n - strlen(out), "-%s", var[j]);
     } else if (func[j] != 0) {
       if (func[j] >= 1) {
         snprintf(out + strlen(out), n - strlen(out), "%s%ld%s",
@@ -615,9 +617,9 @@ char *pluto_affine_function_sprint(int64_t *func, int ndims,
   if (func[ndims] >= 1) {
     if (first)
       strcat(out, "+");
-    snprintf(out + strlen(out), 3, "%ld", func[ndims]);
+    snprintf(out + strlen(out), n - strlen(out), "%ld", func[ndims]);
   } else if (func[ndims] <= -1) {
-    snprintf(out + strlen(out), 3, "%ld", func[ndims]);
+    snprintf(out + strlen(out), n - strlen(out), "%ld", func[ndims]);
   } else {
     /* 0 */
     if (!first)
-- 
2.43.0


From 426487eae59d6204da55292675272c5ca5e11154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:34 +0000
Subject: [PATCH 29/49] fix: union and projection of constraints with isl used
 no isl context

---
 lib/constraints_isl.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index 85b40c2..6b5b710 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -42,11 +42,14 @@ void pluto_constraints_project_out_isl(PlutoConstraints *cst, int start,
   assert(start >= 0 && end <= (int)cst->ncols - 2);
 
   PlutoContext *context = cst->context;
-  isl_set *set = isl_set_from_pluto_constraints(cst, NULL);
+  isl_ctx *ctx = isl_ctx_alloc();
+  isl_set *set = isl_set_from_pluto_constraints(cst, ctx);
   set = isl_set_project_out(set, isl_dim_set, start, num);
-  pluto_constraints_free(cst);
-  cst = isl_set_to_pluto_constraints(set, context);
+  PlutoConstraints *proj = isl_set_to_pluto_constraints(set, context);
   isl_set_free(set);
+  isl_ctx_free(ctx);
+  pluto_constraints_copy(cst, proj);
+  pluto_constraints_free(proj);
 }
 
 /* start: 0-indexed */
@@ -404,13 +407,15 @@ int64_t *pluto_constraints_lexmin_isl(const PlutoConstraints *cst, int negvar) {
 
 PlutoConstraints *pluto_constraints_union_isl(const PlutoConstraints *cst1,
                                               const PlutoConstraints *cst2) {
-  isl_set *set1 = isl_set_from_pluto_constraints(cst1, NULL);
-  isl_set *set2 = isl_set_from_pluto_constraints(cst2, NULL);
+  isl_ctx *ctx = isl_ctx_alloc();
+  isl_set *set1 = isl_set_from_pluto_constraints(cst1, ctx);
+  isl_set *set2 = isl_set_from_pluto_constraints(cst2, ctx);
   isl_set *set3 = isl_set_union(set1, set2);
 
   PlutoConstraints *ucst = isl_set_to_pluto_constraints(set3, cst1->context);
 
   isl_set_free(set3);
+  isl_ctx_free(ctx);
 
   return ucst;
 }
-- 
2.43.0


From e7cd980e6fa9f8c7aad61853b532cc38d951e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:34 +0000
Subject: [PATCH 30/49] fix: coefficients beyond 32 bits were truncated when
 converted to an isl map

---
 lib/constraints_isl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index 6b5b710..52cb334 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -228,7 +228,8 @@ isl_basic_map_from_pluto_constraints(isl_ctx *ctx, const PlutoConstraints *cst,
     }
 
     for (unsigned j = 0; j < cst->ncols; ++j) {
-      *m = isl_mat_set_element_si(*m, row, j, cst->val[i][j]);
+      *m = isl_mat_set_element_val(*m, row, j,
+                                   isl_val_int_from_si(ctx, cst->val[i][j]));
     }
   }
 
-- 
2.43.0


From bd2159c4537b3253f14b6ea1be707e873358018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:34 +0000
Subject: [PATCH 31/49] fix: isl values too small for 64 bits became the
 largest value

---
 lib/isl_support.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/isl_support.c b/lib/isl_support.c
index a37e731..c4c0612 100644
--- a/lib/isl_support.c
+++ b/lib/isl_support.c
@@ -144,10 +144,11 @@ long long isl_val_get_num_ll(__isl_keep isl_val *v) {
            "largest/smallest signed 64-bit number\n");
     sign = mpz_sgn(z);
     mpz_clear(z);
+    mpz_clear(tmp);
 
     /* 2^63-1 is the largest positive signed number for 64-bit */
     /* -2^63 is the largest negative signed number for 64-bit */
-    return sign ? (long long)((1ULL << 63) - 1) : (long long)((1ULL << 63));
+    return sign > 0 ? (long long)((1ULL << 63) - 1) : (long long)((1ULL << 63));
   }
 
   /* tmp = (lower 64 bits of r) */
-- 
2.43.0


From cac30942fac670c1797f063bad129f54fe2f6932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:14 +0000
Subject: [PATCH 32/49] fix: the parameter list of a program without parameters
 was leaked

---
 lib/program.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 14027a6..2da0b58 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -808,9 +808,7 @@ void pluto_prog_free(PlutoProg *prog) {
   for (int i = 0; i < prog->npar; i++) {
     free(prog->params[i]);
   }
-  if (prog->npar >= 1) {
-    free(prog->params);
-  }
+  free(prog->params);
 
   /* Statements */
   for (unsigned i = 0; i < prog->nstmts; i++) {
-- 
2.43.0


From d186dc5448b5d7bbcd06c1d67061449e2939f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:14 +0000
Subject: [PATCH 33/49] fix: transformations were leaked when the original ones
 are restored

---
 lib/pluto.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index fddb736..1bd48eb 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1863,11 +1863,16 @@ int pluto_auto_transform(PlutoProg *prog) {
                    "transformation (if they exist)\n");
             /* Restore original ones */
             for (i = 0; i < nstmts; i++) {
+              pluto_matrix_free(stmts[i]->trans);
+              free(stmts[i]->hyp_types);
               stmts[i]->trans = orig_trans[i];
               stmts[i]->hyp_types = orig_hyp_types[i];
-              prog->num_hyperplanes = orig_num_hyperplanes;
-              prog->hProps = orig_hProps;
             }
+            free(prog->hProps);
+            prog->num_hyperplanes = orig_num_hyperplanes;
+            prog->hProps = orig_hProps;
+            free(orig_trans);
+            free(orig_hyp_types);
             return 1;
           }
         }
-- 
2.43.0


From 74b54b8d6b7829712a20e586add5fb134093a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:06 +0000
Subject: [PATCH 34/49] fix: the satisfaction vector of a dependence without
 directions was leaked

---
 lib/program.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 2da0b58..84d5f33 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -333,9 +333,7 @@ void pluto_dep_free(Dep *dep) {
   if (dep->dirvec) {
     free(dep->dirvec);
   }
-  if (dep->dirvec) {
-    free(dep->satvec);
-  }
+  free(dep->satvec);
   pluto_constraints_free(dep->cst);
   pluto_constraints_free(dep->bounding_cst);
   free(dep);
-- 
2.43.0


From e6ffaa566f18d5bcc871f25a1631d08f301f96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:06 +0000
Subject: [PATCH 35/49] fix: loops looked at for vectorization inside a tile
 were leaked

---
 lib/post_transform.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 7995386..8dc5c8f 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -424,9 +424,12 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
     }
   }
   if (nploops == 0) {
+    free(par_loops);
+    pluto_loops_free(loops, nloops);
     return false;
   }
 
+  bool retval = false;
   Ploop *best_loop = get_best_vectorizable_loop(par_loops, nploops, prog);
   if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
     IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
@@ -435,9 +438,11 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
     bool move_across_scalar_hyperplanes = true;
     pluto_make_innermost_loop(best_loop, innermost_loop_depth + 1,
                               move_across_scalar_hyperplanes, prog);
-    return true;
+    retval = true;
   }
-  return false;
+  free(par_loops);
+  pluto_loops_free(loops, nloops);
+  return retval;
 }
 
 /// Optimize the intra-tile loop order for locality and vectorization.
-- 
2.43.0


From 786c99bf663efd9fd1ecf3e541adb5ec9e00914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:06 +0000
Subject: [PATCH 36/49] fix: loops were printed on standard output in silent
 mode

---
 lib/post_transform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 8dc5c8f..4f4acb5 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -411,7 +411,7 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
   unsigned nloops;
   Ploop **loops = pluto_get_loops_under(band->loop->stmts, band->loop->nstmts,
                                         depth, prog, &nloops);
-  pluto_loops_print(loops, nloops);
+  IF_DEBUG(pluto_loops_print(loops, nloops););
   unsigned nploops = 0;
   Ploop **par_loops = (Ploop **)malloc(nloops * sizeof(Ploop *));
   unsigned innermost_loop_depth = band->loop->depth;
@@ -433,7 +433,7 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
   Ploop *best_loop = get_best_vectorizable_loop(par_loops, nploops, prog);
   if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
     IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
-    pluto_loop_print(best_loop);
+    IF_DEBUG(pluto_loop_print(best_loop););
 
     bool move_across_scalar_hyperplanes = true;
     pluto_make_innermost_loop(best_loop, innermost_loop_depth + 1,
-- 
2.43.0


From 174b86def5498c9983aeae34d3b74e3d8bdd9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:48 +0000
Subject: [PATCH 37/49] fix: components marked 'do not tile' in .fst/.precut
 were tiled

---
 lib/pluto.h |  1 +
 lib/tile.c  | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/lib/pluto.h b/lib/pluto.h
index ea37d2d..15c193d 100644
--- a/lib/pluto.h
+++ b/lib/pluto.h
@@ -666,6 +666,7 @@ int pluto_loop_is_parallel_for_stmt(const PlutoProg *prog, const Ploop *loop,
                                     const Stmt *stmt);
 int pluto_loop_has_satisfied_dep_with_component(const PlutoProg *prog,
                                                 const Ploop *loop);
+void pluto_band_free(Band *band);
 void pluto_bands_free(Band **bands, unsigned nbands);
 int pluto_is_hyperplane_loop(const Stmt *stmt, int level);
 void pluto_detect_hyperplane_types(PlutoProg *prog);
diff --git a/lib/tile.c b/lib/tile.c
index bf247ce..c909b0f 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -217,6 +217,14 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
   }   /* all scats to be tiled */
 }
 
+static bool band_is_to_be_tiled(const Band *band) {
+  for (unsigned i = 0; i < band->loop->nstmts; i++) {
+    if (band->loop->stmts[i]->tile)
+      return true;
+  }
+  return false;
+}
+
 /*
  * Updates statement domains and transformations to represent the new
  * tiled code. A schedule of tiles is created for parallel execution if
@@ -262,6 +270,16 @@ void pluto_tile(PlutoProg *prog) {
   }
   pluto_loops_free(loops, nloops);
 
+  /* Leave out what .fst/.precut asked not to tile */
+  for (i = 0, j = 0; i < nbands; i++) {
+    if (band_is_to_be_tiled(bands[i])) {
+      bands[j++] = bands[i];
+    } else {
+      pluto_band_free(bands[i]);
+    }
+  }
+  nbands = j;
+
   /* Now, we are ready to tile */
   if (options->lt >= 0 && options->ft >= 0) {
     /* User option specified tiling */
-- 
2.43.0


From c239ba570b1aea043ea8cf731f65552755ccac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:48 +0000
Subject: [PATCH 38/49] fix: the .fst/.precut file was left open

---
 lib/pluto.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 1bd48eb..74959c2 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -899,6 +899,7 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
       printf("You have an .fst in your directory that is invalid for this "
              "source\n");
       printf("No fusion/distribution forced\n");
+      fclose(cutFp);
       return false;
     }
 
@@ -1002,6 +1003,7 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
         }
         stmts[i]->tile = tile;
       }
+      fclose(precut);
 
       /* Set hProps correctly and update satisfied dependences */
       for (k = 0; k < rows; k++) {
-- 
2.43.0


From 402e3332b676c2e749ce96dd8ed7e605a2e08606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:11 +0000
Subject: [PATCH 39/49] fix: concurrent start gave up full rank, and an
 assertion failed

---
 lib/pluto.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 74959c2..2e2e7c8 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1488,6 +1488,20 @@ static void copy_hyperplane(int64_t *h1, int64_t *h2, int ncols) {
   }
 }
 
+/* Would the statement keep its number of linearly independent hyperplanes with
+ * 'hyp' in place of the one at 'pos'? */
+static bool hyperplane_replacement_keeps_rank(Stmt *stmt, int pos,
+                                              const PlutoMatrix *hyp) {
+  unsigned rank = pluto_stmt_get_num_ind_hyps(stmt);
+  PlutoMatrix *trans = stmt->trans;
+  stmt->trans = pluto_matrix_dup(trans);
+  copy_hyperplane(stmt->trans->val[pos], hyp->val[0], trans->ncols);
+  unsigned new_rank = pluto_stmt_get_num_ind_hyps(stmt);
+  pluto_matrix_free(stmt->trans);
+  stmt->trans = trans;
+  return new_rank >= rank;
+}
+
 /* Swap the hyperplanes evicted by diamond tiling with their replacements */
 static void swap_evicted_hyperplanes(PlutoProg *prog) {
   for (int i = 0; i < prog->nstmts; i++) {
@@ -2321,6 +2335,12 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         cone_complement_hyps);
     pluto_matrix_free(conc_start_faces);
 
+    for (i = 0; conc_start_enabled_band && i < band->loop->nstmts; i++) {
+      if (!hyperplane_replacement_keeps_rank(band->loop->stmts[i], evict_pos,
+                                             cone_complement_hyps[i]))
+        conc_start_enabled_band = 0;
+    }
+
     /* Re-arrange the transformation matrix if concurrent start
      * was found, store the replaced hyperplane so that it can be
      * put back for the right intra-tile order */
-- 
2.43.0


From 0047e0c3b4741fb3fac6ebcc767c59b0ea1f3c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 40/49] fix: the decoupled search declared an array of size
 zero without dependences

---
 lib/framework-dfp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 2e89cd2..41ed752 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -3267,8 +3267,9 @@ bool introduce_skew(PlutoProg *prog) {
   PlutoContext *context = prog->context;
   PlutoOptions *options = context->options;
 
-  /* If there are zero or one hyperpane then you dont need to skew */
-  if (prog->num_hyperplanes <= 1) {
+  /* If there are zero or one hyperpane then you dont need to skew; same if
+   * there are no dependences. */
+  if (prog->num_hyperplanes <= 1 || prog->ndeps == 0) {
     return false;
   }
   assert(prog->hProps != NULL);
-- 
2.43.0


From dc480f9073fa3fe89b776e72fe505400982b0c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 41/49] fix: tile size selection aborted or divided by zero
 when the tile volume is fixed

---
 lib/tile_size_selection_model.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 20c62a7..7395502 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -112,10 +112,19 @@ static unsigned approximate_to_nearest_multiple(unsigned num, unsigned factor) {
 /// external library to solve higher degee polynomials.
 unsigned TileSizeSelectionModel::solve_reuse_expression() {
 
+  // Accesses that do not contribute to the volume may leave the polynomial with
+  // leading coefficients that are zero.
+  while (!reuse_polynomial.empty() && reuse_polynomial.back() == 0.0)
+    reuse_polynomial.pop_back();
+
   // Just a constant. return anything
   if (reuse_polynomial.size() < 2)
     return 0;
-  assert(reuse_polynomial.size() >= 2 and reuse_polynomial[0] < 0.0f);
+
+  // The part of the volume that doesn't depend on the tile sizes already fills
+  // up the cache: use the smallest tiles.
+  if (reuse_polynomial[0] >= 0.0)
+    return 0;
 
   // If quadratic, find the exact roots. Else approximate.
   if (reuse_polynomial.size() == 3) {
@@ -395,6 +404,10 @@ void TileSizeSelectionModel::construct_expression_for_tile_volume(
     pluto_access_free(acc);
   }
 
+  // All accesses may be invariant.
+  if (reuse_polynomial.empty())
+    reuse_polynomial.resize(1);
+
   // f(\tau) - Cache_size = 0;
   reuse_polynomial[0] -= num_data_elements_in_cache;
 
-- 
2.43.0


From 125c3cc12ac6a65ca1e7518f13d4224c14a336c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 42/49] fix: tile size selection wrote past its arrays for
 loops inside the band, and leaked

---
 lib/tile_size_selection_model.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 7395502..b99de82 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -274,6 +274,9 @@ unsigned TileSizeSelectionModel::compute_tile_footprint_coefficient_for_access(
     bool has_parallel_loop = false;
     unsigned num_pipe_parallel_access_dims = 0;
     for (unsigned j = 0; j < nloops; j++) {
+      // Loops inside of the band aren't tiled.
+      if (loops[j]->depth - depth >= band->width)
+        continue;
       unsigned loop_depth = depth + loops[j]->depth;
       IF_DEBUG2(printf("loop_depth: %d, loop[%d]->depth: %d\n", loop_depth, j,
                        loops[j]->depth););
@@ -304,7 +307,8 @@ unsigned TileSizeSelectionModel::compute_tile_footprint_coefficient_for_access(
         IF_DEBUG2(
             printf("loop_depth : %d, loops[%d]->depth: %d, dim_reuse: %0.5f, "
                    "depth: %d, DimReuse size: %ld\n",
-                   loop_depth, j, loops[j]->depth, dimReuse[loops[j]->depth],
+                   loop_depth, j, loops[j]->depth,
+                   dimReuse[loops[j]->depth - depth],
                    depth, dimReuse.size()););
         gamma_i = gamma_i + dimReuse[loops[j]->depth - depth];
       }
@@ -465,13 +469,11 @@ static std::vector<bool> get_vectorizable_dimensions(Band *band,
       pluto_loop_print(best_loop);
     }
 
-    // Do not select outermost parallel loop
-    if (best_loop->depth - band->loop->depth == 0)
-      continue;
-    // Do not assign vector tile sizes to concurrent start dimensions.
-    if (prog->is_diamond_tiled && best_loop->depth - band->loop->depth <= 1)
-      continue;
-    vectorizableDims[best_loop->depth - depth] = true;
+    // Do not select outermost parallel loop; do not assign vector tile sizes to
+    // concurrent start dimensions. Loops inside of the band aren't tiled.
+    unsigned dim = best_loop->depth - depth;
+    if (dim > (prog->is_diamond_tiled ? 1 : 0) && dim < vectorizableDims.size())
+      vectorizableDims[dim] = true;
     pluto_loops_free(loops, nloops);
   }
   pluto_bands_free(ibands, num_fused_bands);
@@ -497,6 +499,9 @@ static std::vector<float> get_dimensional_reuse(Band *band, PlutoProg *prog) {
                                         depth, prog, &nloops);
 
   for (unsigned i = 0; i < nloops; i++) {
+    // Loops inside of the band aren't tiled.
+    if (loops[i]->depth - depth >= band->width)
+      continue;
     dimReuse[loops[i]->depth - depth] = get_dimensional_reuse(loops[i]);
     // TODO: Use the following if we want to only consider distinct accesses.
     // To be experimented if this gives better results.
@@ -589,7 +594,7 @@ static std::vector<unsigned> find_tile_sizes(Band *band, PlutoProg *prog) {
       }
     }
 
-    if (parallel) {
+    if (parallel && loops[i]->depth - depth < band->width) {
       par_loop_depth = loops[i]->depth - depth;
       IF_DEBUG(printf("Parallel loop\n"););
       IF_DEBUG(pluto_loop_print(loops[i]););
@@ -598,7 +603,8 @@ static std::vector<unsigned> find_tile_sizes(Band *band, PlutoProg *prog) {
   pluto_loops_free(loops, nloops);
 
   IF_DEBUG(printf("Parallel dimension %d\n", par_loop_depth););
-  if (vectorizableDims[par_loop_depth])
+  if (par_loop_depth < vectorizableDims.size() &&
+      vectorizableDims[par_loop_depth])
     vectorizableDims[par_loop_depth] = false;
 
   bool is_band_wavefront_parallel =
-- 
2.43.0


From a8e217f57559e583c3107735e778973a5c62ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:10 +0000
Subject: [PATCH 43/49] fix: tile space loops were told by the position of a
 domain iterator equal to the depth

---
 lib/program.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 84d5f33..f13b275 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -218,15 +218,17 @@ static int64_t *pluto_check_supernode(const Stmt *stmt, unsigned pos,
   return tile_hyp;
 }
 
-/// Returns true if the input loop is a tile space loop.
+/// Returns true if the input loop is a tile space loop, i.e., if none of the
+/// original iterators of its statements appear in it.
 bool is_tile_space_loop(Ploop *loop, const PlutoProg *prog) {
-  int tile_size;
-  int64_t *tiling_hyp =
-      pluto_check_supernode(loop->stmts[0], loop->depth, &tile_size);
-  if (tiling_hyp == NULL) {
-    return false;
+  for (unsigned i = 0; i < loop->nstmts; i++) {
+    const Stmt *stmt = loop->stmts[i];
+    /* Supernodes come first */
+    for (unsigned j = stmt->dim - stmt->dim_orig; j < stmt->dim; j++) {
+      if (stmt->trans->val[loop->depth][j] != 0)
+        return false;
+    }
   }
-  free(tiling_hyp);
   return true;
 }
 
-- 
2.43.0


From 0d927e095bbe498627ef9c1e3de884eed5094a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:10 +0000
Subject: [PATCH 44/49] fix: loops not permutable with the innermost band were
 offered for unroll-jam

---
 lib/polyloop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index 3f0476f..180dd1b 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -576,7 +576,8 @@ bool is_unroll_jam_profitable(Ploop *loop, const PlutoProg *prog) {
 Ploop **pluto_get_unroll_jam_loops(const PlutoProg *prog,
                                    unsigned *num_ujloops) {
   unsigned num_ibands;
-  Band **ibands = pluto_get_innermost_permutable_bands(prog, 1, &num_ibands);
+  /* Loops under a band that aren't part of it needn't be permutable with it */
+  Band **ibands = pluto_get_innermost_permutable_bands(prog, 0, &num_ibands);
   unsigned num = 0;
   Ploop **ujloops = NULL;
   unsigned nloops = 0;
-- 
2.43.0


From 3eead4b3b586bc3e348f93c96ec2682cd1220731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:24 +0000
Subject: [PATCH 45/49] verif: observation point before scheduling

---
 lib/plutolib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 309e963..e7cd6b9 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -58,6 +58,8 @@ static int pluto_schedule_prog(PlutoProg *prog) {
     fprintf(stdout, "[Pluto] Number of parameters: %d\n", prog->npar);
   }
 
+  VERIF_EVENT("deps", prog);
+
   /* Auto transformation */
   if (!options->identity) {
     if (pluto_auto_transform(prog))
-- 
2.43.0


From e5c7adb2aaeb6986e11d37a06a31313ccc91ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:24 +0000
Subject: [PATCH 46/49] fix: dependences and accesses listing the parameters in
 another order than the domains were misread

---
 lib/plutolib.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index e7cd6b9..de0fc66 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -342,6 +342,16 @@ static PlutoProg *pluto_prog_from_isl_domains_dependences(
 
   prog->nvar = -1;
 
+  /* Dependences and accesses are read by the position of the parameters, which
+   * can be listed in another order, or not at all, there. */
+  isl_space *space = isl_union_set_get_space(domains);
+  dependences = isl_union_map_align_params(dependences, isl_space_copy(space));
+  if (reads)
+    reads = isl_union_map_align_params(reads, isl_space_copy(space));
+  if (writes)
+    writes = isl_union_map_align_params(writes, isl_space_copy(space));
+  isl_space_free(space);
+
   extract_stmts(domains, prog);
   isl_union_set_free(domains);
 
-- 
2.43.0


From 44ffba64355a13ae694efa9d2d8d037bbf0020f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:58 +0000
Subject: [PATCH 47/49] fix: rescheduling inside diamond tiles could violate
 dependences satisfied only by the concurrent start hyperplanes

---
 lib/tile.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/lib/tile.c b/lib/tile.c
index c909b0f..606f99e 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -104,6 +104,24 @@ int pluto_diamond_tile_reschedule(PlutoProg *prog) {
   return retval;
 }
 
+/// Returns true if every dependence is satisfied with no negative component
+/// outer to the level it's satisfied at; uses dependence directions and
+/// satisfaction information.
+static bool are_all_deps_respected(const PlutoProg *prog) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    const Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type))
+      continue;
+    if (!dep->satisfied)
+      return false;
+    for (int level = 0; level < dep->satisfaction_level; level++) {
+      if (dep->dirvec[level] == DEP_MINUS || dep->dirvec[level] == DEP_STAR)
+        return false;
+    }
+  }
+  return true;
+}
+
 /* Manipulates statement domain and transformation to tile scattering
  * dimensions from firstD to lastD */
 void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
@@ -324,7 +342,16 @@ void pluto_tile(PlutoProg *prog) {
     if (retval) {
       pluto_compute_dep_directions(prog);
       pluto_compute_dep_satisfaction(prog);
-      if (!options->silent) {
+      /* The dimensions inner to the band were found for the dependences that
+       * the concurrent start hyperplanes don't satisfy; they needn't satisfy
+       * those that are no longer satisfied: keep the hyperplanes then */
+      if (!are_all_deps_respected(prog)) {
+        pluto_diamond_tile_reschedule(prog);
+        pluto_compute_dep_directions(prog);
+        pluto_compute_dep_satisfaction(prog);
+        retval = 0;
+      }
+      if (retval && !options->silent) {
         printf("[Pluto] After intra_tile reschedule\n");
         pluto_transformations_pretty_print(prog);
       }
-- 
2.43.0


From d6ad3044138a728d753c8e941409eb91da7781a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:48 +0000
Subject: [PATCH 48/49] fix: the spatial reuse analysis leaked the access
 function of scalars

---
 lib/post_transform.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 4f4acb5..e300ec9 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -35,8 +35,11 @@ int has_spatial_reuse(Stmt *stmt, PlutoAccess *acc, int depth) {
   assert(depth <= (int)newacc->ncols - 1);
 
   /* Scalars */
-  if (newacc->nrows == 0)
+  if (newacc->nrows == 0) {
+    pluto_matrix_free(newacc);
+    free(divs);
     return 0;
+  }
 
   for (int i = 0; i < (int)newacc->nrows - 1; i++) {
     /* No spatial reuse when the func is varying at a non-innermost dim */
-- 
2.43.0


From 337cb6b8396d85aa86aff5673657efd8a1ee5ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:14 +0000
Subject: [PATCH 49/49] fix: interchanging the loop of some statements of a
 fused band only violated dependences

---
 lib/post_transform.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index e300ec9..6075750 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -516,8 +516,13 @@ bool pluto_intra_tile_optimize_band(Band *band, int num_tiled_levels,
       if (num_tiled_levels > 0) {
         move_across_scalar_hyperplanes = true;
       }
-      pluto_make_innermost_loop(best_loop, last_level,
+      /* Statements of the band with a scalar dimension at the loop are still
+       * fused with it: the dimensions of all of them are permuted together. */
+      Ploop *band_loop = pluto_loop_dup(band->loop);
+      band_loop->depth = best_loop->depth;
+      pluto_make_innermost_loop(band_loop, last_level,
                                 move_across_scalar_hyperplanes, prog);
+      pluto_loop_free(band_loop);
       retval = true;
     }
 
-- 
2.43.0

