/* Definitions of what this sandbox lacks and libpluto calls: three functions
 * of pluto's isl fork, and piplib.  Written on isl's public interface. */
#include "absent_isl.h"
#include "piplib/piplib64.h"
#include <isl/set.h>
#include <isl/point.h>
#include <isl/space.h>
#include <isl/val.h>
#include <isl/constraint.h>
#include <isl/local_space.h>
#include <stdlib.h>

/* keep output dim pos only */
static isl_map *only_dim(__isl_keep isl_map *map, unsigned pos) {
  isl_map *m = isl_map_copy(map);
  unsigned n = isl_map_dim(m, isl_dim_out);
  m = isl_map_project_out(m, isl_dim_out, pos + 1, n - pos - 1);
  m = isl_map_project_out(m, isl_dim_out, 0, pos);
  return m;
}

isl_bool isl_map_dim_is_single_valued(isl_map *map, unsigned pos) {
  isl_map *m = only_dim(map, pos);
  isl_bool r = isl_map_is_single_valued(m);
  isl_map_free(m);
  return r;
}

isl_pw_aff *isl_pw_aff_from_map_dim(isl_map *map, int pos) {
  isl_map *m = only_dim(map, pos);
  isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(m);
  isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
  isl_pw_multi_aff_free(pma);
  return pa;
}

isl_basic_map *isl_basic_map_range_factor_domain(isl_basic_map *bmap) {
  isl_map *m = isl_map_range_factor_domain(isl_map_from_basic_map(bmap));
  m = isl_map_coalesce(isl_map_remove_redundancies(m));
  return isl_map_simple_hull(m);
}

PipMatrix *pip_matrix_alloc(unsigned nr, unsigned nc) {
  PipMatrix *m = (PipMatrix *)malloc(sizeof *m);
  m->NbRows = nr; m->NbColumns = nc;
  m->p_Init_size = nr * nc;
  m->p_Init = (Entier *)calloc((size_t)nr * nc + 1, sizeof(Entier));
  m->p = (Entier **)malloc(sizeof(Entier *) * (nr + 1));
  for (unsigned i = 0; i < nr; i++) m->p[i] = m->p_Init + (size_t)i * nc;
  return m;
}
void pip_matrix_free(PipMatrix *m) { if (m) { free(m->p_Init); free(m->p); free(m); } }
PipOptions *pip_options_init(void) { PipOptions *o = (PipOptions *)calloc(1, sizeof *o); o->Nq = 1; return o; }
void pip_options_free(PipOptions *o) { free(o); }
void pip_quast_free(PipQuast *q) {
  if (!q) return;
  for (PipList *l = q->list; l;) {
    PipList *n = l->next;
    if (l->vector) { free(l->vector->the_vector); free(l->vector); }
    free(l); l = n;
  }
  free(q);
}
PipQuast *pip_solve(PipMatrix *d, PipMatrix *ctxm, int bignum, PipOptions *o) {
  (void)ctxm; (void)bignum;
  unsigned nv = d->NbColumns - 2;
  isl_ctx *ctx = isl_ctx_alloc();
  isl_space *sp = isl_space_set_alloc(ctx, 0, nv);
  isl_local_space *ls = isl_local_space_from_space(isl_space_copy(sp));
  isl_set *s = isl_set_universe(sp);
  for (unsigned i = 0; i < d->NbRows; i++) {
    isl_constraint *c = d->p[i][0] ? isl_constraint_alloc_inequality(isl_local_space_copy(ls))
                                   : isl_constraint_alloc_equality(isl_local_space_copy(ls));
    for (unsigned j = 0; j < nv; j++)
      c = isl_constraint_set_coefficient_val(c, isl_dim_set, j, isl_val_int_from_si(ctx, d->p[i][1 + j]));
    c = isl_constraint_set_constant_val(c, isl_val_int_from_si(ctx, d->p[i][1 + nv]));
    s = isl_set_add_constraint(s, c);
  }
  isl_local_space_free(ls);
  if (!o->Urs_unknowns)
    for (unsigned j = 0; j < nv; j++) s = isl_set_lower_bound_si(s, isl_dim_set, j, 0);
  PipQuast *q = (PipQuast *)calloc(1, sizeof *q);
  if (isl_set_is_empty(s) == isl_bool_false) {
    isl_point *pt;
    if (o->Urs_unknowns) {
      /* existence only, when unbounded below; lexmin where it exists */
      int bounded = isl_set_is_bounded(s) == isl_bool_true;
      pt = isl_set_sample_point(bounded ? isl_set_lexmin(s) : s);
    } else {
      pt = isl_set_sample_point(isl_set_lexmin(s));
    }
    PipList **tail = &q->list;
    if (!nv) q->list = (PipList *)calloc(1, sizeof(PipList)); /* feasible */
    for (unsigned j = 0; j < nv; j++) {
      isl_val *v = isl_point_get_coordinate_val(pt, isl_dim_set, j);
      PipList *l = (PipList *)calloc(1, sizeof *l);
      l->vector = (PipVector *)calloc(1, sizeof *l->vector);
      l->vector->nb_elements = 1;
      l->vector->the_vector = (Entier *)malloc(sizeof(Entier));
      l->vector->the_vector[0] = isl_val_get_num_si(v);
      isl_val_free(v);
      *tail = l; tail = &l->next;
    }
    isl_point_free(pt);
  } else {
    isl_set_free(s);
  }
  isl_ctx_free(ctx);
  return q;
}
