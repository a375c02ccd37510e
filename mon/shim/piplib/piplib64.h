/* Stand-in for piplib (its submodule is empty in this tree): the same types
 * and entry points, solved with isl in shim.c.  Only what lib/constraints.c
 * uses. */
#ifndef VERIF_PIPLIB64_H
#define VERIF_PIPLIB64_H
#ifdef __cplusplus
extern "C" {
#endif
typedef long long Entier;
typedef struct { unsigned NbRows, NbColumns; Entier **p; Entier *p_Init; int p_Init_size; } PipMatrix;
typedef struct { int nb_elements; Entier *the_vector; Entier *the_deno; } PipVector;
typedef struct pip_list { PipVector *vector; struct pip_list *next; } PipList;
typedef struct pip_quast { void *newparm; PipList *list; PipVector *condition;
  struct pip_quast *next_then, *next_else, *father; } PipQuast;
typedef struct { int Nq, Verbose, Simplify, Deepest_cut, Maximize, Urs_parms, Urs_unknowns, Compute_dual; } PipOptions;
PipMatrix *pip_matrix_alloc(unsigned, unsigned);
void pip_matrix_free(PipMatrix *);
PipOptions *pip_options_init(void);
void pip_options_free(PipOptions *);
PipQuast *pip_solve(PipMatrix *, PipMatrix *, int, PipOptions *);
void pip_quast_free(PipQuast *);
#ifdef __cplusplus
}
#endif
#endif
