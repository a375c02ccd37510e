/* Declarations of the three functions of pluto's isl fork that apt's isl does
 * not have; defined in shim.c on top of isl's public interface. */
#ifndef VERIF_ABSENT_ISL_H
#define VERIF_ABSENT_ISL_H
#include "isl/aff.h"
#include "isl/map.h"
#ifdef __cplusplus
extern "C" {
#endif
isl_bool isl_map_dim_is_single_valued(isl_map *map, unsigned pos);
isl_pw_aff *isl_pw_aff_from_map_dim(isl_map *map, int pos);
isl_basic_map *isl_basic_map_range_factor_domain(isl_basic_map *bmap);
#ifdef __cplusplus
}
#endif
#endif
