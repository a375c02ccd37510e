#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe), hook=hook, state=list(state)))


TESTS = "The stable tests are six fixed libpluto calls (printed, not compared with anything) and a unit test of constraint and matrix routines on fixed values; "
HOOK = "PLUTO_VERIF_HOOKS: pluto_verif_event() in lib/plutolib.c shows the program after the affine transformation was found and at the end"
ORA = "Trusts the harness's interpreter, clang's sanitizers and isl (parametric part). Sampled programs and options only; small parameter values are enumerated completely, all parameter values through isl within an operation quota."

prop("P01", "Untiled transformations preserve every dependence",
     "For every affine program given as statement domains and dependences, the schedule that is returned without tiling orders the source of every dependence strictly before its target, for all parameter values. Executing the instances in that order (ties in any order) therefore computes the same values as the original program. A schedule is returned, within bounded time, for every program of ordinary loop nests.",
     ["programs", "inputs", "configurations"], "all affine programs, all parameter values, fusion modes, coefficient bounds, with and without access information",
     TESTS + "none checks that a returned schedule is legal, let alone for all programs and parameter values.",
     ["lib/pluto.c", "lib/framework.cpp", "lib/ddg.c", "lib/constraints_isl.c", "lib/plutolib.c", "lib/program.cpp", "lib/constraints.c"],
     [{"name": "Farkas-based legality and bounding constraints", "where": "lib/framework.cpp: get_permutability_constraints, compute_permutability_constraints_dep"},
      {"name": "hyperplane search, cutting by SCC and dimensionality", "where": "lib/pluto.c: pluto_auto_transform, find_permutable_hyperplanes, cut_*"},
      {"name": "lexicographic minimum", "where": "lib/constraints_isl.c: pluto_constraints_lexmin_isl"}],
     "Runtime monitoring: trace oracle over every dependence pair plus re-execution in the new order, under ASan/UBSan", ORA,
     ["return of pluto_transform"], HOOK)
prop("P02", "Tiling, diamond tiling and wavefronts preserve every dependence",
     "For every program, whatever combination of tiling, second-level tiling, diamond tiling, intra-tile loop reordering and wavefront parallelization is asked for, the schedule returned orders the source of every dependence strictly before its target. Executing the instances in that order computes the same values as the original program.",
     ["programs", "inputs", "configurations"], "all affine programs, tile sizes, parameter values, combinations of the tiling and parallelization options",
     TESTS + "tiled schedules are only printed.",
     ["lib/tile.c", "lib/post_transform.c", "lib/pluto.c", "lib/polyloop.c", "lib/transforms.c", "lib/plutolib.c", "lib/program.cpp"],
     [{"name": "only permutable bands are tiled", "where": "lib/polyloop.c: pluto_get_permutable_band; lib/tile.c: pluto_tile"},
      {"name": "wavefront from loops with non-negative components", "where": "lib/tile.c: pluto_create_tile_schedule_band"},
      {"name": "concurrent start and its evicted hyperplane", "where": "lib/pluto.c: pluto_diamond_tile; lib/tile.c: pluto_diamond_tile_reschedule"},
      {"name": "intra-tile interchange stays inside a permutable band", "where": "lib/post_transform.c: pluto_intra_tile_optimize_band"}],
     "Runtime monitoring: trace oracle over every dependence pair plus re-execution in the new order, under ASan/UBSan", ORA,
     ["return of pluto_transform"], HOOK)
prop("P03", "Schedules are total, single-valued, one-to-one and in one space",
     "Every scheduling entry point returns a mapping that gives each instance of each statement exactly one date, gives different instances of a statement different dates, and maps all statements into one space of equal dimensionality using only the given statements and parameters. The entry point that is given domains with their order returns a mapping on exactly those domains. The mapping returned equals the transformation the library decided on, tiles included.",
     ["programs", "inputs", "configurations"], "all programs (guards, unions, 0-dimensional statements), all options, all parameter values",
     TESTS + "nothing about totality or injectivity is asserted anywhere.",
     ["lib/plutolib.c", "lib/pluto.c", "lib/program.cpp", "lib/constraints_isl.c", "lib/transforms.c"],
     [{"name": "linear independence constraints until full rank", "where": "lib/framework.cpp: get_stmt_lin_ind_constraints; lib/pluto.c: pluto_transformations_full_ranked"},
      {"name": "conversion of transformation and tile constraints to a relation", "where": "lib/plutolib.c: normalize_domain_schedule, pluto_schedules_to_isl"}],
     "Runtime monitoring: per-instance date oracle on the returned relation and on the observed transformation", ORA,
     ["return of pluto_transform, pluto_schedule, pluto_schedule_str"], HOOK)
prop("P04", "Tiles have exactly the requested shape and size",
     "When tiling is on, every statement in a permutable band gets one tile iterator per loop of the band and tiling level, and an instance lies in tile floor(h/size) along each tiled hyperplane h; second-level tiles group first-level tiles by the given ratio. Sizes are those in the tile-size file, in order, per band, and 32 with ratio 8 where there is no file. Without reordering options, the new date is outer dimensions, tile coordinates, then the untiled date.",
     ["programs", "inputs", "configurations"], "all tilable programs, tile sizes from 1 up, one or two levels",
     TESTS + "no test reads a tile.",
     ["lib/tile.c", "lib/transforms.c", "lib/program.cpp", "lib/polyloop.c"],
     [{"name": "tile constraints on domains and dependences", "where": "lib/tile.c: pluto_tile_band"},
      {"name": "tile sizes", "where": "lib/tile.c: read_tile_sizes, pluto_tile_scattering_dims"}],
     "Runtime monitoring: tile coordinates of every instance compared with floor division of the observed untiled hyperplane values", ORA, ["event 'final'"], HOOK)
prop("P05", "Loops reported parallel carry no dependence, and none is missed",
     "A loop of the transformed program that is reported parallel never has two dependent instances of statements iterated by it (those not constant along that dimension) with equal outer iterations on different iterations of it. A loop is reported sequential only if some dependence that no single outer dimension satisfies entirely has a non-zero component along it. The outermost parallel loops reported are parallel loops, not nested in each other, and cover every parallel loop. A band reported parallel from such a loop consists of dimensions along which no dependence left by outer dimensions moves. Every dimension a statement iterates along belongs to exactly one reported loop, which holds all statements that iterate there with equal outer dates. With parallel code requested, a permutable band of at least two loops has a parallel loop afterwards: its first, or after a wavefront the second (with multipar all but the first).",
     ["programs", "inputs", "configurations"], "all programs, tiled or not, with and without wavefronts, all parameter values sampled",
     TESTS + "the number of parallel loops is printed in silent-off mode, never checked.",
     ["lib/polyloop.c", "lib/pluto.c", "lib/tile.c", "lib/plutolib.c"],
     [{"name": "satisfaction vectors", "where": "lib/pluto.c: pluto_compute_dep_satisfaction; lib/tile.c updates after a wavefront"},
      {"name": "parallel loop detection", "where": "lib/polyloop.c: pluto_loop_is_parallel, pluto_get_dom_parallel_loops"}],
     "Runtime monitoring: race oracle over all dependent instance pairs in each claimed-parallel loop; exact emptiness tests for sequential claims", ORA,
     ["events 'auto' and 'final'"], HOOK)
prop("P06", "Bands reported permutable are permutable and outermost bands maximal",
     "Within a band reported permutable, no dependence left by the outer dimensions has a negative component along any of its loops, unless a scalar dimension of the band separates its two statements first. Consecutive loops along which all dependences left by outer dimensions have non-negative components lie inside a reported outermost band. Bands start at a loop, end at a loop and have width at least two.",
     ["programs", "inputs", "configurations"], "all programs and options, before and after tiling",
     TESTS + "bands are never inspected.",
     ["lib/polyloop.c", "lib/pluto.c", "lib/program.cpp"],
     [{"name": "band detection from dependence directions", "where": "lib/polyloop.c: pluto_get_permutable_band, pluto_get_outermost_permutable_bands, pluto_get_dominator_bands"}],
     "Runtime monitoring: component oracle over all dependent instance pairs in each band; exact emptiness tests for maximality", ORA, ["events 'auto' and 'final'"], HOOK)
prop("P07", "Remapping recovers the original iteration from the new one",
     "The remapping returned with a schedule maps the date of every statement instance, together with the parameter values, back to exactly that instance's tile coordinates, original iterators and parameters, after dividing each row by its divisor. Its dimensions fit the schedule returned.",
     ["programs", "inputs", "configurations"], "all programs, tiled or not, all instances",
     TESTS + "the remapping is only printed.",
     ["lib/plutolib.c", "lib/program.cpp"],
     [{"name": "inverse of the transformation", "where": "lib/program.cpp: pluto_stmt_get_remapping"}],
     "Runtime monitoring: round trip of every executed instance through schedule and remapping", ORA, ["returns of pluto_schedule_str, pluto_get_remapping_str"], HOOK)
prop("P08", "Schedules computed from reads and writes respect every conflict",
     "Given statement domains with their original order and the read and write access relations, the schedule returned orders every pair of accesses to the same element, at least one of them a write, as the original program does, or leaves the values read and the final memory unchanged. This holds with and without last-writer analysis, dependence coalescing and read-read dependences.",
     ["programs", "inputs", "configurations"], "all programs, all dependence-analysis options",
     TESTS + "the one call through this entry point fails to run in this build.",
     ["lib/program.cpp", "lib/plutolib.c", "lib/isl_support.c"],
     [{"name": "flow, anti and output dependences", "where": "lib/program.cpp: compute_deps_isl, extract_deps_from_isl_union_map, basic_map_extract_dep"}],
     "Runtime monitoring: memory-conflict oracle from the executed original program plus re-execution", ORA, ["return of pluto_schedule"], HOOK)
prop("P09", "String and native interfaces agree",
     "For the same domains, dependences and options, the string interfaces and the native interface return schedules that give every statement instance the same date. The parallel loops returned as text are exactly the outermost parallel loops of the transformed program, and the two string interfaces return the same remapping.",
     ["programs", "inputs", "configurations"], "all programs and options",
     TESTS + "each interface is exercised on different programs.",
     ["lib/plutolib.c"],
     [{"name": "string front ends", "where": "lib/plutolib.c: pluto_schedule_str, pluto_get_remapping_str, pluto_parallel_schedule_with_remapping"}],
     "Runtime monitoring: differential run of the three entry points, compared instance by instance", ORA, ["returns of the entry points"], HOOK)
prop("P12", "Results depend only on the inputs",
     "The result for a program and option set is the same on every call: it does not depend on what was transformed before in the process or through the same context, on whether progress or debugging output is on, or on the previous contents of memory.",
     ["programs", "histories", "configurations"], "all programs, call histories, output options, heap contents",
     TESTS + "each runs once in a fresh process.",
     ["lib/plutolib.c", "lib/pluto.c", "lib/framework.cpp", "lib/program.cpp", "lib/tile.c", "lib/polyloop.c", "lib/constraints.c"],
     [{"name": "all state in the context and the program object", "where": "include/pluto/pluto.h: PlutoContext; lib/program.cpp: pluto_prog_alloc, pluto_stmt_alloc, pluto_dep_alloc"}],
     "Runtime monitoring: rerun comparison across histories, output options and heap fill patterns under ASan", ORA, ["return values and observed transformation"], HOOK)
prop("P15", "Dependence directions and satisfaction match the dependence",
     "For every dependence and dimension of the transformed program the direction reported (0, +, -, *) is exactly the set of signs its distance takes, and the satisfaction level reported is the first dimension along which all of its pairs have a positive distance (none if there is no such dimension). A dimension left out of the satisfaction vector carries no pair of the dependence. After tiling, each dependence links exactly the pairs of instances it linked before, each instance in its tile.",
     ["programs", "inputs", "configurations"], "all programs and options, before and after tiling",
     TESTS + "directions are never inspected.",
     ["lib/pluto.c", "lib/program.cpp", "lib/constraints.c"],
     [{"name": "direction and satisfaction tests", "where": "lib/framework.cpp: get_dep_direction, dep_satisfaction_test; lib/pluto.c: pluto_compute_dep_directions, pluto_compute_dep_satisfaction"}],
     "Runtime monitoring: every claim compared with all points of the dependence and with exact emptiness tests", ORA, ["events 'auto' and 'final'"], HOOK)

exec(open(os.path.join(ROOT, "meta_more.py")).read()) if os.path.exists(os.path.join(ROOT, "meta_more.py")) else None
NA = globals().get("NOT_APPLICABLE", [])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
man = {"version": 1, "setup_cmd": "python3 mon/build.py asan tool tsan",
       "hooks": {"guard": "PLUTO_VERIF_HOOKS", "enable": "mon/build.py compiles /repo/lib with -DPLUTO_VERIF_HOOKS into /verif/build",
                 "source_commits": [h.split()[0] for h in hooks if " verif:" in h]},
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in [n["property"] for n in NA]],
       "not_applicable": NA}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
