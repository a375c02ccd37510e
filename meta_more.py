prop("P18", "Every solver and search strategy returns legal schedules",
     "Whichever solver (glpk as integer program, glpk as linear program with scaling) or search strategy (the decoupled search over a fusion conflict graph, with its clustering, colouring and fusion variants) is selected, a schedule that is returned orders the source of every dependence strictly before its target for all parameter values, and gives every instance exactly one date. A schedule is returned for all but a few programs.",
     ["programs", "inputs", "configurations"], "all programs of ordinary loop nests, all solver and search options, all parameter values",
     TESTS + "none selects glpk or the decoupled search.",
     ["lib/framework-dfp.c", "lib/constraints.c", "lib/pluto.c", "lib/framework.cpp", "lib/ddg.c"],
     [{"name": "ILP/LP objective and scaling to integers", "where": "lib/constraints.c: pluto_prog_constraints_lexmin_glpk, get_scaling_lp_glpk; lib/framework-dfp.c: populate_scaling_csr_matrices_for_pluto_program"},
      {"name": "fusion conflict graph, colouring, scaling and skewing", "where": "lib/framework-dfp.c: build_fusion_conflict_graph, find_permutable_dimensions_scc_based, introduce_skew"}],
     "Runtime monitoring: trace oracle over every dependence pair plus re-execution in the new order, under ASan/UBSan", ORA + " Some assertion failures of the decoupled search are listed as known findings.",
     ["return of pluto_transform"], HOOK)
prop("P13", "Operations on constraint sets mean what they say",
     "For all operands, each operation on constraint sets returns exactly the set it denotes, and leaves arguments it does not claim to modify as they were. Copies, unions, intersections, differences, adding, removing and selecting rows, adding, removing and exchanging dimensions, shifts, images under unimodular maps, negation of an inequality, and conversions to and from matrices, text and isl sets and maps are exact, also for unions of several polyhedra and entries beyond 32 bits; names stay with their dimension. Elimination and projection (Fourier-Motzkin, Gaussian, image) give the rational shadow; projection through isl contains the shadow of every integer point and is exact where the projected variable has unit coefficients. Simplification keeps the set and leaves no duplicate or unnormalized row. Emptiness, lexicographic minima and integer optima are exact; constant bounds are the tight integer ones.",
     ["inputs"], "all constraint sets that do not overflow 64 bits (unions with non-empty elements for the difference)",
     "The unit tests run a handful of operations on one fixed operand each; several operations have no test. ",
     ["lib/constraints.c", "lib/constraints_isl.c", "lib/isl_support.c", "tool/constraints_polylib.c"],
     [{"name": "Fourier-Motzkin and Gaussian elimination", "where": "lib/constraints.c: fourier_motzkin_eliminate, fourier_motzkin_eliminate_smart, pluto_constraints_gaussian_eliminate"},
      {"name": "set operations", "where": "tool/constraints_polylib.c; lib/constraints_isl.c"},
      {"name": "solvers", "where": "lib/constraints_isl.c: pluto_constraints_lexmin_isl; lib/constraints.c: pluto_constraints_lexmin, pluto_prog_constraints_lexmin_glpk"},
      {"name": "storage, names, lists", "where": "lib/constraints.c: pluto_constraints_resize_single, pluto_constraints_copy_single, pluto_constraints_add_dim"}],
     "Runtime monitoring: every call compared with point enumeration and exact rational arithmetic, under ASan/UBSan", "Sampled operands of up to four dimensions; membership compared at every point of a box (with denominators up to 3 for projections).",
     ["return of each operation"])
prop("P14", "Matrix and integer arithmetic is exact",
     "For all matrices whose results fit 64 bits: the rank is the rank over the rationals, the row echelon form has the same row space, Gaussian elimination returns a basis of the rows without component in the eliminated columns, products, identities and all row and column edits are exact, equality is entrywise, a printed matrix reads back equal. Greatest common divisors, least common multiples, lexicographic comparison, parallelism and orthogonality of rows and normalization of a row are exact. The text of an affine function is its terms in order, whole, whatever the size of names and coefficients.",
     ["inputs"], "all matrices and integers whose results fit 64 bits",
     "The unit tests run row echelon form and rank on four fixed matrices. ",
     ["lib/math_support.c"],
     [{"name": "rank and echelon form", "where": "lib/math_support.c: pluto_matrix_to_row_echelon, pluto_matrix_get_rank"},
      {"name": "affine function text", "where": "lib/math_support.c: pluto_affine_function_sprint"}],
     "Runtime monitoring: every call compared with exact 128-bit arithmetic, under ASan/UBSan", "Sampled matrices of up to 5x5.", ["return of each operation"])
prop("P20", "Linearization by the Farkas lemma is exact",
     "For every non-empty polyhedron and every affine form whose coefficients are affine functions of unknowns, the constraints returned on the unknowns admit exactly those (rational) values for which the form is non-negative on the whole polyhedron. Neither is a legal choice excluded nor an illegal one admitted; the arguments are unchanged.",
     ["inputs"], "all non-empty polyhedra, bounded or not, all parametric affine forms",
     "One unit test prints the result for one operand. ",
     ["lib/constraints.c"],
     [{"name": "affine form of the Farkas lemma", "where": "lib/constraints.c: farkas_lemma_affine, fourier_motzkin_eliminate_smart, pluto_constraints_best_elim_candidate"}],
     "Runtime monitoring: result compared at every point of a box of coefficient values with the generators of the domain, under ASan/UBSan", "Sampled domains of up to 3 dimensions and 3 unknowns; generators computed exactly by the harness.", ["return of farkas_lemma_affine"])
prop("P11", "No invalid memory access, undefined behaviour or leak",
     "Whatever program and options it is given, a call of any scheduling entry point performs no access outside live memory, no use of freed memory, no double free and no undefined arithmetic, does not abort, releases every isl object it created, and, once the caller has freed the result and the context, leaves no memory allocated: repeating a call does not make the heap grow.",
     ["programs", "inputs", "configurations"], "all programs, entry points, solvers and output levels, successful or not",
     TESTS + "none runs under a sanitizer or looks at memory left behind.",
     ["lib/pluto.c", "lib/framework.cpp", "lib/program.cpp", "lib/plutolib.c", "lib/tile.c", "lib/polyloop.c", "lib/post_transform.c", "lib/framework-dfp.c", "lib/ddg.c"],
     [{"name": "ownership of statements, dependences, transformations, loops and bands", "where": "lib/program.cpp: pluto_prog_free, pluto_dep_free, pluto_stmt_free; lib/polyloop.c: pluto_loops_free, pluto_bands_free"},
      {"name": "entry points", "where": "lib/plutolib.c: pluto_transform, pluto_schedule, pluto_schedule_str, pluto_get_remapping_str"}],
     "Sanitizers (AddressSanitizer, UBSan) plus a heap-growth monitor over repeated calls and isl's own reference check", "isl and glpk are not instrumented. Sampled programs and options. Assertion failures of the decoupled search are listed as known findings.", ["allocated bytes after each call", "sanitizer reports", "isl_ctx_free"])
prop("P10", "Calls in different threads do not interfere",
     "Threads that use the library at the same time, each with its own pluto and isl contexts, do not race on any memory of the library, and each call returns exactly what it returns when run alone.",
     ["schedules", "histories", "programs"], "all interleavings of concurrent calls with separate contexts, all programs and options",
     TESTS + "none starts a thread.",
     ["lib/plutolib.c", "lib/pluto.c", "lib/framework.cpp", "lib/program.cpp", "lib/tile.c", "lib/polyloop.c", "lib/constraints.c", "lib/constraints_isl.c", "lib/ddg.c"],
     [{"name": "all state in the context and the program object; no mutable globals", "where": "include/pluto/pluto.h: PlutoContext; lib/plutolib.c: pluto_context_alloc"}],
     "Race detector (ThreadSanitizer, happens-before) plus comparison of each concurrent result with the sequential one", "Four threads, three rounds per case. isl and glpk are not instrumented. tile.sizes, .fst and .precut are shared by the threads.",
     ["every access of libpluto to memory", "returns of the entry points"], HOOK)
prop("P16", "The dependence graph and what is derived from it are right",
     "For every program, the dependence graph has an edge between two statements exactly where an unsatisfied dependence (other than read-read) links them. Its strongly connected components partition the statements as mutual reachability does and are numbered in an order all dependences follow; sizes and dimensionalities of components, connected components, transitive closure, transposed and undirected graph, connectivity queries and counts of unsatisfied dependences agree with the graph.",
     ["inputs", "histories"], "all graphs of statements and dependences, any subset of them satisfied",
     "No unit test touches the graph. ",
     ["lib/ddg.c", "lib/pluto.c"],
     [{"name": "Kosaraju two-pass depth-first search", "where": "lib/ddg.c: dfs, dfs_for_scc, dfs_vertex, ddg_compute_scc, ddg_compute_cc"},
      {"name": "graph of unsatisfied dependences", "where": "lib/pluto.c: ddg_create, ddg_update; lib/ddg.c: transitive_closure, get_undirected_graph"}],
     "Runtime monitoring: every call compared with reachability computed by the harness, under ASan/UBSan", "Sampled graphs of up to 9 statements.", ["return of each operation"])
prop("P17", "Fusion and tiling requests are honoured",
     "With no fusion requested, statements of different strongly connected components never share a loop, also when .fst/.precut asks otherwise. With the default heuristic, a component and another that depends directly on it never share the outermost loop if their dimensionalities differ. With maximal fusion, a program written as one nest with a common outer loop keeps a common outer loop. A .fst grouping that some legal order allows is the outermost dimension of the schedule, component by component; the rows of a .precut that some legal schedule begins with are the first rows of the result; either way the schedule is legal and one-to-one, and components are tiled or left untiled as the file says. A .fst with more components than statements is ignored.",
     ["programs", "inputs", "configurations"], "all programs, fusion options, groupings and partial schedules that can be completed",
     TESTS + "no test asks for a fusion structure.",
     ["lib/pluto.c", "lib/tile.c", "lib/ddg.c"],
     [{"name": "distribution", "where": "lib/pluto.c: cut_all_sccs, cut_scc_dim_based, cut_smart, cut_conservative, cut_between_sccs"},
      {"name": "custom structure", "where": "lib/pluto.c: precut; lib/tile.c: pluto_tile"}],
     "Runtime monitoring: the transformation observed is compared with the request; trace oracle for legality, under ASan/UBSan", ORA, ["event 'auto'", "event 'final'", "return of pluto_transform"], HOOK)
prop("P19", "The outermost loop has the least dependence distance",
     "With maximal fusion, the outermost hyperplane found carries dependences over a distance no larger than that of any other legal outermost hyperplane with small non-negative coefficients: where one exists with no dependence across it (an outer parallel loop) or with a bounded distance, the one found is as good. The outermost dimension is a loop whenever a legal one exists, and a single statement with enough independent legal hyperplanes gets a permutable band over all its dimensions.",
     ["programs", "inputs", "configurations"], "all programs of one fused component, all parameter values; competitors with coefficients 0 to 2",
     TESTS + "no test compares the schedule found with any other.",
     ["lib/framework.cpp", "lib/pluto.c", "lib/constraints_isl.c", "lib/constraints.c"],
     [{"name": "bounding function u.n + w and lexicographic minimization", "where": "lib/framework.cpp: compute_pairwise_permutability, get_permutability_constraints; lib/pluto.c: find_permutable_hyperplanes, get_coeff_bounding_constraints"},
      {"name": "linear independence", "where": "lib/framework.cpp: get_linear_ind_constraints"}],
     "Runtime monitoring: the hyperplane observed is compared with every legal competitor of a box, under ASan/UBSan", "Competitors have small coefficients and their legality is confirmed by isl for all parameter values; distances are compared at sampled parameter values.", ["event 'auto'"], HOOK)
prop("P21", "Tile sizes chosen by the cost model are usable",
     "When tile sizes are left to the library (find_tile_sizes), whatever the program, cache size, element size and unroll factor: every loop of a tiled band gets one positive size, the same for all statements of the band, which is 32, the vector size 512 or a multiple of the unroll factor; the tiles cut the iteration space exactly by those sizes, so that every instance lies in one tile; the schedule stays legal and one-to-one; and a larger cache never makes any tile smaller.",
     ["programs", "inputs", "configurations"], "all programs, cache sizes, element sizes and unroll factors",
     TESTS + "no test asks the library for tile sizes.",
     ["lib/tile_size_selection_model.cpp", "lib/tile.c", "lib/post_transform.c", "lib/polyloop.c"],
     [{"name": "tile volume against cache size", "where": "lib/tile_size_selection_model.cpp: TileSizeSelectionModel, find_tile_sizes"},
      {"name": "reuse along each loop", "where": "lib/tile_size_selection_model.cpp: get_dimensional_reuse, get_vectorizable_dimensions"}],
     "Runtime monitoring: sizes read off the tiled domains and compared across statements and cache sizes; trace oracle for partition and legality, under ASan/UBSan", ORA, ["event 'auto'", "event 'final'", "return of pluto_transform"], HOOK)
prop("P22", "Loops offered for unroll-jam and vectorization are safe",
     "A loop offered for unroll-and-jam is a loop over points, not tiles, has a loop inside it, and carries no dependence that points backwards in the loops inside, so running several of its iterations inside its inner loops keeps every dependence. A loop is reported innermost exactly if no loop lies inside it. A loop reported vectorizable is parallel, and between neighbouring iterations every access stays or moves by at most four elements forward in its last subscript; a parallel loop that does so under a plain loop permutation is reported.",
     ["programs", "inputs", "configurations"], "all programs with accesses given, tiled or not, wavefronts, intra-tile reordering and diamond tiles included",
     TESTS + "no test asks for unroll-jam or vectorization candidates.",
     ["lib/polyloop.c", "lib/post_transform.c", "lib/program.cpp"],
     [{"name": "innermost permutable bands and profitability", "where": "lib/polyloop.c: pluto_get_unroll_jam_loops, pluto_get_innermost_permutable_bands, pluto_loop_is_innermost"},
      {"name": "tile space", "where": "lib/program.cpp: is_tile_space_loop"},
      {"name": "strides of transformed accesses", "where": "lib/post_transform.c: has_spatial_reuse, pluto_loop_is_vectorizable; lib/program.cpp: pluto_get_new_access_func"}],
     "Runtime monitoring: candidates observed are judged against all dependent pairs and all neighbouring instances of the trace, under ASan/UBSan", ORA, ["event 'auto'", "event 'final'"], HOOK)
prop("P23", "Index set splitting keeps the program",
     "Splitting the index sets of statements replaces each statement by parts that together hold each of its instances exactly once, with its iterators and accesses unchanged. Every dependence is carried over: each dependent pair of instances is linked, with the same kind of dependence, between exactly the parts its two instances lie in, and no pair is added. The schedule then found for the parts orders every dependence of the original program, gives the instances of a part different dates, and its parallel loops and permutable bands are correct.",
     ["programs", "inputs", "configurations"], "all fused nests of statements of equal depth with dependences of unbounded length, tiled or not",
     TESTS + "no test splits index sets.",
     ["lib/iss.c", "lib/program.cpp"],
     [{"name": "cuts and parts", "where": "lib/iss.c: pluto_iss_dep, pluto_find_iss, pluto_iss"},
      {"name": "dependences after splitting", "where": "lib/iss.c: pluto_update_deps_after_iss"},
      {"name": "adding and removing statements", "where": "lib/program.cpp: pluto_add_given_stmt, pluto_remove_stmt, pluto_stmt_dup, pluto_dep_dup"}],
     "Runtime monitoring: the program is observed before and after splitting and compared point by point; trace oracle for the schedule of the parts, under ASan/UBSan", ORA, ["event 'deps'", "event 'auto'", "event 'final'"], HOOK)
prop("P24", "The program scheduled is the program given",
     "Whatever entry point is used, the program that is scheduled has exactly the statements, instances, parameters and accesses given, in whatever order the parameters are listed in the domains, dependences and accesses, and if a parameter is not listed where it is not used. Every dependence given is scheduled for, and nothing is that was not given (where the dependence relation has no existentially quantified variables). Where dependences are computed from reads and writes, every conflicting pair of accesses is implied by the dependences computed.",
     ["programs", "inputs", "configurations"], "all programs, all four entry points, memory-based and last-writer dependences",
     TESTS + "no test compares what was extracted with what was given.",
     ["lib/plutolib.c", "lib/program.cpp", "lib/constraints_isl.c"],
     [{"name": "extraction of statements, dependences and accesses", "where": "lib/plutolib.c: pluto_prog_from_isl_domains_dependences, extract_stmt; lib/program.cpp: basic_map_extract_dep, extract_accesses_for_pluto_stmt"},
      {"name": "dependence analysis", "where": "lib/program.cpp: compute_deps_isl"},
      {"name": "conversion from isl", "where": "lib/constraints_isl.c: isl_basic_set_to_pluto_constraints, isl_basic_map_to_pluto_constraints"}],
     "Runtime monitoring: the program observed before scheduling is compared point by point with the interpreter's trace, under ASan/UBSan", ORA, ["event 'deps'"], HOOK)
prop("P25", "Edits of a program keep what it means",
     "Building and editing the library's program representation changes exactly what was asked for. After any sequence of adding a parameter, adding a statement, inserting an iterator with or without a schedule dimension, removing an unrelated iterator, inserting a scalar dimension, exchanging dimensions, separating statements and sinking a statement, every statement has the same instances, iterator names, accesses and dates, and every dependence the same pairs, extended only by the new dimension; all statements have transformations of one length. A copy of a statement or dependence equals the original and shares no constraints, transformation or access with it. The schedule relation, the image of the domain under the schedule and the access functions in terms of the new iterators are those of the statement's transformation.",
     ["histories", "inputs"], "all sequences of edits on all programs; images for unimodular transformations",
     "No unit test touches the program representation. ",
     ["lib/program.cpp", "lib/transforms.c", "lib/pluto.c"],
     [{"name": "dimensions, parameters, hyperplanes", "where": "lib/program.cpp: pluto_stmt_add_dim, pluto_stmt_remove_dim, pluto_prog_add_param, pluto_stmt_add_hyperplane, pluto_prog_add_hyperplane, pluto_pad_stmt_transformations"},
      {"name": "loop transformations", "where": "lib/transforms.c: pluto_interchange, pluto_sink_statement, pluto_sink_transformation; lib/program.cpp: pluto_separate_stmt, pluto_separate_stmts"},
      {"name": "derived functions", "where": "lib/pluto.c: pluto_stmt_get_schedule; lib/program.cpp: pluto_get_new_domain, pluto_get_new_access_func, pluto_stmt_get_remapping"}],
     "Runtime monitoring: model-based comparison of the whole program after every edit, under ASan/UBSan", "Sampled programs of up to about 6 statements, 5 iterators, 4 parameters, sequences of up to eight edits.", ["the program after each edit"])
prop("P26", "Diamond tiles start concurrently",
     "When diamond tiling is asked for together with tiling, one tile size for all loops and parallel code, a time-iterated stencil whose values depend on the previous step only, on neighbours on both sides, gets tiles that can all start at once along the beginning of time: for a given number of time steps, the outermost loop of the result takes the same number of steps however large the space is. This holds for one and two space dimensions, for concurrent start along one dimension and, with the wavefront over all tile loops, along all of them, and for several statements that feed each other. The schedule respects every dependence and no two instances get one date.",
     ["programs", "inputs", "configurations"], "all symmetric time-iterated stencils, all space sizes and numbers of steps",
     TESTS + "no test tiles a stencil and looks at the result.",
     ["lib/pluto.c", "lib/framework.cpp", "lib/tile.c"],
     [{"name": "face with concurrent start", "where": "lib/framework.cpp: get_face_with_concurrent_start, get_feautrier_schedule_constraints"},
      {"name": "cone complement", "where": "lib/pluto.c: pluto_diamond_tile, find_cone_complement_hyperplane, find_hyperplane_to_be_evicted"},
      {"name": "tile wavefront and rescheduling inside tiles", "where": "lib/tile.c: pluto_create_tile_schedule_band, pluto_diamond_tile_reschedule"}],
     "Runtime monitoring: the steps of the outermost loop of the returned schedule are counted for two space sizes; trace oracle for legality, under ASan/UBSan", ORA, ["event 'auto'", "event 'final'", "return of pluto_transform"], HOOK)
