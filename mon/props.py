"""How each property is run: build variant, number of cases per tier, which
observation counters make a case non-trivial."""
A = ["isl is trusted for parsing, printing and the parametric (all parameter values) part of the oracle",
     "the harness's own interpreter of the loop language is the reference for what the program computes"]
GEN = ("A case is a loop program (a benchmark kernel, a uniform-dependence nest, a time-iterated stencil, a chain of nests, or a random "
       "nest with guards/unions/triangular bounds), an option set and parameter values, all drawn from VERIF_SEED. ")
ALG = "A case is a sequence of library calls on random operands (1-4 dimensions, duplicates, multiples, contradictory and empty sets, unions, slack storage, names, entries beyond 32 bits), drawn from VERIF_SEED. "
AA = ["the harness's exact rational arithmetic and point enumeration are the reference"]
PROPS = {
    "P01": dict(variant="asan", quick=900, thorough=30000, nontrivial=["deps"], rule=GEN + "Non-trivial: at least one dependence pair was compared; distinct by the transformation matrices observed.", assumptions=A),
    "P02": dict(variant="asan", quick=1000, thorough=30000, nontrivial=["deps"], rule=GEN + "Tiling, second-level tiling, diamond tiling, intra-tile reordering, wavefronts. Non-trivial: at least one dependence pair was compared; distinct by final transformation.", assumptions=A),
    "P03": dict(variant="asan", quick=1000, thorough=30000, nontrivial=["dates"], rule=GEN + "All three scheduling entry points. Non-trivial: dates were computed for at least one instance; distinct by final transformation.", assumptions=A),
    "P04": dict(variant="asan", quick=1000, thorough=30000, nontrivial=["stmts_multi_tile"], rule=GEN + "Non-trivial: some statement spans more than one tile; distinct by final transformation.", assumptions=A),
    "P05": dict(variant="asan", quick=1000, thorough=30000, nontrivial=["parclaims_exercised", "seqclaims"], rule=GEN + "Non-trivial: a parallel claim with dependences inside the loop, or a sequential claim, was judged; distinct by final transformation.", assumptions=A),
    "P06": dict(variant="asan", quick=1000, thorough=30000, nontrivial=["bandclaims_exercised"], rule=GEN + "Non-trivial: a band with dependences inside it was judged; distinct by final transformation.", assumptions=A),
    "P07": dict(variant="asan", quick=800, thorough=20000, nontrivial=["remapped"], rule=GEN + "Non-trivial: at least one instance was mapped back; distinct by final transformation.", assumptions=A),
    "P08": dict(variant="asan", quick=900, thorough=30000, nontrivial=["deps"], rule=GEN + "Only domains-with-order and accesses are given; the library computes the dependences. Non-trivial: at least one conflicting access pair; distinct by final transformation.", assumptions=A),
    "P09": dict(variant="asan", quick=500, thorough=12000, nontrivial=["string_runs"], rule=GEN + "Each case runs the native and both string entry points. Non-trivial: all returned results; distinct by final transformation.", assumptions=A),
    "P11": dict(variant="asan", quick=600, thorough=20000, nontrivial=["runs"], ub=True, rule=GEN + "Every entry point, solver, and debug output level; each case makes four calls in one process. Non-trivial: the calls were made and the heap measured after each; distinct by final transformation.", assumptions=["isl and glpk are not instrumented: their own accesses are seen only where they go through the intercepted C library"]),
    "P12": dict(variant="asan", quick=180, thorough=4000, nontrivial=["reruns"], passes=[{"ASAN_OPTIONS": "max_malloc_fill_size=65536:malloc_fill_byte=190"}, {"MON_HISTORY": "1", "ASAN_OPTIONS": "max_malloc_fill_size=65536:malloc_fill_byte=1"}], rule=GEN + "Each case is run nine times in one process under different histories, output settings and in a reused context, in two processes: their fresh heap memory is filled with different bytes, and one has transformed other programs before. Non-trivial: reruns were compared; distinct by full observed result.", assumptions=A),
    "P15": dict(variant="asan", quick=900, thorough=30000, nontrivial=["deppoints", "exactclaims"], rule=GEN + "Non-trivial: claims about at least one dependence were compared with its points; distinct by final transformation.", assumptions=A),
    "P18": dict(variant="asan", quick=1000, thorough=30000, nontrivial=["deps"], rule=GEN + "Solvers: glpk as ILP, glpk as LP with scaling, and the decoupled (dfp) search with its fusion variants. Non-trivial: at least one dependence pair was compared; distinct by final transformation.", assumptions=A),
    "P13": dict(variant="tool", quick=8000, thorough=300000, nontrivial=["points", "facts"], rule=ALG + "23 kinds of operation on constraint sets per case. Distinct by operands.", assumptions=AA),
    "P14": dict(variant="tool", quick=12000, thorough=400000, nontrivial=["facts"], rule=ALG + "28 operations on matrices, integers and affine texts per case. Distinct by operands.", assumptions=AA),
    "P20": dict(variant="tool", quick=3000, thorough=60000, nontrivial=["farkas_points"], rule=ALG + "12 linearizations per case; every coefficient vector of a box, integer and half-integer, is compared. Distinct by operands.", assumptions=AA),
    "P10": dict(variant="tsan", quick=120, thorough=4000, cpu=60, nontrivial=["concurrent_runs", "overlapped_events"], ub=True, rule=GEN + "Four programs are run alone and by four threads at once in three rounds (in half of the cases the threads come first, in a process that has done nothing yet), under ThreadSanitizer. Non-trivial: concurrent results were compared with sequential ones; distinct by the set of results.", assumptions=["isl and glpk are not instrumented: races inside them are out of scope"]),
    "P16": dict(variant="tool", quick=6000, thorough=200000, nontrivial=["pairs", "facts"], rule="A case is a random program skeleton (statements of random dimensionality) with random dependences, some satisfied, drawn from VERIF_SEED, and a sequence of graph operations on it. Distinct by graph.", assumptions=["the harness's reachability computation is the reference"]),
    "P17": dict(variant="asan", quick=1000, thorough=30000, nontrivial=["nofuse_pairs", "smartfuse_pairs", "onenest", "fst_stmts", "precut_stmts"], rule=GEN + "With no, smart or maximal fusion, a random legal .fst grouping, or the first rows of a schedule as .precut. Non-trivial: a request was compared with the schedule; distinct by final transformation.", assumptions=A),
    "P19": dict(variant="asan", quick=1500, thorough=30000, nontrivial=["chosen_compared"], rule=GEN + "Maximal fusion, all dependences in one component or a single statement. Every outermost hyperplane with small non-negative coefficients that is legal for all parameter values is a competitor. Non-trivial: the hyperplane found was compared with at least one competitor; distinct by final transformation.", assumptions=A),
    "P21": dict(variant="asan", quick=900, thorough=20000, nontrivial=["model_sizes"], ub=True, rule=GEN + "Tile sizes are chosen by the library's cost model for a random cache size, element size and unroll factor. Non-trivial: sizes chosen by the model were read off the tiled domain; distinct by final transformation.", assumptions=A),
    "P22": dict(variant="asan", quick=1500, thorough=40000, nontrivial=["ujclaims_exercised", "vecclaims_exercised", "novecclaims"], ub=True, rule=GEN + "Tiled or not, with accesses given. Non-trivial: an unroll-jam candidate that carries a dependence, or a (non-)vectorizable loop with neighbouring instances, was judged; distinct by final transformation.", assumptions=A),
    "P23": dict(variant="tool", quick=900, thorough=20000, nontrivial=["iss_scheduled"], ub=True, rule=GEN + "Mostly nests with reflected subscripts (a[N-i]), split as the pluto tool does with --iss. Non-trivial: a statement was split and its parts were scheduled; distinct by final transformation.", assumptions=A),
    "P24": dict(variant="asan", quick=1500, thorough=40000, nontrivial=["given_pairs"], ub=True, rule=GEN + "Parameters listed in the same or another order, or left out where unused; all entry points. Non-trivial: the dependences extracted were compared with the conflicts of the trace; distinct by program and entry point.", assumptions=A),
    "P25": dict(variant="tool", quick=5000, thorough=200000, nontrivial=["programs_compared", "dates"], rule="A case is six programs built by library calls (statements of random dimensionality, unimodular transformations with scalar dimensions, accesses, dependences, parameters) and edited by up to eight random edits each, drawn from VERIF_SEED. After every edit the whole program is compared with a plain model. Distinct by operands.", assumptions=AA),
    "P26": dict(variant="asan", quick=400, thorough=15000, nontrivial=["starts"], rule="A case is a time-iterated stencil in one or two space dimensions (one statement or two that feed each other, radius 1 or 2, symmetric in every space dimension, optional diagonal), one of the diamond tiling modes, one tile size for all loops (2..6) and fusion and intra-tile options drawn from VERIF_SEED. Non-trivial: the steps of the outermost loop were counted for two space sizes; distinct by final transformation.", assumptions=A),
}
