COMMON_ASSUME = [
 'interleavings are sequentially consistent: one simulated thread runs at a time and is switched at instrumented memory accesses, so reorderings by compiler or processor are not explored',
 'the sources are compiled by gcc -O1 with instrumentation instead of -O3 -march=native',
]
SIMSTUB = ['thread runtime (OpenMP, pthread, futex, condition variables): simulator', 'clock, sleeping and timers: simulated clock', 'heap: simulated, with shadow state', 'tlx logging, growt hash table, xxhash: small replacements of the absent submodules in shim/']
GRAPHS = 'small weighted graphs from structured families (random, cycles, trees, rings and trees of cliques, cacti, grids, stars and wheels, two blobs with a planted cut, cliques, bipartite, heavy hubs) with several weight distributions including edges of about 2^32 and second components'
META = {}
def m(id, rule, real, stub=(), assume=()):
    META[id] = dict(rule=rule, real=list(real), stub=SIMSTUB + list(stub), assume=COMMON_ASSUME + list(assume))
m('C01', 'every run draws ' + GRAPHS + ', a representation, a seed, save-cut on or off, a team size and a scheduling strategy; non-trivial: more than two vertices and more than one edge', ['exact_parallel_minimum_cut, viecut, noi_minimum_cut, contraction, reduction tests, union_find, priority queues'], assume=['minimum weighted degree at most 2^20'])
m('C05', 'every run draws 2 to 5 threads with up to 60 union / find / same-set operations over 2 to 24 elements; every run is non-trivial (it has concurrent operations)', ['parallel/data_structure/union_find.h'])
m('C06', 'every run draws ' + GRAPHS + ', a partition of the vertices (random, contiguous, two large blocks, merged along edges), one of nine contraction entry points and a team size; non-trivial: more than one block', ['parallel and sequential contract_graph.h, graph_access, mutable_graph, union_find'])
m('C07', 'every run draws ' + GRAPHS + ', one of eleven reductions, a bound between the minimum cut and the minimum degree and a team size; non-trivial: more than two vertices', ['contraction_tests.h (both builds), parallel_modified_capforest, modified_capforest, all_cut_local_red, union_find'], assume=['minimum weighted degree at most 2^20'])
m('C08', 'every run draws ' + GRAPHS + ' and clusters it, matches its vertices or samples edges (four sampling types, several factors; also on several components); non-trivial: the clustering merged something but not everything', ['label_propagation, random_matching, remap_cluster, findTrivialCuts, contraction, sparsify (both builds)'])
GM = 'every run draws ' + GRAPHS + ', a representation, options, an algorithm seed, a team size and a scheduling strategy; non-trivial: more than two vertices and more than one edge'
m('C02', GM, ['parallel_cactus, cactus_mincut, recursive_cactus, heavy_edges, graph_modification, all_cut_local_red, push_relabel and everything below them (both builds)'], assume=['at most 64 vertices and 2000 minimum cuts, otherwise only the value is compared'])
m('C03', GM, ['viecut (both builds), padberg_rinaldi, matula_approx, ks_minimum_cut, label_propagation, contraction'], assume=['minimum weighted degree at most 2^20'])
m('C04', GM, ['all minimum cut algorithms with save-cut, most_balanced_minimum_cut, balanced_cut_dfs (both builds)'], assume=['minimum weighted degree at most 2^20'])
m('C17', GM, ['noi_minimum_cut, contraction, union_find, all priority queues (sequential build)'], assume=['minimum weighted degree at most 2^20'])
MT = 'every run draws a small weighted graph (up to 18 vertices and 56 edges; random, near-regular and hard for the reductions, grids, terminals around a core, several components), 2 to 6 terminals (some with several vertices), a queue order, a branching rule, an edge selection rule, 1 to 4 workers and a scheduling strategy'
MTR = ['multiterminal_cut, branch_multicut, problem_management, per_thread_problem_queue, kernelization_criteria, graph_contraction, edge_selection, maximum_flow, push_relabel, local_search, measurements, noi_minimum_cut, mutable_graph']
MTS = ['MPI: simulated ranks and messages (shim/mpi, sim/mpi_sim.cpp)', 'Gurobi: absent in this build']
m('C09', MT + '; the value is compared with a brute force reference, the written assignment is checked', MTR, MTS, ['instances that the reference does not solve within 3000 search nodes are skipped'])
m('C10', MT + ', the solver runs on the real queue wrapped by a recorder; and runs of the queue alone with 1 to 6 threads; non-trivial: more than one thread', MTR, MTS, ['a worker is expected to stop within 800 million scheduling points'])
m('C11', MT.replace('1 to 4 workers', '2 to 5 processes with 1 to 3 workers each, a message size limit below which sends are buffered (0, 64 or 65536 bytes), message delays and stalled processes') + '; non-trivial: more than two vertices and more than one edge', MTR + ['mpi_communication, mutable_graph serialisation'], MTS, ['messages between two processes with the same tag arrive in the order they were sent (MPI guarantees it); MPI calls from several threads are allowed (MPI_THREAD_MULTIPLE)', 'a process is expected to stop within 800 million scheduling points'])
m('C12', MT + ', one process or 2 to 4; a time limit of 0 to 5 s and a moment at which all clocks or the wall clock of one or all processes jump past it, jump past it and back, or are set back; non-trivial: more than two vertices and more than one edge', MTR + ['timer'], MTS, ['a worker may work on at most one subproblem that it took after the limit expired; once a worker came back from dropping one, nobody may create new subproblems', 'whole runs stop within 300 million scheduling points', 'instances the reference does not solve are checked for feasibility, agreement and stopping only'])
m('C16', 'every run draws ' + GRAPHS + ', 1 to 4 threads and up to 12 flows with 2 to 8 terminals on a shared graph, on own copies that are contracted and edited between the flows, with fresh and reused solvers, or limited; or an instance of the multiterminal solver whose isolating cuts and non-terminal flows run concurrently; non-trivial: more than one thread has flows, or the second kind', ['push_relabel (all variants), maximum_flow, graph_contraction, mutable_graph'])
m('C15', 'every run draws ' + GRAPHS + ' (or a cactus-like graph of small cut values, or an empty one), options, and 1 to 80 updates (insertions, deletions, across or inside minimum cuts, re-insertions of deleted edges, parallel edges, deletions of missing edges, initialisation of the same object with another graph) in growing and shrinking phases; everything is checked after every update; non-trivial: some update was carried out', ['dynamic_mincut, cactus_path, parallel_cactus, cactus_mincut, recursive_cactus, most_balanced_minimum_cut, push_relabel, noi_minimum_cut, mutable_graph (both builds)'], assume=['cut values are moderate (the cache of cacti is a table indexed by cut value)', 'all minimum cuts are only compared with at most 64 vertices and 1500 cuts'])
IOS = ['files: in-memory, with injected faults at open, read, write and close; libstdc++ streams are real']
m('C13', 'every run draws a METIS graph file (0 to 700 vertices, all weight formats, comments, blanks, tabs, CRLF, self-loops), a vector, a temporal edge list (2 to 4 columns, signed weights) or a DIMACS file, damages it in a third of the runs (lines, tokens, characters, numbers, missing file) or cuts it off at a byte, and reads it under short, interrupted and failing reads; the bytes are classified by an independent parser as valid, malformed or unclear, and for unclear files only memory safety and termination are checked; non-trivial: valid files and failed reads', ['graph_io::readGraphWeighted<graph_access>, <mutable_graph>, readVector, readTemporalGraph, readDimacs, construction of both graph classes'], IOS, ['files with carriage returns inside lines, signed header values, digits glued to other characters, asymmetric adjacency lists or trailing blank lines are unclear', 'headers announcing more than a million vertices or edges (but a representable number) are skipped'])
m('C14', 'every run draws ' + GRAPHS + ' and writes it by one of seven writers, or computes and writes its cactus, possibly over an older longer file, with short and interrupted writes, a disk that fills up at any byte, write errors, a failing open and a close that loses data; every run is non-trivial', ['all writers of graph_io, _write_cactus_graphml_file, cactus_mincut, parallel_cactus, and the readers (both builds)'], IOS, ['weights stay below 2^37'])
m('C20', 'every run draws ' + GRAPHS + ' or an instance of the multiterminal problem or a history of updates, writes it to files, draws a command line for mincut, multiterminal_cut or dynamic_mincut (options, repeated runs, terminals listed, in a file, heaviest, random, distant, grown), some of them nonsensical, and runs main() under short, interrupted and failing reads and writes; non-trivial: the request is meaningful and was answered', ['app/mincut.cpp, app/multiterminal_cut.cpp, app/dynamic_mincut.cpp with everything they use (the first and last in both builds)'], ['command line parser: replacement of the absent tlx one in shim/', 'MPI: simulated (one process)'] + IOS, ['minimum weighted degree at most 2^20', 'instances of the multiterminal problem that the reference does not solve are checked for consistency only'])
m('C21', 'every run draws a graph or a history of updates (with isolated vertices, several components, empty ones), writes it to files, draws a command line for kcore, largest_cc, temporal_largest_cc, make_graph_weighted, gnp_torus or create_augment_edges, some of them nonsensical, and runs main() (the ones that draw random numbers twice) under short, interrupted and failing reads and writes; the written files are parsed independently and compared with the derived graph; non-trivial: the request is meaningful and a file was written', ['app/kcore.cpp (both builds), app/largest_cc.cpp, app/temporal_largest_cc.cpp, app/make_graph_weighted.cpp, app/gnp_torus.cpp, app/create_augment_edges.cpp with everything they use'], ['command line parser: replacement of the absent tlx one in shim/'] + IOS, ['kcore is given unweighted graphs', 'file names without dots in directory names'])
m('C22', 'every run draws a graph, writes it to a file, draws a command line for dynmc_from_static, decremental_gnp (both run twice, updating and recomputing), mincut_contract or balanced_small_cut, and runs main() under short, interrupted and failing reads and writes; non-trivial: the request is meaningful and was answered', ['app/dynmc_from_static.cpp, app/decremental_gnp.cpp, app/mincut_contract.cpp, app/balanced_small_cut.cpp (the last two in both builds) with everything they use'], ['command line parser: replacement of the absent tlx one in shim/'] + IOS, ['minimum weighted degree at most 2^20', 'balanced_small_cut without a bound on its rounds'])
m('C23', MT.replace('up to 18 vertices and 56 edges', 'up to 50 vertices and 150 edges').replace('2 to 6 terminals', '2 to 10 terminals') + ', parameters of the inexact heuristics, one process or 2 to 4; or local search runs alone from a drawn assignment with drawn fixed vertices; non-trivial: more than two vertices and more than one edge, or local search ran', MTR + ['mpi_communication'], MTS, ['optimality is not promised; instances that the reference does not solve are checked without a lower bound', 'runs end within 800 million scheduling points (large instances are drawn with at least a fifth of the terminals removed per branch)'])
