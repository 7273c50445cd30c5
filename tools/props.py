import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
GM='lib/algorithms/global_mincut/'
p('C01','Parallel exact minimum cut is exact under every schedule',
 'For every undirected graph with at least two vertices and positive integer edge weights, the shared-memory parallel exact algorithm terminates and returns exactly the weight of a minimum cut (zero when the graph is disconnected). The answer does not depend on how many threads the runtime grants, on how they interleave, on the random seed, on the graph representation or on whether the cut itself is also requested.',
 ['schedules','inputs','configurations'],
 'all thread interleavings and team sizes (also teams smaller than requested), all graphs, seeds, both graph representations, with and without saving the cut',
 'the parallel tests need submodules that are absent here, run a handful of tiny graphs on whatever schedule the machine happens to produce, and a lost union or a stale read only shows under particular interleavings',
 ['lib/parallel/algorithm/exact_parallel_minimum_cut.h',GM+'viecut.h',GM+'noi_minimum_cut.h',GM+'minimum_cut_helpers.h','lib/parallel/coarsening/contract_graph.h','lib/parallel/coarsening/contraction_tests.h','lib/parallel/data_structure/union_find.h'],
 [('parallel capforest with a shared visited array and concurrent union-find','exact_parallel_minimum_cut::parallel_modified_capforest'),('fallback to the sequential pass when no edge was contracted','exact_parallel_minimum_cut::perform_minimum_cut'),('parallel Padberg-Rinaldi tests and contraction','tests::prTests12, tests::prTests34, contraction::fromUnionFind')],
 ['return value of the minimum cut algorithm'])
p('C02','The cactus represents exactly all minimum cuts',
 'When all minimum cuts are requested, the sequential and the parallel algorithm return the minimum cut value together with a graph in which every input vertex is placed in exactly one node, and the vertex bipartitions given by the minimum cuts of that graph are exactly the minimum cuts of the input: none missing, none added. This holds for every graph with nonzero minimum cut, seed, thread count and interleaving.',
 ['schedules','inputs','configurations'],
 'all interleavings and team sizes of the parallel variant, all seeds, connected weighted graphs, both representations',
 'tests check node counts on about a dozen fixed graphs; they never enumerate the cuts, so a cactus with a missing or a spurious cut of the right size passes',
 ['lib/parallel/algorithm/parallel_cactus.h',GM+'cactus/cactus_mincut.h',GM+'cactus/recursive_cactus.h',GM+'cactus/graph_modification.h',GM+'cactus/heavy_edges.h',GM+'cactus/all_cut_local_red.h',GM+'minimum_cut_helpers.h'],
 [('contraction of edges of connectivity above the minimum cut','parallel_cactus::findAllMincuts, cactus_mincut::findAllMincuts'),('recursive flow-based cactus construction and merging','recursive_cactus::flowMincut'),('re-attachment of contracted leaf edges','minimum_cut_helpers::setVertexLocations')],
 ['returned cut value','cactus graph, its edge weights and the vertices contained in each node'])
p('C03','Heuristic cut values are always achievable cuts',
 'The heuristic and approximate minimum cut algorithms (VieCut sequential and parallel, Padberg-Rinaldi, Matula, Karger-Stein) terminate for every graph, seed and interleaving with a value that is the weight of some cut of the graph, so never below the minimum cut; except for Karger-Stein it is at most the minimum weighted degree. Matula\'s value is additionally at most twice the minimum cut plus one, and a value of zero is returned only for a disconnected graph.',
 ['schedules','inputs','configurations'],
 'all graphs, all random seeds, all interleavings of the parallel coarsening',
 'tests accept a range on two fixed graphs with one seed; an unsafe contraction or a value below the true cut needs particular seeds, weights or interleavings',
 [GM+'viecut.h',GM+'padberg_rinaldi.h',GM+'matula_approx.h',GM+'ks_minimum_cut.h','lib/parallel/coarsening/label_propagation.h','lib/parallel/coarsening/contraction_tests.h','lib/coarsening/contraction_tests.h','lib/coarsening/label_propagation.h'],
 [('label propagation clusters contracted','viecut::perform_minimum_cut'),('upper bound is the smallest degree seen in any contracted graph','minimum_cut_helpers::updateCut')],
 ['return value'])
p('C04','A reported cut is a real cut of the reported value',
 'When the cut itself is requested, every minimum cut algorithm marks a proper, nonempty subset of the input vertices, and the edges leaving that subset weigh exactly the value the algorithm returned. When the most balanced minimum cut is requested, the marked cut is a minimum cut and no minimum cut has a larger smaller side; when the minimum cut of lowest conductance is requested, no minimum cut has a smaller side of larger weighted volume.',
 ['schedules','inputs','configurations'],
 'all graphs, seeds, interleavings, algorithms and both representations',
 'the save-cut tests look at a few fixed graphs; whether the side tracked through many levels of contraction still belongs to the final value depends on which level improved the bound, which varies with seed and schedule',
 [GM+'minimum_cut_helpers.h',GM+'cactus/most_balanced_minimum_cut.h',GM+'cactus/balanced_cut_dfs.h',GM+'viecut.h',GM+'noi_minimum_cut.h','lib/parallel/algorithm/exact_parallel_minimum_cut.h','lib/coarsening/contract_graph.h','lib/parallel/coarsening/contract_graph.h'],
 [('the cut side is re-derived whenever the bound improves','minimum_cut_helpers::updateCut'),('partition indices follow each contraction','contraction::fromUnionFind'),('depth-first search over the cactus for the most balanced cut','balanced_cut_dfs')],
 ['in-cut marks of the input graph'])
p('C05','Concurrent union-find is linearizable',
 'After any set of concurrent unions has completed, two elements are in one set exactly when they are connected by the requested unions, and the number of sets and the number of unions that reported a merge agree with that. While other threads keep working, a completed union is never undone, a find only ever returns an element of the same final set, and every operation terminates.',
 ['schedules','inputs'],
 'all interleavings of any number of threads doing union, find and same-set',
 'the only union-find test that runs is for the sequential structure; losing a union needs two threads inside the linking step of the same root at the same time',
 ['lib/parallel/data_structure/union_find.h'],
 [('compare-and-swap linking by rank, path halving','union_find::Union, union_find::Find')],
 ['Find, SameSet, Union return values, n()'],
 [('parent and rank word','forest of sets','union_find::m_parent')])
p('C06','Parallel contraction conserves every edge weight',
 'Contracting a graph by any partition of its vertices yields, under every thread schedule, exactly the quotient graph: one vertex per block, between two blocks one edge weighing the sum of all edges between them and no self-loops, for both graph representations. Degrees of the result agree with its edges, each edge is stored consistently in both directions, and the record of which block each vertex went to is correct.',
 ['schedules','inputs'],
 'all interleavings and team sizes, all partitions, graphs small and large enough for each of the contraction strategies',
 'the contraction tests are fixed partitions of fixed graphs; lost updates between threads adding to one edge or one degree counter need a particular interleaving',
 ['lib/parallel/coarsening/contract_graph.h','lib/coarsening/contract_graph.h','lib/data_structure/graph_access.h','lib/data_structure/mutable_graph.h'],
 [('concurrent hash table keyed by block pair, atomic degree counters','contraction::contractGraphSparse'),('per-thread matrices summed in a critical section','contraction::contractGraphFullMesh'),('contraction of vertex sets in the mutable graph','contraction::contractGraphVtxset')],
 ['nodes, edges, weights and degrees of the contracted graph'])
p('C07','Reduction tests never contract away the minimum cut',
 'The local reduction tests and connectivity scans, run with any number of threads, keep the minimum cut: the smaller of the known bound and the contracted graph\'s minimum cut is always the minimum cut of the input. Connectivity scans merge only vertices that no cut lighter than the bound separates, and variants asked to keep all minimum cuts never merge two vertices separated by a minimum cut. This holds for every interleaving, including when tests in neighbouring vertices run at the same time.',
 ['schedules','inputs'],
 'all interleavings, bounds, start vertices and graphs',
 'the reductions are only exercised indirectly by tests with one schedule; two tests that are each safe can together remove a cut if they run concurrently on a shared vertex',
 ['lib/parallel/coarsening/contraction_tests.h','lib/coarsening/contraction_tests.h','lib/parallel/algorithm/exact_parallel_minimum_cut.h',GM+'noi_minimum_cut.h',GM+'cactus/heavy_edges.h',GM+'cactus/all_cut_local_red.h'],
 [('a vertex is claimed before a degree-based test may contract it','tests::prTests12, tests::prTests34'),('connectivity lower bounds','modified_capforest')],
 ['partition returned by each reduction'])
p('C08','Clustering and sampling always yield a contractible partition',
 'Label propagation, small-cut search, random matching and edge sampling, run with any number of threads and any seed on any graph (also with isolated vertices or several components), terminate and assign every vertex to exactly one cluster with dense consistent numbering, and the graph contracted from it has a minimum cut no smaller than the input. The number of vertices reported equals the number of clusters, a matching pairs only neighbours, and where a partition is recorded in the input graph it is the one that was contracted.',
 ['schedules','inputs','configurations'],
 'all interleavings, team sizes smaller than requested, sampling modes and factors, seeds',
 'no test runs the sampling code at all and label propagation only runs on graphs above ten thousand vertices, which no test has',
 ['lib/parallel/coarsening/label_propagation.h','lib/parallel/coarsening/sparsify.h','lib/coarsening/label_propagation.h','lib/coarsening/sparsify.h','lib/parallel/coarsening/contract_graph.h',GM+'minimum_cut_helpers.h'],
 [('relaxed racing label updates that always hold a valid vertex id','label_propagation::propagate_labels'),('parallel sampling into a shared union-find','sparsify::one_ks')],
 ['cluster mapping, contracted graph'])
p('C09','Parallel multiterminal cut is optimal under every schedule',
 'For every graph and set of at least two terminals, the exact multiterminal cut solver returns the weight of a minimum multiterminal cut, independent of the number of worker threads, their interleaving, the queue order, the branching rule and the random seed. When an assignment of vertices to terminals is returned, each terminal is in its own block and the edges between blocks weigh exactly the returned value.',
 ['schedules','inputs','configurations'],
 'all interleavings of the worker threads, queue types, edge selection rules, seeds, graphs and terminal sets',
 'tests use a few fixed graphs and accept whatever schedule occurs; pruning with a bound that another thread is just updating is only wrong in specific interleavings',
 ['lib/algorithms/multicut/multiterminal_cut.h','lib/algorithms/multicut/branch_multicut.h','lib/algorithms/multicut/problem_management.h','lib/algorithms/multicut/kernelization_criteria.h','lib/algorithms/multicut/graph_contraction.h','lib/algorithms/multicut/maximum_flow.h','lib/algorithms/multicut/edge_selection.h','lib/algorithms/multicut/multicut_problem.h','lib/algorithms/multicut/local_search.h'],
 [('bounding with the shared best value','branch_multicut, problem_management'),('kernelization keeps an optimal solution','kernelization_criteria'),('isolating cut flows computed by asynchronous tasks','maximum_flow::maximumIsolatingFlow')],
 ['returned value and assignment'],
 [('global upper bound','best solution weight known to all threads','problem_management')])
p('C10','The work queue loses and duplicates no subproblem, workers always stop',
 'Every subproblem put into the shared work queue is handed to exactly one worker exactly once or is legitimately pruned, under every interleaving of producers, consumers and hand-overs between threads. When no work is left every worker stops after a bounded number of steps, and none stops while work remains.',
 ['schedules','histories'],
 'all interleavings, including spurious wake-ups, stalled workers and late notifications',
 'a lost wake-up, a lost hand-over or an early exit needs a worker to be suspended between two specific instructions; tests cannot choose that',
 ['lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h','lib/algorithms/multicut/problem_queues/single_problem_queue.h','lib/algorithms/multicut/branch_multicut.h','lib/algorithms/multicut/problem_management.h'],
 [('idle counting and condition variable in the polling loop','branch_multicut::pollWork'),('per-thread locks and the hand-over slot','per_thread_problem_queue')],
 ['multiset of problems pulled against problems added; thread exit'])
p('C11','Distributed multiterminal cut is optimal and always shuts down',
 'With several processes exchanging messages that may be arbitrarily delayed and reordered between different senders, the distributed solver ends on every process, exactly once, with the optimal multiterminal cut value agreed by all. A subproblem sent to another process arrives with the same graph, terminals, bounds and bookkeeping it was sent with, and none is lost or solved twice.',
 ['schedules','fault_sequences','inputs','histories'],
 'all message delays and cross-sender reorderings allowed by the message passing standard, stalled processes, numbers of processes and threads per process',
 'the tests link no message passing runtime with controllable delivery; they run a single process',
 ['lib/algorithms/multicut/mpi_communication.h','lib/algorithms/multicut/branch_multicut.h','lib/algorithms/multicut/multiterminal_cut.h','lib/algorithms/multicut/problem_management.h','lib/algorithms/multicut/multicut_problem.h','lib/data_structure/mutable_graph.h'],
 [('tagged messages for bounds, work requests and termination','mpi_communication'),('serialisation of a subproblem','mutable_graph::serialize, mpi_communication::sendProblem, recvProblem')],
 ['return value on each process, all processes return'])
p('C12','Time limits give a feasible answer promptly, at any moment',
 'If the time limit of the multiterminal solver expires at any point, or the clock jumps, every worker stops within a bounded number of further steps and the solver returns the weight of a feasible solution it has actually found, never a value below the optimum. Given enough time the limit has no influence on the value.',
 ['schedules','fault_sequences','inputs'],
 'the limit expiring at every point of a run, clock jumps, stalled threads, all interleavings',
 'tests never hit the time limit (ten minutes by default); the moment of expiry relative to other threads is nondeterministic',
 ['lib/algorithms/multicut/branch_multicut.h','lib/algorithms/multicut/multiterminal_cut.h','lib/algorithms/multicut/problem_management.h','lib/tools/timer.h'],
 [('elapsed time check in the work loop','branch_multicut::solveProblem / pollWork')],
 ['return value and termination after expiry'])
p('C13','Reading a graph file is independent of how the system delivers the bytes',
 'Reading a valid graph, vector (partition) or edge-list file produces exactly the graph or list written in the file - every vertex, edge, weight and timestamp, for both graph representations, with comments, any blanks between numbers, LF or CRLF line ends, with or without a final newline, and for every weight format of the METIS header (vertex weights and sizes are skipped, self-loops dropped) - no matter how short the individual reads are or whether system calls are interrupted. A missing file, a read error, or a file whose header, number of vertex lines, number of edges, vertex ids or weights are missing or do not fit together, also because it was cut off, is reported (error message, nonzero exit or exception) and never causes a hang, an access outside allocated memory or a result returned without any report. Damage that leaves all counts consistent cannot be recognised from the file and is outside this property.',
 ['fault_sequences','inputs'],
 'all splittings of the input into short or interrupted reads, read and open errors and truncation at every byte, damaged lines, files with comments, blanks and every weight format',
 'tests read a handful of well-formed files from a local disk that always delivers full blocks',
 ['lib/io/graph_io.h','lib/data_structure/graph_access.h','lib/data_structure/mutable_graph.h'],
 [('line oriented parser','graph_io::readGraphWeighted, readVector, readTemporalGraph, readDimacs')],
 ['graph object, vector or list against an independent parser of the file; exit code, messages'])
p('C14','Written graphs, partitions and cactus files are complete or an error is reported',
 'A graph, partition, vector or cactus file that is written without an error report contains exactly the data, also when it replaces a longer file, and graphs and vectors read back as the same object, under short, interrupted and split writes. If the file cannot be created, the disk is full, a write fails or the data is lost when the file is closed, so that the file is not complete, this is reported (message on the error stream, nonzero result, nonzero exit or exception) and not passed over silently; without such a fault no error is reported. Where a cactus file name is configured, both the sequential and the parallel cactus algorithm write the file, and it describes the cactus that they return, with every vertex of the graph in exactly one node.',
 ['fault_sequences','inputs'],
 'full disk or write error at every byte offset, failing open and close, short and interrupted writes, all graphs',
 'no test writes a file to a failing disk',
 ['lib/io/graph_io.h',GM+'cactus/cactus_mincut.h','lib/parallel/algorithm/parallel_cactus.h'],
 [('stream writers','graph_io::writeGraphWeighted, writeGraph, writeGraphDimacsKS, writeCut, writeVector, _write_cactus_graphml_file')],
 ['file contents, return value, error stream'])
p('C15','Dynamic minimum cut is exact after every update history',
 'After every prefix of any sequence of edge insertions and deletions, also of edges between vertices that are already joined, the dynamic algorithm reports the exact minimum cut of the current graph. Its stored cactus represents only minimum cuts of the current graph and at least one of them, and all of them after initialisation, after a full recomputation and after a deletion that lowers the minimum cut of a connected graph. This holds for the sequential and the parallel build, every seed, thread count and interleaving, including histories that disconnect and reconnect the graph.',
 ['histories','schedules','inputs'],
 'all update histories, seeds, interleavings of the parallel recomputation',
 'there is no test for the dynamic algorithm; stale cached structures need specific sequences of insertions and deletions across several minimum cut values',
 [GM+'dynamic/dynamic_mincut.h',GM+'dynamic/cactus_path.h','lib/algorithms/flow/push_relabel.h','lib/data_structure/mutable_graph.h','lib/parallel/algorithm/parallel_cactus.h'],
 [('cactus updated by contracting the path between the end points','dynamic_mincut::addEdge'),('local flow check and cactus cache for deletions','dynamic_mincut::removeEdge')],
 ['value returned by each update, stored cactus'])
p('C16','Maximum flow is correct, also when flows run concurrently',
 'For every graph, source set and sink, the push-relabel flow equals the minimum cut between them and the returned source side is a minimum cut containing the source and no sink. Several flows computed concurrently on copies or shared graphs do not disturb each other, under any interleaving.',
 ['schedules','inputs'],
 'all interleavings of concurrent flow tasks, all graphs and terminal sets, repeated flows on one graph',
 'flow tests use fixed small graphs in one thread',
 ['lib/algorithms/flow/push_relabel.h','lib/algorithms/multicut/maximum_flow.h','lib/data_structure/mutable_graph.h','lib/data_structure/flow_graph.h'],
 [('push-relabel with gap and global relabeling, problem identifiers for residual reuse','push_relabel::solve_max_flow_min_cut')],
 ['flow value, source side'])
p('C17','Sequential exact minimum cut is exact for every seed and queue',
 'The sequential exact algorithm returns exactly the minimum cut for every graph, every random seed, every choice of priority queue and with bounding on or off, on both graph representations. A run is a pure function of its input, options and seed: neither the clock nor uninitialised memory influences it.',
 ['inputs','configurations','schedules'],
 'all seeds (start vertices), priority queue types, option combinations, contents of fresh memory and clock readings',
 'tests use one seed per graph and default options; dependence on leftover memory or on the clock is invisible on one machine',
 [GM+'noi_minimum_cut.h',GM+'minimum_cut_helpers.h','lib/coarsening/contract_graph.h','lib/data_structure/priority_queues/fifo_node_bucket_pq.h','lib/data_structure/priority_queues/node_bucket_pq.h','lib/data_structure/priority_queues/vecMaxNodeHeap.h','lib/tools/random_functions.h'],
 [('bounded queue keys and union of safely connected vertices','noi_minimum_cut::modified_capforest')],
 ['return value, repeated runs'])
p('C18','k-core and connectivity pre-processing is exact',
 'Core numbers, connected and strongly connected components, bridges and articulation points are computed exactly for every graph.',
 ['inputs'],'all graphs',
 'tests sample a few graphs',
 ['lib/algorithms/misc/core_decomposition.h','lib/algorithms/misc/strongly_connected_components.h','lib/algorithms/misc/find_bridges.h'],
 [('linear-time sequential algorithms','lib/algorithms/misc')],['return values'])
p('C19','Priority queues deliver elements in key order',
 'Every priority queue returns an element of maximum current key after any sequence of insertions, key changes and deletions.',
 ['inputs','histories'],'all operation sequences',
 'tests use a few sequences',
 ['lib/data_structure/priority_queues/bucket_pq.h','lib/data_structure/priority_queues/vecMaxNodeHeap.h'],
 [('bucket arrays and heaps','lib/data_structure/priority_queues')],['returned elements'])
p('C20','The programs answer every request correctly or report an error',
 'The command line programs mincut (sequential and parallel), multiterminal_cut and dynamic_mincut, run on any graph, partition and update files, options, seeds, thread counts and interleavings, end by themselves and either answer or report an error (error message, nonzero exit status or exception). An answer has one result for each requested iteration and number of threads, with the number of vertices and edges of the input; its cut value is the minimum cut for the exact algorithms, the weight of some cut within the guarantee of the algorithm for the others, the minimum multiterminal cut of the requested terminals, and the final minimum cut and the number of its changes for a sequence of updates; the configured algorithm, queue and terminals (as listed, as in the file, k heaviest, random or distant, different from each other) are the ones used. A requested output file (cut, assignment, cactus) is complete and matches the reported value. A request that makes sense is refused only if a file could not be read or written; nonsensical ones - missing files, fewer than two terminals, more terminals than vertices, partition files that do not fit the graph, updates of vertices that do not exist - never lead to a crash, an access outside allocated memory or an answer for something else.',
 ['inputs','configurations','schedules','fault_sequences'],
 'all graphs and update histories, option combinations, interleavings, read and write faults at any call, missing and damaged files',
 'no test runs the programs: options that are parsed but not passed on, results that are computed but not written, and terminals taken twice are invisible to tests of the library',
 ['app/mincut.cpp','app/multiterminal_cut.cpp','app/dynamic_mincut.cpp','lib/common/configuration.h',GM+'algorithms.h','lib/algorithms/multicut/multiterminal_cut.h','lib/io/graph_io.h'],
 [('options to configuration to algorithm','app/*.cpp, selectMincutAlgorithm'),('terminals from options, files, degrees, distances','multiterminal_cut::setOriginalTerminals')],
 ['exit status, RESULT lines, error messages, written files'])
p('C21','Derived graph and update files contain exactly what was asked for',
 'The preparation programs write what they promise or report an error: kcore writes, for each requested k (or the innermost core), the largest connected component of the k-core with dense numbering when it qualifies, says so when it does not, and writes no other file; largest_cc and temporal_largest_cc write the input restricted to a largest component, every edge or update exactly once with its weight, sign and time; make_graph_weighted keeps the structure, draws weights within the given bounds and gives every vertex that has edges at least one heavy edge; gnp_torus connects blocks like a torus with the requested weight between neighbours; create_augment_edges writes the requested numbers of insertions of new edges and deletions of inserted ones in time order. The same seed gives the same file. Write errors, missing inputs, requests that cannot be met and graphs without vertices or edges are reported and lead to no crash and no endless loop.',
 ['inputs','configurations','fault_sequences'],
 'all graphs and update files (isolated vertices, several components, empty), options, seeds, and read and write faults at any call',
 'no test runs the programs, and no test has a full disk, a failing close or a graph at the edge of what the option allows',
 ['app/kcore.cpp','app/largest_cc.cpp','app/temporal_largest_cc.cpp','app/make_graph_weighted.cpp','app/gnp_torus.cpp','app/create_augment_edges.cpp','lib/algorithms/misc/core_decomposition.h','lib/algorithms/misc/strongly_connected_components.h','lib/algorithms/misc/graph_algorithms.h','lib/tools/graph_extractor.h','lib/io/graph_io.h'],
 [('bucket order of degrees','core_decomposition::batageljZaversnik'),('largest component and its induced subgraph','strongly_connected_components::largest_scc, graph_extractor::extract_block')],
 ['written files, messages, exit status'])
p('C22','Experiment programs agree with the minimum cut and with each other',
 'dynmc_from_static and decremental_gnp report the same sequence of minimum cuts at the same updates whether they update the cut or recompute it, the sequence is possible for the updates they did (never above the minimum cut of the whole graph, falling under deletions), and the same seed gives the same sequence. Every cut mincut_contract finds by sampling, clustering and contracting weighs at least the minimum cut and is the weight of a cut of the input; a written cut has exactly the reported weight with vertices on both sides. balanced_small_cut first reports the minimum cut, then the minimum cuts of successively contracted graphs, which never get smaller and which the graphs it writes have; it ends with a graph that cannot be cut. All of them end, report missing files and write errors, and do not crash, for any seed, number of threads and interleaving.',
 ['inputs','configurations','schedules','fault_sequences'],
 'all graphs, seeds, batches of updates, contraction factors and sampling types, interleavings in the parallel programs, read and write faults',
 'no test runs the programs; agreement of two modes over a random history needs both to be run on the same history, and a sampled contraction that loses the partition is only visible in the written cut',
 ['app/dynmc_from_static.cpp','app/decremental_gnp.cpp','app/mincut_contract.cpp','app/balanced_small_cut.cpp','lib/algorithms/global_mincut/dynamic/dynamic_mincut.h','lib/coarsening/sparsify.h','lib/parallel/coarsening/sparsify.h','lib/coarsening/contract_graph.h'],
 [('incremental and static mode','app/dynmc_from_static.cpp'),('repeated sampling and contraction','app/mincut_contract.cpp'),('contraction along all small cuts','app/balanced_small_cut.cpp')],
 ['messages and results, written graphs and cuts, exit status'])
p('C23','The inexact multiterminal cut is still a multiterminal cut',
 'With the inexact heuristics (-X: terminals of low degree removed and the neighborhood of the heaviest terminal contracted before branching, limited branching) the solver still ends without an error on every graph and set of terminals, on any number of threads and processes: every vertex is assigned to the block of one terminal, every terminal to its own, the returned value is exactly the weight of the edges between different blocks of the returned assignment (and so never below the optimum), and all processes return the same value. Local search, applied to any assignment, keeps it an assignment with every fixed vertex in its block, never makes it worse, and reports exactly by how much it became lighter.',
 ['inputs','configurations','schedules'],
 'all graphs, weights, terminal sets, heuristic parameters, queue orders, branching rules, worker and process counts and interleavings',
 'the heuristics edit the graph between kernelization and branching, so what they leave behind (no terminal with an edge, an edge chosen earlier that is gone, a component without terminals) depends on the instance and on which subproblem a worker gets; no test runs them',
 ['app/multiterminal_cut.cpp','lib/algorithms/multicut/branch_multicut.h','lib/algorithms/multicut/edge_selection.h','lib/algorithms/multicut/problem_management.h','lib/algorithms/multicut/local_search.h','lib/algorithms/multicut/measurements.h'],
 [('removal of terminals before branching','lib/algorithms/multicut/branch_multicut.h'),('several workers and processes improving one solution','lib/algorithms/multicut/problem_management.h')],
 ['returned value and assignment, termination, exit status'])
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
