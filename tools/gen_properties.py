#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the texts are easy to review and edit).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))
G = "lib/algorithms/global_mincut/"; M = "lib/algorithms/multicut/"; D = "lib/data_structure/"; PQ = D + "priority_queues/"
prop("C01", "Exact solvers return the minimum cut value",
 "For every undirected graph with at least two vertices and non-negative integer edge weights, the exact solvers (sequential and shared-memory) return exactly the weight of a global minimum cut, 0 if the graph is disconnected. The result does not depend on the graph representation, the priority queue, whether queue keys are limited, whether the cut is saved, or the random start vertex.",
 ["inputs", "configurations"], "all graphs x {static, mutable} x {queue kinds} x {limited, unlimited} x {save, no save} x all random start choices",
 "The tests run a handful of fixed graphs with one start vertex; they are not even compiled in this checkout. Only an enumeration of inputs and choices can tell that no contraction ever loses the last minimum cut.",
 [G + "noi_minimum_cut.h", G + "minimum_cut_helpers.h", "lib/parallel/algorithm/exact_parallel_minimum_cut.h", "lib/coarsening/contract_graph.h"],
 [("connectivity lower bounds from a maximum-adjacency scan decide which edges are contracted", G + "noi_minimum_cut.h"), ("bound is lowered to the smallest degree after every contraction", G + "minimum_cut_helpers.h")],
 [("mincut", "best cut value known so far", G + "noi_minimum_cut.h"), ("r_v", "connectivity bound of a vertex during the scan", G + "noi_minimum_cut.h")], ["perform_minimum_cut return value"])
prop("C02", "Inexact solvers never report less than the minimum cut",
 "For every undirected weighted graph with at least two vertices, the inexact solvers (VieCut, Karger-Stein, Padberg-Rinaldi, Matula) terminate and return the weight of an actual cut of the graph, hence never less than the minimum. Matula's result is within its factor 2 guarantee (at most 2*minimum+1, and 0 if the minimum is 0), and VieCut is exact on graphs it does not coarsen (at most 10000 vertices).",
 ["inputs", "configurations"], "all graphs x graph representation x queue kind x random choices",
 "Heuristics are tested on single instances where they happen to find the optimum; a wrong value below the minimum only shows on particular graphs.",
 [G + "viecut.h", G + "ks_minimum_cut.h", G + "padberg_rinaldi.h", G + "matula_approx.h", "lib/coarsening/contraction_tests.h"],
 [("only degrees of contracted graphs are used as cut values", G + "minimum_cut_helpers.h"), ("recursion of random contractions", G + "ks_minimum_cut.h")], None, ["perform_minimum_cut return value"])
prop("C03", "The reported side of a cut has exactly the reported weight",
 "When the cut is to be saved, after any sequential or shared-memory solver that returns one cut the vertices of the input graph marked as being in the cut form a proper non-empty subset, and the edges leaving it weigh exactly the returned value.",
 ["inputs", "configurations"], "all graphs x solver x graph representation x queue kind x random choices, including graphs large enough to be coarsened or recursed on",
 "save_cut tests check a few graphs; whether the partition is mapped back correctly depends on the sequence of contractions that the input triggers.",
 [G + "minimum_cut_helpers.h", G + "viecut.h", G + "ks_minimum_cut.h", "lib/coarsening/contract_graph.h", D + "mutable_graph.h"],
 [("partition index chains through all contraction levels", G + "minimum_cut_helpers.h")], [("in_cut", "side of every vertex", D + "mutable_graph.h")], ["getNodeInCut of the input graph"])
prop("C04", "The cactus represents exactly all minimum cuts",
 "For every connected weighted graph, finding all minimum cuts returns the minimum cut value together with a cactus in which every input vertex is contained in exactly one node. The minimum cuts of the cactus (single edges, or two edges of one cycle), translated to the input vertices, are exactly the minimum cuts of the graph. This holds for every edge selection rule and both graph representations.",
 ["inputs", "configurations"], "all connected graphs x edge selection rule x random choices",
 "The tests compare node and edge counts of the cactus on a few fixed graphs; which cuts are represented is never compared with the set of all minimum cuts.",
 [G + "cactus/cactus_mincut.h", G + "cactus/recursive_cactus.h", G + "cactus/heavy_edges.h", G + "cactus/all_cut_local_red.h", G + "cactus/graph_modification.h"],
 [("recursive construction around a flow between two vertices, merging of the two halves", G + "cactus/recursive_cactus.h"), ("contractions that keep every minimum cut", "lib/coarsening/contraction_tests.h")],
 [("containedVertices", "input vertices of a cactus node", D + "mutable_graph.h")], ["findAllMincuts result"])
prop("C05", "The parallel all-minimum-cuts solver finds the same cactus",
 "For every connected weighted graph, the shared-memory solver for all minimum cuts returns the minimum cut value and a cactus whose minimum cuts, translated to the input vertices, are exactly the minimum cuts of the graph.",
 ["inputs", "configurations"], "all connected graphs x edge selection rule x random choices",
 "As for the sequential solver, plus a different code path that is selected at compile time.",
 ["lib/parallel/algorithm/parallel_cactus.h", G + "cactus/recursive_cactus.h"], [("parallel kernel computation, then the recursive construction", "lib/parallel/algorithm/parallel_cactus.h")], None, ["findAllMincuts result"])
prop("C06", "Most balanced and lowest-conductance minimum cuts are optimal",
 "For every connected weighted graph, asking for the most balanced minimum cut returns a minimum cut whose smaller side is as large as in any minimum cut, and asking for the lowest conductance returns a minimum cut with the smallest conductance of all minimum cuts. The side reported on the input graph has the reported weight.",
 ["inputs", "configurations"], "all connected graphs x {balanced, conductance} x edge selection rule",
 "The choice between many minimum cuts is made by a dynamic program over the cactus; tests only cover a few shapes.",
 [G + "cactus/most_balanced_minimum_cut.h", G + "cactus/balanced_cut_dfs.h"], [("depth-first search over the cactus, cycles treated separately", G + "cactus/balanced_cut_dfs.h")], None, ["getNodeInCut of the input graph after findAllMincuts"])
prop("C07", "The dynamic solver is exact after every insertion and deletion",
 "After initialisation and after every edge insertion or deletion, in any order, the dynamic solver returns the minimum cut value of the current graph. The cactus it maintains (getCurrentCactus) represents only minimum cuts of the current graph, at least one, and as long as edges are only inserted it represents all of them.",
 ["histories", "inputs"], "all initial graphs x all sequences of insertions and deletions up to a length",
 "Correctness depends on the history (cached cuts, contracted cactus nodes); tests run single random sequences.",
 [G + "dynamic/dynamic_mincut.h", G + "dynamic/cactus_path.h"], [("cactus of all minimum cuts is maintained incrementally and restored from a cache", G + "dynamic/dynamic_mincut.h")], [("out_cactus", "cactus of the current graph", G + "dynamic/dynamic_mincut.h")], ["addEdge / removeEdge / initialize return values"])
prop("C08", "Maximum flow equals minimum terminal cut",
 "For every weighted graph and every set of at least two flow terminals with one of them chosen as source, the push-relabel solver returns the value of a maximum flow from the source to the other terminals (the weight of a minimum cut separating it from all of them). The returned source side contains the source and no sink, and the edges leaving it weigh exactly the flow value. The limited variant returns the same if the value is below the given limit, and otherwise a value that is at least the limit and at most the maximum flow.",
 ["inputs", "configurations"], "all graphs x terminal sets x source x limits",
 "Fixed instances only; labels, gap heuristics and cut extraction fail on particular residual graphs.",
 ["lib/algorithms/flow/push_relabel.h", D + "flow_graph.h"], [("push and relabel with global updates", "lib/algorithms/flow/push_relabel.h")], None, ["solve_max_flow_min_cut return value"])
prop("C09", "Contraction keeps the weight between clusters",
 "Contracting a graph along a partition of its vertices, by any of the contraction routines (sequential, shared-memory, static or mutable graph, with or without copying), yields a graph with one vertex per block in which the total edge weight between two blocks equals that in the original graph, and a mapping that assigns every original vertex to the vertex of its block. Degree and edge counts of the result are consistent with its edges.",
 ["inputs", "configurations"], "all graphs x all partitions x contraction routine",
 "Tests contract a few regular graphs; errors need particular overlaps of neighbourhoods or block sizes.",
 ["lib/coarsening/contract_graph.h", "lib/parallel/coarsening/contract_graph.h", D + "mutable_graph.h"], [("per-block accumulation of edge weights", "lib/coarsening/contract_graph.h"), ("in-place vertex set contraction", D + "mutable_graph.h")], None, ["contracted graph", "partition index of the original graph"])
prop("C10", "Reductions never contract across every better cut",
 "For every graph: the vertices merged by the connectivity scan, or because of heavy edges or triangles, are separated by no cut lighter than the given bound. The local tests, given an upper bound of the minimum cut that no vertex degree undercuts, leave at least one minimum cut intact whenever the minimum is below the bound. In the modes that preserve all minimum cuts (limit above the minimum), every minimum cut stays intact.",
 ["inputs", "configurations"], "all graphs x all bounds from the minimum cut upward x scan start x reduction x {one cut, all cuts}",
 "Whole-solver tests rarely reach the one contraction that is unsafe.",
 ["lib/coarsening/contraction_tests.h", "lib/parallel/coarsening/contraction_tests.h", G + "noi_minimum_cut.h", G + "cactus/heavy_edges.h"], [("degree and triangle conditions", "lib/coarsening/contraction_tests.h"), ("connectivity lower bounds", G + "noi_minimum_cut.h")], None, ["returned union-find"])
prop("C11", "Shared-memory reductions are safe under every schedule",
 "When the shared-memory reductions run on several threads, under every interleaving they terminate, and the vertices they merge leave at least one minimum cut intact whenever the minimum is below the given bound.",
 ["schedules", "inputs"], "all interleavings of 2-3 threads up to a preemption bound x small graphs",
 "A test observes one schedule per run and cannot steer it.",
 ["lib/parallel/coarsening/contraction_tests.h", "lib/parallel/algorithm/exact_parallel_minimum_cut.h", "lib/parallel/data_structure/union_find.h"], [("compare-and-swap on contraction marks", "lib/parallel/coarsening/contraction_tests.h"), ("shared visited flags", "lib/parallel/algorithm/exact_parallel_minimum_cut.h")], None, ["returned union-find"])
prop("C12", "The concurrent union-find is linearizable",
 "When several threads call union, find and same-set concurrently on the shared-memory union-find, under every interleaving all calls return, the final partition is the one generated by all requested unions, and the set count equals the number of blocks. Two elements already united by a completed union are never reported as separate afterwards, and elements that no union connects are never reported as united.",
 ["schedules", "histories"], "all interleavings of 2-3 threads with 1-3 operations each, up to a preemption bound",
 "The unit tests are single threaded; the races need a preemption between two specific memory accesses.",
 ["lib/parallel/data_structure/union_find.h"], [("compare-and-swap on parents and ranks", "lib/parallel/data_structure/union_find.h")], [("parent, rank", "forest of sets", "lib/parallel/data_structure/union_find.h")], ["Union, Find, SameSet, n"])
prop("C13", "The sequential union-find matches the partition it was told",
 "After every sequence of union operations the sequential union-find reports two elements as united exactly if the unions connect them, reports for each union whether it merged two sets, and counts the sets correctly. Representatives are members of their own set and stable between unions.",
 ["histories"], "all operation sequences up to a length on up to 6 elements",
 "Unit tests run a few fixed sequences.", [D + "union_find.h"], [("union by rank with path compression", D + "union_find.h")], None, ["Union, Find, SameSet, n"])
prop("C14", "Every priority queue behaves like a maximum priority queue",
 "After every sequence of insert, key change, delete and delete-max operations that respects its documented key range, each priority queue reports the correct size, membership and keys, and delete-max returns an element whose key is maximal. Bucket queues additionally honour their first-in-first-out or last-in-first-out order among equal keys as long as elements are only inserted and removed as maximum (changing a key or deleting an arbitrary element may reorder its bucket).",
 ["histories"], "all operation sequences up to a length on 3-4 elements and few key values, for each queue",
 "Tests cover insert/delete patterns but not all orders of key changes and deletions.", [PQ + f for f in ("fifo_node_bucket_pq.h", "node_bucket_pq.h", "bucket_pq.h", "maxNodeHeap.h", "vecMaxNodeHeap.h")], [("bucket array with maximum pointer", PQ + "node_bucket_pq.h"), ("binary heap with index map", PQ + "vecMaxNodeHeap.h")], None, ["public queue interface"])
prop("C15", "The mutable graph stays consistent under every operation sequence",
 "After every sequence of edge insertions, deletions, weight changes, edge contractions, vertex set contractions and vertex deletions, the mutable graph has the vertices and edges that a plain weighted multigraph would have after the same operations. Reverse edges, degrees, edge counts and the mapping between original vertices and current vertices stay consistent.",
 ["histories", "inputs"], "all operation sequences up to a length from all small graphs",
 "Tests apply one or two operations to a few graphs; stale reverse edges or positions need particular sequences.", [D + "mutable_graph.h"], [("reverse edge indices are repaired whenever edges move", D + "mutable_graph.h"), ("vertices are swapped with the last one on removal", D + "mutable_graph.h")], [("current_position, contained_in_this", "mapping between original and current vertices", D + "mutable_graph.h")], ["public graph interface"])
prop("C16", "Graph copies, conversions and serialisation are lossless",
 "Copying a mutable graph, converting a static graph to a mutable one or back, and serialising and restoring a mutable graph yield a graph with the same vertices, edges, weights, degrees and (where kept) mapping of original vertices.",
 ["inputs", "histories"], "all small graphs, also after every short sequence of contractions and deletions",
 "Tests serialise single fixed graphs.", [D + "mutable_graph.h", D + "graph_access.h", "lib/tools/graph_extractor.h"], [("flat serialisation of adjacency lists", D + "mutable_graph.h")], None, ["serialize / deserialize / from_graph_access / to_graph_access"])
prop("C17", "Multiterminal cut: optimal value and a feasible solution",
 "For every connected weighted graph and every set of at least two terminals, the exact multiterminal cut solver terminates and returns the minimum total weight of edges whose removal separates all terminals pairwise, under every combination of queue order, branching rule and edge selection.",
 ["inputs", "configurations"], "all graphs x terminal sets x queue type x edge selection x branching mode",
 "Tests use a few instances with default options; reductions and bounds interact in input-specific ways.", [M + "multiterminal_cut.h", M + "branch_multicut.h", M + "kernelization_criteria.h", M + "edge_selection.h", M + "graph_contraction.h", M + "problem_management.h"], [("branch and reduce with lower bounds from maximum flows", M + "branch_multicut.h")], [("global_upper_bound", "value of the incumbent", M + "branch_multicut.h")], ["multicut return value", "solution vector"])
prop("C18", "Multiterminal reductions preserve the optimum",
 "For every graph and terminal set, applying the kernelization of the multiterminal cut solver leaves terminals distinct, and the weight removed so far plus the optimal multiterminal cut of the reduced graph equals the optimum of the original graph whenever that optimum is below the upper bound. A branching step loses nothing: the best of the subproblems it creates (and of the solutions it stores) is the optimum of the problem it was applied to.",
 ["inputs", "configurations"], "all small graphs x terminal sets x upper bounds", "Whole-solver tests hide an unsafe reduction unless it destroys every optimal solution.", [M + "kernelization_criteria.h", M + "graph_contraction.h", M + "maximum_flow.h"], [("contraction of heavy edges, low degree vertices, triangles and flow-connected pairs", M + "kernelization_criteria.h")], None, ["reduced problem"])
prop("C19", "The problem queue neither loses nor duplicates subproblems",
 "Under every interleaving of threads that add and take subproblems, every subproblem added to the shared problem queue is handed out exactly once or is still in the queue, unless its bound shows it cannot improve the incumbent. The queue reports that all work is done only when nothing is left and no thread is still working.",
 ["schedules", "histories"], "all interleavings of 2-3 threads with 1-3 operations each, up to a preemption bound", "Tests never run the queue concurrently under control.", [M + "problem_queues/per_thread_problem_queue.h", M + "problem_queues/single_problem_queue.h"], [("per-thread queues with one mutex each, a slot for problems to be sent", M + "problem_queues/per_thread_problem_queue.h")], None, ["addProblem, pullProblem, empty, size"])
prop("C20", "The best solution found is never overwritten by a worse one",
 "When several threads report improved multiterminal solutions concurrently, under every interleaving the recorded upper bound never increases and in the end the recorded solution has exactly the recorded value, which is the smallest value reported.",
 ["schedules"], "all interleavings of 2-3 reporting threads up to a preemption bound", "Needs a preemption between comparing and storing.", [M + "problem_management.h", M + "branch_multicut.h"], [("check and update of the incumbent", M + "problem_management.h")], [("global_upper_bound, best_solution", "incumbent", M + "problem_management.h")], ["upper bound and solution after all threads finished"])
prop("C21", "Parallel branch and bound is correct under every schedule",
 "Solving a multiterminal cut problem with several worker threads, or with several communicating processes, terminates under every schedule and message order and returns the optimum and a solution that has this weight.",
 ["schedules", "inputs"], "schedules of 2-3 workers or 2-3 processes up to a bound x small instances", "Tests run whatever schedule the machine produces.", [M + "branch_multicut.h", M + "problem_management.h", M + "problem_queues/per_thread_problem_queue.h"], [("idle counting and condition variables for termination", M + "branch_multicut.h")], None, ["multicut return value"])
prop("C22", "Local search never worsens a multiterminal solution",
 "Given any feasible assignment of vertices to terminals, the local search returns a feasible assignment that keeps every terminal in its own block and whose cut weight is not larger; the improvement it reports is the actual difference.",
 ["inputs", "configurations"], "all small graphs x terminal sets x assignments", "Tests run no local search in isolation.", [M + "local_search.h"], [("flow-based and gain-based moves", M + "local_search.h")], None, ["solution before and after"])
prop("C23", "Graph files are read and written faithfully",
 "Reading a graph file in METIS format (with or without weights, comments and isolated vertices) yields exactly the graph it describes, writing a graph and reading it back yields the same graph, and temporal and edge-list readers return exactly the listed edges.",
 ["inputs"], "all small graphs x format variants", "Tests read a few sample files.", ["lib/io/graph_io.h"], [("line-oriented integer parser", "lib/io/graph_io.h")], None, ["readGraphWeighted, writeGraphWeighted, readTemporalGraph"])
prop("C24", "k-cores and components are computed exactly",
 "For every graph, the core decomposition returns the core number of every vertex, the extracted k-core is the maximal subgraph of minimum degree k, and the component routines report the connected components and the largest one correctly.",
 ["inputs"], "all small graphs x k", "Tests use single graphs.", ["lib/algorithms/misc/core_decomposition.h", "lib/algorithms/misc/strongly_connected_components.h", "lib/tools/graph_extractor.h"], [("bucket peeling", "lib/algorithms/misc/core_decomposition.h"), ("iterative depth-first search", "lib/algorithms/misc/strongly_connected_components.h")], None, ["core numbers, component ids"])
prop("C25", "Articulation points and bridges are found exactly",
 "For every connected graph, the routines for articulation points and bridges report exactly the cut vertices and bridges of the graph (as far as their interfaces promise), and what is contracted because of a bridge or articulation point is correct for the given terminals.",
 ["inputs"], "all small graphs x terminal sets", "Tests use single graphs.", ["lib/algorithms/misc/find_articulation_points.h", "lib/algorithms/misc/find_bridges.h"], [("low-point depth-first search", "lib/algorithms/misc/find_bridges.h")], None, ["reported points / bridges"])
prop("C26", "A subproblem sent to another process arrives unchanged",
 "A multiterminal subproblem that is sent to another process and received there has the same graph, terminals, vertex mapping, removed weight and bounds, so that its optimum and the solutions derived from it are the same.",
 ["inputs", "histories"], "all small subproblems reachable by short branching histories", "The tests do not use message passing.", [M + "mpi_communication.h", D + "mutable_graph.h", M + "multicut_problem.h"], [("serialisation into a flat message", M + "mpi_communication.h")], None, ["sendProblem / waitForProblem"])
prop("C27", "Label propagation yields a valid clustering of every graph",
 "For every weighted graph, label propagation terminates and assigns every vertex a cluster id in range, that of a vertex of its own connected component; remapping the ids gives contiguous block ids and vertex lists that agree with the clustering.",
 ["inputs", "configurations"], "all small graphs x random choices x iteration counts", "Random tie breaking is never controlled by the tests.", ["lib/coarsening/label_propagation.h", "lib/parallel/coarsening/label_propagation.h", G + "minimum_cut_helpers.h"], [("iterated strongest-neighbour moves", "lib/coarsening/label_propagation.h")], None, ["propagate_labels, remap_cluster"])
prop("C28", "The static graph answers queries about exactly the edges it was built from",
 "A static graph built edge by edge reports exactly the vertices, edges, sources, targets, weights, reverse edges and degrees it was built from, also for isolated vertices and after weights change. Weighted degrees are computed when first asked for and describe the weights at that time; edge queries always show the current weights.",
 ["inputs", "histories"], "all small graphs x build orders", "Tests build a few graphs.", [D + "graph_access.h"], [("adjacency array with prefix offsets", D + "graph_access.h")], None, ["public graph interface"])
prop("C29", "Terminals are chosen as requested",
 "The multiterminal front end works on exactly the terminals that were asked for: the valid ids of a list, the k vertices of largest weighted degree, k distinct random vertices, or (on connected graphs) k vertices that are each farthest from a random start and the earlier ones, or those of a partition file. When terminals are grown to blocks, the blocks are disjoint and connected, contain their own terminal, have at most the requested size, and are smaller only if no free neighbour is left.",
 ["inputs", "configurations"], "all small graphs x ways of choosing terminals x random choices", "Tests give terminals explicitly.", [M + "multiterminal_cut.h"], [("terminal selection and breadth-first growth of blocks", M + "multiterminal_cut.h")], None, ["setOriginalTerminals"])
prop("C30", "Coarsening contracts connected blocks and keeps all weight between them",
 "Edge sampling, random matching and the removal of heavy vertices terminate on every graph. Sampling and matching yield a contraction of the input along connected blocks (of at most two vertices for matchings), in which the weight between two blocks is the sum of the edge weights between them; sequential sampling leaves exactly the number of vertices its factor asks for, never fewer than two or than the number of components. Removing heavy vertices yields the weighted subgraph induced by the others. The search for trivial cuts among clusters only splits single vertices off their clusters and keeps mapping, vertex lists and partition indices in agreement.",
 ["inputs", "configurations"], "all small graphs x samplers x factors x random choices", "Random contraction is not tested.", ["lib/coarsening/sparsify.h", "lib/parallel/coarsening/sparsify.h", G + "ks_minimum_cut.h"], [("random contraction through union-find", "lib/coarsening/sparsify.h"), ("trivial cut search", "lib/coarsening/contract_graph.h")], None, ["one_ks, random_matching, remove_heavy_vertices, findTrivialCuts"])
prop("C31", "The command line programs report and write what they are asked for",
 "For every valid input file and combination of documented options, the programs end normally and print the value their library routine promises for that graph (also over several iterations and seeds), and the files they write - the two sides of the cut, the cactus as GraphML, the multiterminal assignment, the k-cores and the largest component - contain a correct solution of that value for the input graph.",
 ["inputs", "configurations"], "all small input files x option combinations", "The tests never start the programs.", ["app/mincut.cpp", "app/multiterminal_cut.cpp", "app/kcore.cpp", "app/largest_cc.cpp", "app/temporal_largest_cc.cpp", "app/dynamic_mincut.cpp", "app/mincut_contract.cpp"], [("option parsing, repeated runs and output", "app/mincut.cpp")], None, ["RESULT lines and output files"])
prop("C32", "Graph generators and experiment programs do what they announce",
 "For every valid input file, option and random choice, the remaining programs end normally. gnp_torus writes a symmetric graph without self loops with the requested number of blocks and vertices, in which neighbouring blocks of the torus (and only these) are joined by edges of exactly the requested total weight. make_graph_weighted keeps the edges and gives each a weight from the range, multiplied for at least one edge of every non-isolated vertex, the same in both directions. create_augment_edges writes exactly the requested numbers of insertions of new edges and deletions of edges inserted before. decremental_gnp and dynmc_from_static report the same changes of the minimum cut with the dynamic as with the static algorithm, and end (start) with the input graph. balanced_small_cut and mincut_recursive report the minimum cut of every graph of their sequence, which shrinks until it is done. mincut_heavy reports and writes the weight of a cut that is minimum among the light vertices and puts every heavy vertex to the majority of its light neighbours. Seeds are honoured.",
 ["inputs", "configurations"], "all small input files x options x random choices of the programs", "The tests never start the programs.", ["app/gnp_torus.cpp", "app/make_graph_weighted.cpp", "app/create_augment_edges.cpp", "app/decremental_gnp.cpp", "app/dynmc_from_static.cpp", "app/balanced_small_cut.cpp", "app/mincut_recursive.cpp", "app/mincut_heavy.cpp"], [("generation loops over random draws", "app/gnp_torus.cpp"), ("replay of changes on static and dynamic algorithm", "app/dynmc_from_static.cpp")], None, ["output files and printed cuts"])
prop("C33", "Heuristic and interrupted multiterminal runs still return a feasible solution",
 "For every connected weighted graph and every set of at least two terminals, the multiterminal cut solver with inexact branching, and the solver whose time limit has expired, terminate under every combination of their options (share of removed terminals, contraction depth, branching factor, branching rule, queue order, edge selection). They return an assignment that keeps every terminal in its own block, and the reported value is exactly the weight of this assignment, hence never below the optimum.",
 ["inputs", "configurations", "schedules"], "all small graphs x terminal sets x heuristic options x schedules", "The tests never run the inexact mode.", [M + "branch_multicut.h", M + "edge_selection.h", M + "problem_management.h", M + "local_search.h"], [("removal of light terminals and contraction around the heaviest", M + "branch_multicut.h")], None, ["reported value and solution of the inexact solver"])
P.sort(key=lambda p: p["id"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
