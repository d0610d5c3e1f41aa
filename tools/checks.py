# What each property's check runs. A job: harness source, compile flags, argument.
O2 = "-O2 -D_GLIBCXX_ASSERTIONS"; ASAN = "-O1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"; PAR = " -DPARALLEL"
def J(name, src, flags=O2, **k): return dict(name=name, src=src, flags=flags, **k)
def both(src, arg): return [J("seq", src, O2, arg=arg), J("par", src, O2 + PAR, arg=arg), J("seq_asan", src, ASAN, arg=arg, thorough_only=True), J("par_asan", src, ASAN + PAR, arg=arg, thorough_only=True)]
TECH = "stateless model checking of the implementation: exhaustive bounded enumeration of inputs, configurations and internal random choices against an independent reference"
NOTE = "Every case within the stated bounds is executed on the real code and compared with a brute-force reference; nothing is sampled. Trusted: the reference, the stub headers for missing submodules (stubs/), the compiler."
CHECKS = {}
def check(id, jobs, rule, technique=TECH, note=NOTE, level="model_checking", assumptions=()): CHECKS[id] = dict(jobs=jobs, rule=rule, technique=technique, note=note, level=level, assumptions=list(assumptions))
SMALL = "all labelled graphs on 2-4 vertices with weights 0..3; all weighted isomorphism classes on 5 (weights 0..2), 6 and 7 vertices (0/1) under several labellings; weights around 2^31..2^33; blow-ups of all 3-5 vertex skeletons to 130 and 10400 vertices; networks of 420 and 870 blocks with more than 10000 vertices whose minimum cut is found only after coarsening"
check("C01", both("mincut_exact.cpp", "exact"), SMALL + "; x graph type x queue x limiting x save x start-vertex choices (one deviation from the default choice). Non-trivial: connected, more than 3 vertices.")
check("C02", both("mincut_exact.cpp", "heur"), SMALL + "; x solver x graph type x queue x random choices. Non-trivial: connected, more than 3 vertices.")
check("C03", both("mincut_exact.cpp", "side"), SMALL + "; x solver x graph type x queue x random choices, with the cut saved. Non-trivial: connected, more than 3 vertices.")
CACT = "all connected labelled graphs on 2-4 vertices with weights 0..3; all connected isomorphism classes on 5 (weights 0..2), 6 and 7 vertices (0/1) under several labellings; rings of clusters, double rings, rings with pendants, cycles, ladders, wheels up to 11 vertices; parallel edges in mutable graphs (3-6 vertices)"
check("C04", [J("seq", "cactus.cpp", O2, arg="cactus"), J("asan", "cactus.cpp", ASAN, arg="cactus", thorough_only=True)], CACT + "; x 4 edge selection rules x graph type x known/unknown bound x random choices (one deviation); graphs of more than 10000 vertices where the heuristic bound misses the minimum cut (every small graph with its vertices blown up to rings with pendants). Non-trivial: more than one minimum cut.")
check("C05", [J("par", "cactus.cpp", O2 + PAR, arg="cactus"), J("asan", "cactus.cpp", ASAN + PAR, arg="cactus", thorough_only=True)], CACT + "; and the large graphs, as C04 on the shared-memory code (one thread; schedules are explored by C11). Non-trivial: more than one minimum cut.")
check("C06", both("cactus.cpp", "balanced"), CACT + "; x {most balanced, lowest conductance} x edge selection x graph type x random choices; cycles, paths and pairs of rings whose vertices stand for blocks of different sizes, in several numberings (the balance then depends on the sizes of the blocks). Non-trivial: more than one minimum cut.")
check("C07", both("dynamic.cpp", "value"), "all histories of edge insertions and deletions up to depth 3-6 from all labelled graphs on 2-3 vertices, all isomorphism classes on 4 and 5 vertices, cycles, paths, stars, wheels, ladders on 6-9 vertices, chorded cycles; parallel edges; all small cacti x every vertex pair joined x rules that insert edges across minimum cuts until the minimum rises; high-degree cactus nodes (n>=100); histories longer than the cache records; hubs with pendant vertices and cycles and paths of 15 and 16 vertices x histories that start with a deletion and end with an insertion. After every step the value is compared and the maintained cactus: up to 16 vertices it represents only minimum cuts, and all of them unless a deletion added minimum cuts without changing the value; on larger graphs vertices share a node if and (with the same exception) only if no minimum cut separates them. Non-trivial: the history deletes an edge.")
REFM = "explicit-state exploration of operation sequences on the implementation against an abstract reference model, exhaustive up to a depth"
check("C13", [J("seq", "uf.cpp"), J("asan", "uf.cpp", ASAN, thorough_only=True)], "all sequences of Union and Find calls: 1-3 elements depth 5-7, 4 elements depth 5, 5 elements depth 4, 6 elements depth 4 (unions), plus every further call on balanced trees over 8 and 16 elements. All representatives are compared after every call.", REFM)
check("C14", [J("seq", "pq.cpp"), J("asan", "pq.cpp", ASAN, thorough_only=True)], "five queue classes x all sequences of insert, increase/decrease/change key, delete, delete-max: 1-2 elements depth 6, 3 and 4 elements depth 6 (two or three keys, 64 bit keys for heaps), all insertion orders of 6 and 7 keys plus all one or two further operations, 8 elements with all key assignments, 31 and 40 elements; size, membership, keys and maximum compared after every operation, then drained.", REFM)
check("C15", [J("seq", "mutable.cpp", arg="ops"), J("asan", "mutable.cpp", ASAN, arg="ops", thorough_only=True)], "all sequences of edge insertions, deletions, weight changes, four contraction routines, vertex deletions and insertions: 2 vertices depth 4, 3 vertices depth 3-4, 4 vertices depth 3, 5 vertices depth 3, named graphs on 6-8 vertices depth 2, with parallel edges; complete structure compared with a reference multigraph after every operation.", REFM)
check("C16", [J("seq", "mutable.cpp", arg="copy"), J("asan", "mutable.cpp", ASAN, arg="copy", thorough_only=True)], "in every graph reached by the operation sequences of C15 (without vertex deletion): copy, conversion in both directions, simplification, serialisation round trip.", REFM)
check("C24", [J("seq", "basic.cpp", arg="cores"), J("asan", "basic.cpp", ASAN, arg="cores", thorough_only=True)], "all labelled graphs on 1-3 vertices (weights 0,1,2,5), 4 (0,1,3) and 5 (0/1) vertices, isomorphism classes on 6 and 7 under several labellings: core numbers and order, every k-core, components of static and mutable graphs, largest component, extracted blocks, breadth-first distances, highest degrees, each called twice.")
check("C25", [J("seq", "basic.cpp", arg="bridges"), J("asan", "basic.cpp", ASAN, arg="bridges", thorough_only=True)], "all labelled graphs on 2-4 vertices (weights 0..2) and 5 vertices (0/1), isomorphism classes on 6 and sparse ones on 7 vertices under several labellings x all terminal sets of size 1-4: bridges, articulation points, and the effect of the resulting contractions on the brute-force multiterminal optimum.")
check("C28", [J("seq", "basic.cpp", arg="static"), J("asan", "basic.cpp", ASAN, arg="static", thorough_only=True)], "all directed edge sets (with self loops) on 0-3 vertices, all symmetric ones on 4-5 vertices, parallel edges, weights up to 2^35, over-estimated edge counts, long runs of isolated vertices: every query of the interface, before and after weight changes.", REFM)
check("C23", [J("seq", "io.cpp"), J("asan", "io.cpp", ASAN, thorough_only=True)], "all labelled graphs on 1-3 vertices (weights 0,1,12,2^32+9), 4 and 5 vertices, named graphs with two-digit vertex ids, isolated vertices x {static, mutable} x 7 format codes x comment placements x leading blanks x separators x trailing characters x final newline x self loops; write/read round trips of every writer; all temporal files with up to 2 lines over a pool of 15-45 lines, 3 lines over a sub-pool, three column styles; DIMACS edge lists; vectors.")
check("C08", [J("seq", "flow.cpp"), J("asan", "flow.cpp", ASAN, thorough_only=True)], "all labelled graphs on 2-4 vertices (weights 0..3), 5 vertices, isomorphism classes on 6 and 7, layered and named networks x all terminal sets x every source x every limit x both partial relabelling depths; value, source side and residual flow compared with an independent maximum flow.")
check("C09", both("contract.cpp", ""), "all labelled graphs on 1-3 vertices (weights up to 2^32+1), 4 vertices (0..2, and with parallel edges), 5 vertices (0/1), isomorphism classes on 5 and 6 with distinguishable weights x ALL partitions of the vertices x {static, mutable in place, mutable copied, explicit mapping} x {save, no save}; two contractions in a row for all pairs of partitions; blow-ups to 78-160 vertices x 10 partition shapes (paths for large blocks).")
check("C10", both("reductions.cpp", ""), "all labelled graphs on 2-4 vertices (weights 0..3, 2^32+1), isomorphism classes on 5 (0..2) and 6 vertices (0/1 and twelve derived weightings) under several labellings, connected classes on 7, named graphs on 8 and 10; with and without parallel edges and both neighbour orders x every reduction (local tests 1-4 in both modes, local tests for all cuts, heavy edges and triangles, connectivity scans with every queue) x every bound x every start vertex. EVERY cut of the graph is compared with the merged blocks. Non-trivial: connected.")
CONC = "stateless model checking of the implementation under a controlled scheduler: depth-first enumeration of all thread interleavings up to a preemption bound, with every memory word on which two threads have conflicting accesses that no synchronisation orders (found by vector clocks, iterated to a fixed point) as a scheduling point"
CN = "The real code, compiled with access instrumentation and run on fibers under the scheduler in conc/. Sequentially consistent executions only. Trusted: the scheduler, the reference."
def K(name, src, flags="-DPARALLEL", **k): return dict(name=name, src=src, flags=flags, kind="conc", **k)
check("C12", [K("sched", "conc_uf.cpp")], "all programs of two threads with 1-2 calls each (union, find, same-set; 2 and 3 elements, optionally pre-united) with up to 3 (2 for four calls) preemptions, three threads with up to 2; results linearizable, final partition and set count correct.", CONC, CN)
check("C11", [K("sched", "conc_par.cpp", arg="reductions")], "Padberg-Rinaldi tests, heavy edges and triangles, shared-memory connectivity scan (all start vertices, blacklist on and off): all labelled graphs on 2-3 vertices (weights 0..3), isomorphism classes on 4 (0..2) and 5 vertices, named graphs up to 6; 2-3 threads, every distribution of loop iterations, up to 1-2 preemptions.", CONC, CN)
for c, a, r in (("C01", "solve", "the exact shared-memory solver"), ("C03", "solve", "the exact shared-memory solver with the cut saved"), ("C05", "cactus", "the shared-memory solver for all minimum cuts"), ("C09", "contract", "the shared-memory contraction routines along every partition")):
    CHECKS[c]["jobs"].append(K("sched", "conc_par.cpp", arg=a)); CHECKS[c]["rule"] += " Schedules: " + r + " on 2 threads with 1 (2) preemptions on graphs with up to 5 vertices."; CHECKS[c]["technique"] += "; schedule exploration for the shared-memory code"
MTN = "The message passing interface is replaced by an in-process implementation with buffered sends (harness/mpi_sim.hpp). "
check("C17", [K("seq", "mt.cpp", "", arg="solve")], "all labelled graphs on 2-4 vertices (weights 0..2) x all terminal sets x both branching rules; every assignment of terminal ids to the vertices of 2-4 vertex graphs (several vertices per terminal, unused terminals, disconnected graphs); isomorphism classes on 5 (0..2), 6 and dense ones on 7 vertices with derived weights, weights beyond 2^31 and 2^32, named graphs up to 12 vertices with terminal blocks, blow-ups of all 3-4 vertex skeletons to 12 vertices; eight queue orders and six edge selection rules cycled; on 5 vertices every single deviation of the random source. Reported value, written solution (feasible, weight equal to the value) and termination are compared with exhaustive assignment.", CONC.replace("up to a preemption bound", "(here: one worker, default schedule)") + "; exhaustive bounded enumeration of inputs and configurations", CN + " " + MTN)
check("C19", [K("sched", "conc_mt.cpp", "", arg="queue")], "every sequential history of up to 5 operations (add with and without local preference, lower bounds 0-4, take, take for sending, prune) for eight queue orders; all programs of two threads with 1-2 operations and three threads with one after five prefixes, up to 3 (longer programs 1-2) preemptions. No problem lost, duplicated or null, announced sizes equal the content.", CONC, CN)
check("C20", [K("sched", "conc_mt.cpp", "", arg="best")], "all pairs of feasible solutions of four graphs reported by two threads, with a reader or a bound from another process as a third, 1-2 preemptions: the bound never grows, the stored solution is the best one given and has the recorded value.", CONC, CN + " " + MTN)
check("C21", [K("sched", "conc_mt.cpp", "", arg="solve")], "complete solver runs on 40 instances chosen because they branch and on all connected graphs on 4 and 5 vertices, both branching rules, eight queue orders: 2 and 3 workers in one process, 2 and 3 processes with one worker (one deviation from round-robin order; two for every eighth instance with 2 processes). Termination, value and solution of every process are compared with exhaustive assignment. Thorough: two deviations everywhere, two processes with two workers, 12-vertex instances.", CONC.replace("up to a preemption bound", "up to a bound on deviations from round-robin order (delay bounding)"), CN + " " + MTN)
MTG = "all connected labelled graphs on 2-4 vertices (weights 0..2), isomorphism classes on 5 (two weightings), 6 (two weightings) and 7 vertices, x terminal sets"
check("C18", [J("red", "mtred.cpp", O2, arg="reduce"), J("branch", "mtred.cpp", O2, arg="branch"), J("red_asan", "mtred.cpp", ASAN, arg="reduce", thorough_only=True), J("branch_asan", "mtred.cpp", ASAN, arg="branch", thorough_only=True)], MTG + " of 2-4 vertices, classes of 5 vertices with weights 0..3 and of 6 vertices with weights 1..5, weights beyond 2^31, named graphs on 8-10 vertices, x {whole kernelization, each of six reductions alone} x {before, after the isolating flows, after deleting edges between terminals} x upper bounds (optimum + 0, 1, 3, none) x one (two) deviations from the random choices. Then one branching step under both rules and six edge selections: the best of the stored solution and all subproblems is the optimum, bounds of subproblems are sound. Non-trivial: something was contracted or branched on.")
check("C22", [J("seq", "mtred.cpp", O2, arg="ls"), J("asan", "mtred.cpp", ASAN, arg="ls", thorough_only=True)], "all labelled graphs on 2-4 vertices (weights 0..2), isomorphism classes on 5, 6 and 7 vertices, x terminal sets x every feasible assignment (every third on 6 vertices) x one (two) deviations from the random choices. Non-trivial: the assignment was improved.")
check("C26", [J("seq", "mtred.cpp", O2, arg="msg"), J("asan", "mtred.cpp", ASAN, arg="msg", thorough_only=True)], MTG + " x all histories of 2-3 steps out of {isolating flow, deleting terminal edges, kernelization, a multiway or single branch, rebuilding, contracting or deleting an edge}; the problem is sent and received after every step and compared field by field, optimum, next step and solution included.", REFM, NOTE + " Messages go through the in-process message passing stand-in.")
check("C27", [J("seq", "lp.cpp"), J("par", "lp.cpp", O2 + PAR), K("sched", "conc_par.cpp", arg="lp"), J("seq_asan", "lp.cpp", ASAN, thorough_only=True), J("par_asan", "lp.cpp", ASAN + PAR, thorough_only=True)], "all labelled graphs on 1-3 (weights 0..3) and 4 vertices (0..2), isomorphism classes on 5-7 vertices under several labellings, named graphs up to 130 vertices, weights around 2^31 and 2^32, x graph type x deviations from the default random choices (three on 1-3, two on 4, one on larger graphs); all id vectors on up to 5 vertices for the renumbering; shared-memory code on 2 threads under all interleavings with up to 2 preemptions on up to 5 vertices. Ids in range, labels only travel along edges, renumbering is a bijection on clusters. Non-trivial: at least two vertices share a label.", TECH + "; schedule exploration for the shared-memory code", NOTE + " " + CN)
check("C29", [J("seq", "terms.cpp"), J("asan", "terms.cpp", ASAN, thorough_only=True)], "all labelled graphs on 2-4 vertices, isomorphism classes on 5 and 6, named graphs x {listed ids (also invalid ones), top k, k random (every draw within one or two deviations), k distant, block sizes, percentages, partition and order files}. Non-trivial: more than two terminals, or blocks of several vertices.")
check("C30", both("coarsen.cpp", ""), "all labelled graphs on 2-4 vertices, isomorphism classes on 5 and 6 with derived weights, disconnected and edgeless graphs x {sequential sampling, four shared-memory samplers, random matching, removal of heavy vertices} x contraction factors x random choices (deviations from the default draw); trivial cut search: small graphs x ALL partitions x targets x graph type, nine-vertex graphs with blocks of up to 3. Non-trivial: something is contracted, removed or split off.")
check("C31", [J("mincut", "apps.cpp", O2 + " -DAPP=1"), J("mincut_par", "apps.cpp", O2 + PAR + " -DAPP=1"), J("multiterminal", "apps.cpp", O2 + " -DAPP=2"), J("kcore", "apps.cpp", O2 + " -DAPP=3"), J("largest_cc", "apps.cpp", O2 + " -DAPP=4"), J("temporal_cc", "apps.cpp", O2 + " -DAPP=5"), J("dynamic", "apps.cpp", O2 + " -DAPP=6"), J("dynamic_par", "apps.cpp", O2 + PAR + " -DAPP=6"), J("contract", "apps.cpp", O2 + " -DAPP=7"), J("contract_par", "apps.cpp", O2 + PAR + " -DAPP=7"), J("mincut_asan", "apps.cpp", ASAN + " -DAPP=1", thorough_only=True), J("multiterminal_asan", "apps.cpp", ASAN + " -DAPP=2", thorough_only=True), J("dynamic_asan", "apps.cpp", ASAN + " -DAPP=6", thorough_only=True)], "the complete programs (their main, in a child process with a scratch directory) x all labelled graphs on 2-3 (weights 0..2) and 4 vertices (0,1,3), isomorphism classes on 5 (two weightings) and 6 vertices, named graphs on 7 and 8, weights beyond 2^32 x option combinations (algorithm, queue, limiting, saved cut, balanced cut, cactus file, iterations, seeds; terminal lists, top k, partition files; cores; contraction factors); histories of up to 4 edge changes; all subsets of a temporal edge list. Non-trivial: the cut changes, several components, more than two vertices with a positive cut.")
check("C32", [J("torus", "apps2.cpp", O2 + " -DAPP=1", budget={"quick": 45, "thorough": 700}), J("weights", "apps2.cpp", O2 + " -DAPP=2", budget={"quick": 45, "thorough": 700}), J("heavy", "apps2.cpp", O2 + " -DAPP=3", budget={"quick": 45, "thorough": 700}), J("recursive", "apps2.cpp", O2 + " -DAPP=4", budget={"quick": 45, "thorough": 700}), J("balanced", "apps2.cpp", O2 + " -DAPP=5", budget={"quick": 45, "thorough": 700}), J("augment", "apps2.cpp", O2 + " -DAPP=6", budget={"quick": 45, "thorough": 700}), J("decremental", "apps2.cpp", O2 + " -DAPP=7", budget={"quick": 45, "thorough": 700}), J("from_static", "apps2.cpp", O2 + " -DAPP=8", budget={"quick": 45, "thorough": 700}), J("heavy_par", "apps2.cpp", O2 + PAR + " -DAPP=3", budget={"quick": 30, "thorough": 400}), J("recursive_par", "apps2.cpp", O2 + PAR + " -DAPP=4", budget={"quick": 30, "thorough": 400}), J("balanced_par", "apps2.cpp", O2 + PAR + " -DAPP=5", budget={"quick": 30, "thorough": 400}), J("torus_asan", "apps2.cpp", ASAN + " -DAPP=1", budget={"quick": 45, "thorough": 300}, thorough_only=True), J("weights_asan", "apps2.cpp", ASAN + " -DAPP=2", budget={"quick": 45, "thorough": 300}, thorough_only=True), J("recursive_asan", "apps2.cpp", ASAN + " -DAPP=4", budget={"quick": 45, "thorough": 300}, thorough_only=True), J("augment_asan", "apps2.cpp", ASAN + " -DAPP=6", budget={"quick": 45, "thorough": 300}, thorough_only=True), J("decremental_asan", "apps2.cpp", ASAN + " -DAPP=7", budget={"quick": 45, "thorough": 300}, thorough_only=True), J("from_static_asan", "apps2.cpp", ASAN + " -DAPP=8", budget={"quick": 45, "thorough": 300}, thorough_only=True)], "the complete programs (their main, in a child process with a scratch directory): torus of 1-16 blocks with 1-12 vertices and 0-3 cut edges x all first 24 random choices; the other programs on all labelled graphs on 2-3 (weights 0..2) and 4 vertices (0,1,3), isomorphism classes on 5, 6 and sparse ones on 7 vertices, named graphs on 7 and 8 x option combinations x up to two deviating random choices among the first 10; graphs of more than 1000 vertices (star blocks joined by every labelled graph on 2-4 vertices) for mincut_recursive. Non-trivial: several blocks, edges, rounds or changes of the cut.")
check("C33", [K("seq", "mt.cpp", "", arg="inexact")], "the solver with inexact branching (-X) x all labelled graphs on 2-4 vertices (weights 0..2) x all terminal sets; isomorphism classes on 5 (0..2), 6 and 7 vertices, cycles, wheels, ladders, complete graphs and grids on 8-9 vertices with 3-4 terminals x removed terminal share {0.1, 0.5, 0, 1} x contraction depth 0-2 x branching factor 1-3 x both branching rules x queue orders and edge selection rules cycled; and the exact solver whose time limit has expired from the start. Two worker threads on 6 vertices with up to one preemption (two thorough). Compared with exhaustive assignment: the value is at least the optimum, the written solution is feasible and weighs exactly the reported value. Non-trivial: more than two terminals and a positive optimum.", CONC.replace("up to a preemption bound", "(here: one worker and the default schedule, two workers with at most one preemption)") + "; exhaustive bounded enumeration of inputs and configurations against brute force", CN + " " + MTN)
