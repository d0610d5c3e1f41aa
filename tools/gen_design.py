#!/usr/bin/env python3
"""Rewrites the per-property section of DESIGN.md (between the markers) from checks.py, properties.jsonl and the table below."""
import json, os
from checks import CHECKS
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {
"C01": ("brute force over all subsets (n <= 16), Stoer-Wagner beyond", "size-dependent code (bucket queue limits, contraction of more than 100 / 10000 vertices, VieCut's coarsening of large graphs) is reached by blow-ups whose minimum cut is that of the skeleton; 64 bit weights separately"),
"C02": ("as C01: value is the weight of some cut (set of all cut weights for small graphs), factor 2 for Matula, exact for VieCut without coarsening", "random choices of Karger-Stein and label propagation are enumerated, so termination is not left to luck"),
"C03": ("weight of the marked side is computed on a private copy of the input", "as C02, plus recursion and mapping through several contraction levels"),
"C04": ("all minimum cuts by brute force versus all cuts represented by the returned cactus, as sets of bit masks, both directions; every vertex in exactly one node", "graphs with many crossing minimum cuts (rings of clusters, double rings) force cycles and nested cycles"),
"C05": ("as C04", "the PARALLEL build selects other reductions; schedules of the same code on 2 threads"),
"C06": ("best balance / conductance over all minimum cuts by brute force", "cycles with pendants, nested rings decide between tree edges and cycle pairs"),
"C07": ("minimum cut of the current graph by brute force / Stoer-Wagner after every step", "histories revisit cached cacti, contract and re-expand cactus nodes; the maintained cactus is compared with all minimum cuts on up to 9 vertices"),
"C08": ("independent Edmonds-Karp on the same network", "all sources, terminal sets and limits"),
"C09": ("partition and direct summation of weights", "ALL partitions, so every overlap of neighbourhoods; sizes above the thresholds of the hash based path"),
"C10": ("every cut of the graph is tested against the merged blocks", "the bound is enumerated from 1 beyond the minimum, so both sides of every comparison in the rules are met"),
"C11": ("as C10 after every schedule", "preemption at every racy access of the scan and tests"),
"C12": ("linearizability by search over all sequential orders consistent with the history, plus final partition and set count", "small element counts suffice because an operation touches two parent chains"),
"C13": ("reference partition", "every sequence"),
"C14": ("reference multimap / list", "every sequence within the key range"),
"C15": ("reference multigraph with labelled vertices, compared after every operation (all queries, both directions of every edge)", "sequences, not single operations: stale positions only show later"),
"C16": ("field by field comparison", "graphs reached by operation sequences"),
"C17": ("exhaustive assignment of vertices to terminals", "terminal blocks, unused terminals, disconnected graphs; 12-vertex blow-ups branch several levels deep"),
"C18": ("optimum before = removed weight + optimum after (exhaustive assignment of the reduced problem); distinct terminals", "each reduction alone as well as all together, with weaker and stronger bounds than needed"),
"C19": ("reference multiset of problems; conservation, monotonicity", "threads add and take across every interleaving within the bound"),
"C20": ("stored solution's weight equals the bound equals the smallest value given", "all pairs of solutions in both orders"),
"C21": ("exhaustive assignment; all processes agree and stop", "termination protocol: every message order and interleaving within the delay bound"),
"C22": ("weight of the assignment before and after", "all feasible assignments, not only those the solver produces"),
"C23": ("the text is generated from the described graph", "grammar variations are enumerated"),
"C24": ("peeling, union-find and breadth-first references", "tables are static inside the library, so every routine is called twice"),
"C25": ("removal of each edge / vertex, exhaustive assignment for what is contracted", "terminal positions decide"),
"C26": ("field by field and optimum of both sides", "problems reached by sequences of solver steps, so stale fields exist"),
"C27": ("connected components, reference renumbering", "all shuffles and tie breaks within the deviation bound"),
"C28": ("list of edges", "every edge list, including isolated vertices in front, in the middle and at the end"),
"C29": ("direct recomputation of the degrees, distances and block structure", "every random draw within the deviation bound; ids out of range, repeated and unsorted lists"),
"C30": ("the mapping induces a partition; connectedness of its blocks, block sizes and all weights between blocks are recomputed", "the random matching / sampling decisions are enumerated instead of drawn"),
"C31": ("the same references as for the library properties, applied to the printed RESULT line and the re-read output files", "a program's `main` is run in-process on every combination of documented options, so wrong option handling (not reachable from library checks) is seen"),
"C32": ("own METIS reader, block weights of the torus, replay of the written history, brute-force minimum cut of every written graph, dynamic against static run under the same choices", "the random draws of the child process are choice points of the explorer: the first 10-24 are varied one or two at a time"),
"C33": ("exhaustive assignment of the vertices gives the optimum as lower bound; feasibility and weight of the written solution are recomputed", "heuristic branching changes the problem in place (terminals removed, vertices contracted); what it leaves behind depends on the incumbent, the branching rule and the options together"),
}
COST = {"C01": "2 min", "C02": "1 min", "C03": "2 min", "C04": "30 s", "C05": "40 s", "C06": "50 s", "C07": "40 s", "C08": "15 s", "C09": "40 s", "C10": "30 s", "C11": "90 s", "C12": "15 s", "C13": "5 s", "C14": "20 s", "C15": "10 s", "C16": "10 s", "C17": "1 min", "C18": "3.5 min", "C19": "30 s", "C20": "25 s", "C21": "3 min", "C22": "25 s", "C23": "20 s", "C24": "10 s", "C25": "10 s", "C26": "3 min", "C27": "45 s", "C28": "10 s", "C29": "15 s", "C30": "15 s", "C31": "80 s", "C32": "60 s", "C33": "150 s"}
out = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    out += ["### %s %s" % (i, p["title"]), "", "*Enumerated:* %s" % CHECKS[i]["rule"], "", "*Oracle:* %s. *Why it reaches further than tests:* %s. *Cost (quick, 8 cores):* about %s; thorough adds AddressSanitizer builds and deeper bounds (up to 25 min per job)." % (D[i][0], D[i][1], COST.get(i, "1 min")), ""]
f = os.path.join(R, "DESIGN.md"); s = open(f).read(); a, b = "<!-- properties -->\n", "<!-- /properties -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(out) + s[s.index(b):]
open(f, "w").write(s)
