// Builders of the library's graph types from WG (uses only the public construction interface).
#pragma once
#include "graphs.hpp"
#include "data_structure/graph_access.h"
#include "data_structure/mutable_graph.h"
#include "common/configuration.h"
inline graphAccessPtr build_static(const WG& g) {
    auto G = std::make_shared<graph_access>(); EdgeID m = 0; for (auto x : g.w) m += x ? 2 : 0;
    G->start_construction(g.n, m);
    for (int i = 0; i < g.n; ++i) { NodeID v = G->new_node(); G->setPartitionIndex(v, 0); for (int j = 0; j < g.n; ++j) if (j != i && g.at(i, j)) { EdgeID e = G->new_edge(v, j); G->setEdgeWeight(e, g.at(i, j)); } }
    G->finish_construction(); G->computeDegrees(); return G;
}
inline mutableGraphPtr build_mutable(const WG& g) {
    auto G = std::make_shared<mutable_graph>(); G->start_construction(g.n);
    for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (g.at(i, j)) G->new_edge(i, j, g.at(i, j));
    G->finish_construction(); return G;
}
template <class P> struct builder;
template <> struct builder<graphAccessPtr> { static graphAccessPtr make(const WG& g) { return build_static(g); } };
template <> struct builder<mutableGraphPtr> { static mutableGraphPtr make(const WG& g) { return build_mutable(g); } };
inline graphAccessPtr build_static(const EG& g) {
    auto G = std::make_shared<graph_access>(); G->start_construction(g.n, g.e.size() * 2); std::vector<std::vector<std::pair<int, uint64_t> > > a(g.n);
    for (auto& t : g.e) { a[std::get<0>(t)].push_back({ std::get<1>(t), std::get<2>(t) }); a[std::get<1>(t)].push_back({ std::get<0>(t), std::get<2>(t) }); }
    for (int i = 0; i < g.n; ++i) { NodeID v = G->new_node(); G->setPartitionIndex(v, 0); for (auto& q : a[i]) { EdgeID e = G->new_edge(v, q.first); G->setEdgeWeight(e, q.second); } }
    G->finish_construction(); G->computeDegrees(); return G;
}
inline mutableGraphPtr build_mutable(const EG& g) {
    auto G = std::make_shared<mutable_graph>(); G->start_construction(g.n); for (auto& t : g.e) G->new_edge_order(std::get<0>(t), std::get<1>(t), std::get<2>(t)); G->finish_construction(); return G;
}
template <class P> struct ebuilder;
template <> struct ebuilder<graphAccessPtr> { static graphAccessPtr make(const EG& g) { return build_static(g); } };
template <> struct ebuilder<mutableGraphPtr> { static mutableGraphPtr make(const EG& g) { return build_mutable(g); } };
// Reference view of a library graph: adjacency sums (parallel edges summed).
inline WG view(graphAccessPtr G, std::string* err) {
    int n = G->number_of_nodes(); WG a(n); std::vector<std::vector<uint64_t> > d(n, std::vector<uint64_t>(n, 0));
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) { NodeID t = G->getEdgeTarget(e); if (t >= (NodeID)n) { if (err) *err = "edge target out of range"; return a; } if (t != v) d[v][t] += G->getEdgeWeight(e); }
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { if (d[i][j] != d[j][i] && err) *err = "asymmetric edge weights"; a.set(i, j, d[i][j]); } return a;
}
inline WG view(mutableGraphPtr G, std::string* err, bool multi = false) {
    int n = G->number_of_nodes(); WG a(n); std::vector<std::vector<uint64_t> > d(n, std::vector<uint64_t>(n, 0)); uint64_t m = 0;
    for (NodeID v : G->nodes()) {
        uint64_t deg = 0;
        for (EdgeID e : G->edges_of(v)) {
            ++m; NodeID t = G->getEdgeTarget(v, e); if (t >= (NodeID)n) { if (err) *err = "edge target out of range"; return a; }
            if (t == v) { if (err) *err = "self loop"; continue; }
            EdgeID r = G->getReverseEdge(v, e);
            if (r >= G->get_first_invalid_edge(t) || G->getEdgeTarget(t, r) != v || G->getReverseEdge(t, r) != e || G->getEdgeWeight(t, r) != G->getEdgeWeight(v, e)) { if (err) *err = "reverse edge inconsistent at vertex " + std::to_string(v); return a; }
            if (d[v][t] && !multi && err) *err = "parallel edge";
            d[v][t] += G->getEdgeWeight(v, e); deg += G->getEdgeWeight(v, e);
        }
        if (deg != G->getWeightedNodeDegree(v) && err) *err = "weighted degree wrong at vertex " + std::to_string(v);
    }
    if (m != G->number_of_edges() && err) *err = "edge count wrong: " + std::to_string(G->number_of_edges()) + " recorded, " + std::to_string(m) + " present";
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { if (d[i][j] != d[j][i] && err) *err = "asymmetric"; a.set(i, j, d[i][j]); } return a;
}
// reset every configuration field the checks vary
inline void reset_config() {
    auto c = configuration::getConfig();
    c->graph_filename = ""; c->partition_file = ""; c->output_path = ""; c->seed = 0; c->verbose = false; c->edge_selection = "heavy_vertex"; c->queue_type = "bound_sum"; c->term_strings.clear();
    c->top_k = 0; c->random_k = 0; c->bfs_size = 0; c->threads = 1; c->preset_percentage = 0; c->print_cc = 0; c->num_terminals = 0; c->disable_cpu_affinity = true; c->high_distance_factor = 0.9; c->high_distance_flows = 5;
    c->distant_terminals = 0; c->first_branch_path = ""; c->write_solution = false; c->neighborhood_degrees = 50; c->random_flows = 5; c->removeTerminalsBeforeBranch = 0.1; c->contractionDepthAroundTerminal = 1; c->maximumBranchingFactor = 5;
    c->multibranch = true; c->inexact = false; c->runLocalSearch = true; c->timeoutSeconds = 600; c->save_cut = false; c->algorithm = ""; c->sampling_type = "geometric"; c->pq = "default"; c->num_iterations = 1; c->disable_limiting = false;
    c->contraction_factor = 0.0; c->find_most_balanced_cut = false; c->find_lowest_conductance = false; c->blacklist = true; c->set_node_in_cut = false; c->cactus_filename = ""; c->depthOfPartialRelabeling = 1; c->optimal = 0; c->use_ilp = false;
}
