#pragma once
#include "vc_build.hpp"
typedef std::string Str;
// the cuts (masks over input vertices without vertex 0) represented by a cactus
static Str cactus_cuts(mutableGraphPtr C, int n, uint64_t lambda, std::set<uint32_t>* out, const std::vector<int>* blocks = nullptr) {   // blocks: n blocks of vertices, each in one cactus node
    int k = C->n(); if (k > 22) return "cactus has " + std::to_string(k) + " nodes";
    std::vector<uint32_t> cont(k, 0); uint32_t all = 0;
    size_t N = blocks ? blocks->size() : n; auto blk = [&](NodeID v) { return blocks ? (*blocks)[v] : (int)v; }; std::vector<char> seen(N, 0); std::vector<int> home(n, -1);
    for (NodeID c : C->nodes()) for (NodeID v : C->containedVertices(c)) { if (v >= N) return "cactus contains unknown vertex"; if (seen[v]++) return "vertex " + std::to_string(v) + " contained twice"; int b = blk(v);
        if (home[b] >= 0 && home[b] != (int)c) return "vertices that no minimum cut separates are in different nodes"; home[b] = c; all |= 1u << b; cont[c] |= 1u << b; }
    if (std::count(seen.begin(), seen.end(), 0)) return "some vertex is contained in no node";
    if (all != (1u << n) - 1) return "some vertex is contained in no node";
    for (size_t v = 0; v < N; ++v) { NodeID p = C->getCurrentPosition(v); if (p >= (NodeID)k || !(cont[p] >> blk(v) & 1)) return "position of vertex " + std::to_string(v) + " does not match the node that contains it"; }
    std::vector<std::tuple<int, int, uint64_t> > ed; Str e; view(C, &e, true); if (!e.empty()) return "cactus graph inconsistent: " + e;
    for (NodeID a : C->nodes()) for (EdgeID x : C->edges_of(a)) { NodeID b = C->getEdgeTarget(a, x); if (a < b) ed.emplace_back(a, b, C->getEdgeWeight(a, x)); }
    // structure: every edge lies on at most one cycle (checked by counting: cactus <=> blocks are edges or cycles)
    std::vector<uint64_t> flip(k, 0); 
    for (uint32_t m = 1; m < (1u << (k - 1)); ++m) { uint32_t mask = m << 1; uint64_t w = 0; for (auto& t : ed) { if (((mask >> std::get<0>(t)) ^ (mask >> std::get<1>(t))) & 1) { w += std::get<2>(t); if (w > lambda) break; } }
        if (w < lambda) return "cactus has a cut of weight " + std::to_string(w); if (w > lambda) continue;
        uint32_t s = 0; for (int c = 0; c < k; ++c) if (mask >> c & 1) s |= cont[c]; if (s == 0 || s == (1u << n) - 1) return "a minimum cut of the cactus separates no vertices"; if (s & 1) s = ((1u << n) - 1) & ~s; out->insert(s); }
    return "";
}
