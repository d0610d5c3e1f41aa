// Static graph queries (arg static), cores and components (arg cores), bridges and articulation points (arg bridges).
#include "vh.hpp"
#include "vc_build.hpp"
#include "algorithms/misc/core_decomposition.h"
#include "algorithms/misc/find_articulation_points.h"
#include "algorithms/misc/find_bridges.h"
#include "algorithms/misc/graph_algorithms.h"
#include "algorithms/misc/strongly_connected_components.h"
#include "tools/graph_extractor.h"
#include "io/graph_io.h"
typedef std::string Str; using std::to_string; static Str MODE;
typedef std::vector<std::tuple<NodeID, NodeID, EdgeWeight> > EL;
static Str q(const Str& f, uint64_t got, uint64_t want) { return f + " is " + to_string(got) + ", expected " + to_string(want); }
#define EQ(f, g, w) do { uint64_t g_ = (g), w_ = (w); if (g_ != w_) return q(f, g_, w_); } while (0)
// ---- static graph: edges in order of their source; self loops are dropped
static Str check_static(graph_access& G, int n, const EL& e, bool degrees) {
    EQ("n", G.n(), n); EQ("number_of_nodes", G.number_of_nodes(), n); EQ("m", G.m(), e.size()); EQ("number_of_edges", G.number_of_edges(), e.size()); int i = 0, c = 0; for (NodeID v : G.nodes()) EQ("node iterator", v, c++); EQ("nodes", c, n); c = 0; for (EdgeID x : G.edges()) EQ("edge iterator", x, c++); EQ("edges", c, e.size());
    uint64_t mu = 0, mx = 0, mn = ~0ull, tot = 0; std::vector<uint64_t> all;
    for (int v = 0; v < n; ++v) { uint64_t d = 0, k = 0, s = 0; int first = i; EQ("first edge of " + to_string(v), G.get_first_edge(v), i);
        for (EdgeID x : G.edges_of(v)) { if (i >= (int)e.size() || (int)std::get<0>(e[i]) != v) return "vertex " + to_string(v) + " has an edge it was not given"; EQ("edge id", x, i); EQ("target of edge " + to_string(x), G.getEdgeTarget(x), std::get<1>(e[i])); EQ("target", G.getEdgeTarget(v, x), std::get<1>(e[i])); EQ("weight of edge " + to_string(x), G.getEdgeWeight(x), std::get<2>(e[i])); EQ("weight", G.getEdgeWeight(v, x), std::get<2>(e[i]));
            EQ("source of edge " + to_string(x), G.getEdgeSource(x), v); if (G.getEdge(x) != std::make_pair(std::get<1>(e[i]), std::get<2>(e[i])) || G.getEdge(v, x) != G.getEdge(x)) return "getEdge";
            EdgeID r = G.find_reverse_edge(x); bool have = false; for (auto& [a, b, w] : e) have |= a == std::get<1>(e[i]) && (int)b == v; if (have ? (r >= e.size() || std::get<0>(e[r]) != std::get<1>(e[i]) || (int)std::get<1>(e[r]) != v) : r != (EdgeID)-1) return "reverse of edge " + to_string(x) + " is " + to_string(r);
            d += std::get<2>(e[i]); ++k; ++i; }
        if (i < (int)e.size() && (int)std::get<0>(e[i]) == v) return "vertex " + to_string(v) + " lost an edge"; EQ("first invalid edge of " + to_string(v), G.get_first_invalid_edge(v), i); EQ("unweighted degree of " + to_string(v), G.getUnweightedNodeDegree(v), k);
        for (int st = first; st <= i; ++st) { s = 0; for (EdgeID x : G.edges_of_starting_at(v, st)) { (void)x; ++s; } EQ("edges_of_starting_at", s, i - st); }
        if (degrees) EQ("weighted degree of " + to_string(v), G.getWeightedNodeDegree(v), d); mu = std::max(mu, k); mx = std::max(mx, d); mn = std::min(mn, d); tot += d; all.push_back(d); }
    EQ("maximum unweighted degree", G.getMaxUnweightedDegree(), mu); if (!degrees || !n) return "";
    for (int pass = 0; pass < 2; ++pass) { EQ("maximum degree", G.getMaxDegree(), mx); EQ("minimum degree", G.getMinDegree(), mn); EQ("sum of degrees", G.sumOfEdgeWeights(), tot); for (int v = 0; v < n; ++v) EQ("weighted degree of " + to_string(v), G.getWeightedNodeDegree(v), all[v]); G.computeDegrees(); }
    std::sort(all.begin(), all.end()); for (double p : { 0.0, 0.25, 0.5, 0.75, 0.99 }) EQ("percentile", G.getPercentile(p), all[(size_t)(all.size() * p)]); return "";
}
static Str run_static(std::istringstream& is) {
    int n, m; is >> n >> m; EL e, all; Str t; while (is >> t) { unsigned a, b; unsigned long long w; sscanf(t.c_str(), "%u,%u,%llu", &a, &b, &w); all.emplace_back(a, b, w); if (a != b) e.emplace_back(a, b, w); } vh::count(3, all.size()); if (e.size()) vh::count(1);
    auto G = std::make_shared<graph_access>(); G->start_construction(n, m); if (!G->currentlyBuildingGraph()) return "currentlyBuildingGraph"; size_t i = 0, k = 0; bool late = m & 1;    // late: set the weights after the edges were added
    for (int v = 0; v < n; ++v) { EQ("new_node", G->new_node(), v); for (; i < all.size() && (int)std::get<0>(all[i]) == v; ++i) { auto [a, b, w] = all[i]; if (late) { EdgeID x = G->new_edge(a, b); if (a != b) { EQ("id of new edge", x, k); k++; } } else { EdgeID x = G->new_edge(a, b, w); if (a != b) { EQ("id of new edge", x, k); k++; } } } }
    G->finish_construction(); if (G->currentlyBuildingGraph()) return "still building";
    if (late) { EL one = e; for (auto& x : one) std::get<2>(x) = 1; Str s = check_static(*G, n, one, false); if (!s.empty()) return "unit weights: " + s; for (size_t x = 0; x < e.size(); ++x) G->setEdgeWeight(x, std::get<2>(e[x])); }
    for (int v = 0; v < n; ++v) EQ("degree before computing degrees", G->getWeightedNodeDegree(v), [&] { uint64_t d = 0; for (auto& [a, b, w] : e) if ((int)a == v) d += w; return d; }());
    for (int v = 0; v < n; ++v) { G->setPartitionIndex(v, 7 * v + 1); G->setNodeInCut(v, v % 3 == 0); } G->set_partition_count(5);
    Str s = check_static(*G, n, e, true); if (!s.empty()) return s; for (int v = 0; v < n; ++v) { EQ("partition index", G->getPartitionIndex(v), 7 * v + 1); EQ("in cut", G->getNodeInCut(v), v % 3 == 0); } EQ("partition count", G->get_partition_count(), 5);
    { graph_access c = G->copy(); s = check_static(c, n, e, true); if (!s.empty()) return "copy: " + s; if (e.size()) { c.setEdgeWeight(0, 77); EQ("weight after changing the copy", G->getEdgeWeight(0), std::get<2>(e[0])); } }
    if (e.size()) { G->setEdgeWeight(e.size() - 1, 42); std::get<2>(e.back()) = 42; s = check_static(*G, n, e, false); if (!s.empty()) return "after changing a weight: " + s; }
    vh::outcome(vh::hash(to_string(n) + "/" + to_string(e.size()))); return "";
}
// ---- cores and components
static Str run_cores(std::istringstream& is) {
    Str s; is >> s; WG g = s.find("..") != Str::npos ? WG() : WG::parse(s); int n = g.n; auto G = build_static(g); vh::count(3, n); if (g.m()) vh::count(1);
    std::vector<int> core(n), alive(n, 1), deg(n); { int left = n, k = 0; while (left) { int best = -1; for (int v = 0; v < n; ++v) if (alive[v]) { deg[v] = 0; for (int u = 0; u < n; ++u) deg[v] += alive[u] && g.at(u, v); if (best < 0 || deg[v] < deg[best]) best = v; } k = std::max(k, deg[best]); core[best] = k; alive[best] = 0; --left; } }
    k_cores kc = core_decomposition::batagelj_zaversnik(G); int mx = 0; for (int v = 0; v < n; ++v) { EQ("core number of " + to_string(v), kc.degrees[v], core[v]); mx = std::max(mx, core[v]); }
    { std::vector<int> seen(n, 0); for (int i = 0; i < n; ++i) { NodeID v = kc.vertices[i]; if (v >= (NodeID)n || seen[v]++) return "vertex order is not a permutation"; EQ("position", kc.position[v], i); if (i && core[kc.vertices[i - 1]] > core[v]) return "vertices are not ordered by core"; } }
    auto comps = [&](const std::vector<int>& in) { std::vector<int> c(n, -1); int k = 0; for (int v = 0; v < n; ++v) if (in[v] && c[v] < 0) { std::vector<int> st = { v }; c[v] = k; while (st.size()) { int x = st.back(); st.pop_back(); for (int u = 0; u < n; ++u) if (in[u] && c[u] < 0 && g.at(x, u)) { c[u] = k; st.push_back(u); } } ++k; } return std::make_pair(c, k); };
    auto sub = [&](const std::vector<int>& c, int k) { std::vector<int> v; for (int i = 0; i < n; ++i) if (c[i] == k) v.push_back(i); WG r(v.size()); for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) r.set(i, j, g.at(v[i], v[j])); return r; };
    auto largest = [&](graphAccessPtr H, const std::vector<int>& in, const Str& what) -> Str { auto [c, k] = comps(in); size_t big = 0; for (int i = 0; i < k; ++i) big = std::max<size_t>(big, sub(c, i).n); Str err; WG h = view(H, &err); if (!err.empty()) return what + ": " + err; if ((size_t)h.n != big) return what + ": has " + to_string(h.n) + " vertices, expected " + to_string(big); for (int i = 0; i < k; ++i) { WG w = sub(c, i); if (w.n == h.n && w.w == h.w) { EQ(what + " edges", H->number_of_edges(), 2 * w.m()); return ""; } } return what + ": not a largest component"; };
    for (int k = 1; k <= mx; ++k) { std::vector<int> in(n); for (int v = 0; v < n; ++v) in[v] = core[v] >= k; Str e = largest(core_decomposition::createCoreGraph(kc, k, G), in, to_string(k) + "-core"); if (!e.empty()) return e; }
    std::vector<int> all(n, 1); auto [c, k] = comps(all);
    { strongly_connected_components scc; for (int rep = 0; rep < 2; ++rep) { std::vector<int> cn(n); size_t ct = scc.strong_components(G, &cn); EQ("number of components", ct, k); for (int i = 0; i < n; ++i) { if (cn[i] < 0 || cn[i] >= k) return "component id out of range"; for (int j = 0; j < n; ++j) if ((cn[i] == cn[j]) != (c[i] == c[j])) return "components of " + to_string(i) + " and " + to_string(j); } Str e = largest(scc.largest_scc(G), all, "largest component"); if (!e.empty()) return e; } }
    { auto M = build_mutable(g); strongly_connected_components scc; for (int rep = 0; rep < 2; ++rep) { auto [cn, ct, bs] = scc.strong_components(M); EQ("number of components (mutable)", ct, k); if (bs.size() != (size_t)k) return "number of component sizes"; std::vector<size_t> sz(k, 0); for (int i = 0; i < n; ++i) { if (cn[i] < 0 || cn[i] >= k) return "component id out of range"; sz[cn[i]]++; for (int j = 0; j < n; ++j) if ((cn[i] == cn[j]) != (c[i] == c[j])) return "components (mutable) of " + to_string(i) + " and " + to_string(j); } if (sz != bs) return "component sizes";
            graph_extractor ge; for (int b = 0; b < k; ++b) { auto [H, map, rev] = ge.extract_block(M, b, cn); Str err; WG h = view(H, &err); if (!err.empty()) return "extracted block: " + err; std::vector<int> in; for (int i = 0; i < n; ++i) if (cn[i] == b) in.push_back(i); if ((size_t)h.n != in.size() || map.size() != in.size()) return "extracted block has other vertices"; for (size_t i = 0; i < in.size(); ++i) { if (map[i] != (NodeID)in[i] || rev[in[i]] != i) return "mapping of the extracted block"; for (size_t j = 0; j < in.size(); ++j) if (h.at(i, j) != g.at(in[i], in[j])) return "extracted block has other edges"; } } } }
    // breadth-first distances and highest degrees
    { auto M = build_mutable(g); for (int st = 0; st < n && k == 1 && n > 1; ++st) { std::vector<int> d(n, -1); std::vector<int> qu = { st }; d[st] = 0; for (size_t i = 0; i < qu.size(); ++i) for (int u = 0; u < n; ++u) if (g.at(qu[i], u) && d[u] < 0) { d[u] = d[qu[i]] + 1; qu.push_back(u); } auto [par, dist, far] = graph_algorithms::bfsDistances(M, st); int md = *std::max_element(d.begin(), d.end()); for (int v = 0; v < n; ++v) { EQ("bfs distance of " + to_string(v), dist[v], d[v]); if (v != st && (par[v] >= (NodeID)n || !g.at(v, par[v]) || d[par[v]] + 1 != d[v])) return "bfs parent"; } if (far >= (NodeID)n || d[far] != md) return "bfsDistances: farthest vertex is not farthest"; }
      for (int t = 1; t <= n; ++t) for (int mode = 0; mode < 3; ++mode) { auto v = mode == 0 ? graph_algorithms::top_k_degrees(G, t) : mode == 1 ? graph_algorithms::top_k_degrees(M, t) : graph_algorithms::weighted_top_k_degrees(G, t); std::set<NodeID> sv(v.begin(), v.end()); if ((int)sv.size() != t) return "top_k_degrees returned duplicates"; auto D = [&](int x) { uint64_t s = 0; for (int u = 0; u < n; ++u) s += mode ? g.at(x, u) : g.at(x, u) > 0; return s; }; uint64_t lo = ~0ull; for (auto x : sv) lo = std::min(lo, D(x)); for (int x = 0; x < n; ++x) if (!sv.count(x) && D(x) > lo) return "top_k_degrees missed a vertex"; } }
    vh::outcome(vh::hash(to_string(mx) + "/" + to_string(k) + "/" + to_string(n))); return "";
}
// ---- bridges and articulation points
static uint64_t brute_multi(const WG& g, const std::vector<int>& term) { int n = g.n, k = term.size(); std::vector<int> a(n, -1), fr; for (int i = 0; i < k; ++i) a[term[i]] = i; for (int v = 0; v < n; ++v) if (a[v] < 0) fr.push_back(v); for (int v : fr) a[v] = 0; uint64_t best = ~0ull; while (true) { uint64_t s = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (a[i] != a[j]) s += g.at(i, j); best = std::min(best, s); size_t p = 0; while (p < fr.size() && ++a[fr[p]] == k) a[fr[p++]] = 0; if (p == fr.size()) return best; } }
static int ncomp(const WG& g, int skip, int su = -1, int sv = -1) { int n = g.n, k = 0; std::vector<int> c(n, 0); for (int v = 0; v < n; ++v) if (v != skip && !c[v]) { ++k; std::vector<int> st = { v }; c[v] = k; while (st.size()) { int x = st.back(); st.pop_back(); for (int u = 0; u < n; ++u) if (u != skip && !c[u] && g.at(x, u) && !((x == su && u == sv) || (x == sv && u == su))) { c[u] = k; st.push_back(u); } } } return k; }
static Str merged_ok(const WG& g, union_find& uf, const std::vector<int>& term, bool must) {
    int n = g.n; std::vector<int> rep(n), id(n, -1); int k = 0; for (int i = 0; i < n; ++i) rep[i] = uf.Find(i); for (int i = 0; i < n; ++i) { if (id[rep[i]] < 0) id[rep[i]] = k++; } if (must && k == n) return "reports a contraction but merges nothing";
    for (size_t i = 0; i < term.size(); ++i) for (size_t j = 0; j < i; ++j) if (rep[term[i]] == rep[term[j]]) return "terminals " + to_string(term[i]) + " and " + to_string(term[j]) + " are merged";
    WG h(k); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (id[rep[i]] != id[rep[j]]) h.add(id[rep[i]], id[rep[j]], g.at(i, j)); std::vector<int> t; for (int x : term) t.push_back(id[rep[x]]);
    uint64_t a = brute_multi(g, term), b = brute_multi(h, t); if (a != b) return "contraction changes the optimum from " + to_string(a) + " to " + to_string(b); return "";
}
static Str run_bridges(std::istringstream& is) {
    Str s, t; is >> s >> t; WG g = WG::parse(s); int n = g.n; std::vector<int> term; { std::istringstream q(t); Str x; while (std::getline(q, x, ',')) term.push_back(atoi(x.c_str())); } auto M = build_mutable(g); std::vector<terminal> ts; for (size_t i = 0; i < term.size(); ++i) ts.emplace_back(term[i], i, true); vh::count(3, 2);
    int base = ncomp(g, -1); std::set<std::pair<int, int> > br; std::set<int> ap; for (int i = 0; i < n; ++i) { bool iso = true; for (int j = 0; j < n; ++j) { if (g.at(i, j)) iso = false; if (i < j && g.at(i, j) && ncomp(g, -1, i, j) > base) br.insert({ i, j }); } if (!iso && ncomp(g, i) > base) ap.insert(i); } if (br.size() + ap.size()) vh::count(1);
    find_bridges fb(M); bool hb = fb.findAllBridges(); if (hb != !br.empty()) return Str("findAllBridges reports ") + (hb ? "a bridge" : "no bridge") + ", the graph has " + to_string(br.size());
    auto sides = [&](std::pair<int, int> b) { std::vector<int> in(n, 0), st = { b.first }; in[b.first] = 1; while (st.size()) { int x = st.back(); st.pop_back(); for (int u = 0; u < n; ++u) if (!in[u] && g.at(x, u) && !(x == b.first && u == b.second)) { in[u] = 1; st.push_back(u); } } return in; };
    bool useless = false; for (auto& b : br) { auto in = sides(b); int l = 0, r = 0; auto o = sides({ b.second, b.first }); for (int x : term) { l += in[x]; r += o[x]; } if (base == 1 && (!l || !r)) useless = true; }
    if (hb) { auto v = fb.terminalsOnBothSides(ts); if (v.index() == 0) { union_find uf = std::get<0>(v); if (!useless && base == 1) return "contracts although every bridge separates terminals"; Str e = merged_ok(g, uf, term, true); if (!e.empty()) return "bridges: " + e; }
        else { if (useless) return "a bridge with no terminal on one side is not contracted"; auto [a, e] = std::get<1>(v); if (a >= (NodeID)n || e >= M->getUnweightedNodeDegree(a)) return "returned edge does not exist"; int b = M->getEdgeTarget(a, e); if (!br.count({ std::min<int>(a, b), std::max<int>(a, b) })) return "returned edge is no bridge"; } }
    find_articulation_points fa(M); bool ha = fa.findAllArticulationPoints(); std::set<int> nonroot; for (int v : ap) { bool first = true; for (int u = 0; u < v; ++u) { WG h = g; std::vector<int> c(n, 0), st = { v }; c[v] = 1; while (st.size()) { int x = st.back(); st.pop_back(); for (int y = 0; y < n; ++y) if (!c[y] && g.at(x, y)) { c[y] = 1; st.push_back(y); } } if (c[u]) first = false; } if (!first) nonroot.insert(v); }
    if (ha && ap.empty()) return "reports an articulation point, the graph has none"; if (!ha && !nonroot.empty()) return "misses articulation point " + to_string(*nonroot.begin());
    if (ha) { auto u = fa.terminalsOnBothSides(ts); if (u) { Str e = merged_ok(g, *u, term, false); if (!e.empty()) return "articulation points: " + e; } 
        // an articulation point (not a search root) with all terminals in it and one component: something has to be merged
        if (base == 1 && !u) for (int v : nonroot) { std::vector<int> c(n, -1); int k = 0; for (int x = 0; x < n; ++x) if (x != v && c[x] < 0) { std::vector<int> st = { x }; c[x] = k; while (st.size()) { int z = st.back(); st.pop_back(); for (int y = 0; y < n; ++y) if (y != v && c[y] < 0 && g.at(z, y)) { c[y] = k; st.push_back(y); } } ++k; } std::set<int> tc; bool onv = false; for (int x : term) { if (x == v) onv = true; else tc.insert(c[x]); } if (!onv && tc.size() == 1 && k == 2) return "articulation point " + to_string(v) + " with a side without terminals is not contracted"; } }
    vh::outcome(vh::hash(to_string(br.size()) + "/" + to_string(ap.size()) + "/" + to_string(n))); return "";
}
static Str run(const Str& spec) { vh::count(0); std::istringstream is(spec); return MODE == "static" ? run_static(is) : MODE == "cores" ? run_cores(is) : run_bridges(is); }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough";
    if (MODE == "static") {
        // every directed multigraph structure: all subsets of ordered pairs (with self loops) on 1-3 vertices, all symmetric ones on 4 and 5
        for (int n = 0; n <= 3; ++n) { int p = n * n; for (int late = 0; late < 2; ++late) for (int m = 0; m < 1 << p; ++m) { std::ostringstream s; s << n << ' ' << 2 * __builtin_popcount(m) + late; for (int i = 0; i < p; ++i) if (m >> i & 1) s << ' ' << i / n << ',' << i % n << ',' << 1 + i % 3; if (!emit(s.str())) return; } }
        for (int n = 4; n <= (th ? 6 : 5); ++n) for (auto& g : n < 6 ? std::vector<WG>() : iso_classes(6, 2)) for (auto& p : labelings(n, 4)) { WG h = g.perm(p); std::ostringstream s; s << n << ' ' << 2 * h.m(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (h.at(i, j)) s << ' ' << i << ',' << j << ",4294967297"; if (!emit(s.str())) return; }
        for (int n : { 4, 5 }) all_labelled(n, { 0, 1 }, [&](const WG& g) { for (int v = 0; v < 2; ++v) { std::ostringstream s; s << n << ' ' << 2 * g.m() + v; for (int i = 0; i < n; ++i) for (int j = n; j-- > 0; ) if (g.at(i, j)) { s << ' ' << i << ',' << j << ',' << (v ? 4294967297ull : 1ull) * (i + j); if (v && (i + j) % 3 == 0) s << ' ' << i << ',' << j << ',' << 9; } if (!emit(s.str())) return false; } return true; });
        for (int n : { 6, 30 }) for (int a = 0; a < n; a += 3) for (int b = a + 1; b < n; b += 2) { std::ostringstream s; s << n << " 2 " << a << ',' << b << ",5 " << b << ',' << a << ",5"; if (!emit(s.str())) return; }   // long runs of isolated vertices
        return; }
    if (MODE == "cores") {
        auto go = [&](const WG& g) { return emit(g.str()); }; for (int n = 1; n <= 3; ++n) all_labelled(n, { 0, 1, 2, 5 }, go); all_labelled(4, { 0, 1, 3 }, go); all_labelled(5, { 0, 1 }, go); for (int n : { 6, 7 }) for (auto& g : iso_classes(n, 2)) for (auto& p : labelings(n, th ? 24 : 6)) if (!go(g.perm(p))) return; if (th) for (auto& g : iso_classes(8, 2)) for (auto& p : labelings(8, 3)) if (!go(g.perm(p))) return;
        for (auto& g : iso_classes(5, 3)) if (!go(g)) return; return; }
    auto go = [&](const WG& g) { for (int k = 1; k <= std::min(4, g.n); ++k) for (int m = 1; m < 1 << g.n; ++m) if (__builtin_popcount(m) == k) { Str s = g.str() + " "; bool f = true; for (int i = 0; i < g.n; ++i) if (m >> i & 1) { s += (f ? "" : ",") + to_string(i); f = false; } if (!emit(s)) return false; } return true; };
    for (int n = 2; n <= 4; ++n) all_labelled(n, { 0, 1, 2 }, go); all_labelled(5, { 0, 1 }, go); for (auto& g : iso_classes(6, 2)) for (auto& p : labelings(6, th ? 24 : 6)) { WG h = g.perm(p); int c = 0; for (auto& x : h.w) if (x) x += c++ % 3; if (!go(h)) return; }
    for (auto& g : iso_classes(7, 2)) if (g.m() <= (th ? 21 : 10)) for (auto& p : labelings(7, th ? 6 : 2)) if (!go(g.perm(p))) return;
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[3] = "transitions"; for (int i = 1; i + 1 < c; ++i) if (Str(v[i]) == "--arg") MODE = v[i + 1]; return vh::main_(c, v, enumerate, run); }
