// Mutable graph: every operation sequence up to a depth against a plain weighted multigraph over blocks of original vertices;
// copies, conversions and serialisation in every reached state (arg "copy").
#include "vh.hpp"
#include "vc_build.hpp"
#include "data_structure/mutable_graph.h"
#include "data_structure/graph_access.h"
typedef std::string Str; using std::to_string; static Str MODE; static uint64_t steps = 0, copies = 0;
struct Ref {
    std::map<int, std::set<NodeID> > blk;                 // block id -> original vertices
    std::map<std::pair<int, int>, uint64_t> w;            // total weight between blocks
    std::map<std::pair<int, int>, int> mult;              // number of edges, where it is determined
    std::map<int, PartitionID> part; std::map<int, bool> cut; bool deleted = false, merged = false; int next = 0;
    static std::pair<int, int> k(int a, int b) { return { std::min(a, b), std::max(a, b) }; }
    void contract(const std::set<int>& s) {
        int a = *s.begin(); std::map<std::pair<int, int>, uint64_t> nw; merged = true; mult.clear();
        for (auto& p : w) { int x = s.count(p.first.first) ? a : p.first.first, y = s.count(p.first.second) ? a : p.first.second; if (x != y) nw[k(x, y)] += p.second; }
        w = nw; for (int b : s) { if (b != a) { blk[a].insert(blk[b].begin(), blk[b].end()); blk.erase(b); part.erase(b); cut.erase(b); } } part.erase(a); cut.erase(a);
    }
    void remove(int b) { deleted = true; for (auto it = w.begin(); it != w.end(); ) if (it->first.first == b || it->first.second == b) it = w.erase(it); else ++it; for (auto it = mult.begin(); it != mult.end(); ) if (it->first.first == b || it->first.second == b) it = mult.erase(it); else ++it; blk.erase(b); part.erase(b); cut.erase(b); }
};
// maps current vertices to blocks, "" if fine
static Str ids(mutable_graph& G, const Ref& r, std::vector<int>* id, bool positions = true) {
    int n = G.n(); if ((int)r.blk.size() != n) return "graph has " + to_string(n) + " vertices, expected " + to_string(r.blk.size()); id->assign(n, -1); std::set<int> used;
    for (int v = 0; v < n; ++v) { auto c = G.containedVertices(v); std::set<NodeID> s(c.begin(), c.end()); if (s.size() != c.size()) return "an original vertex is listed twice in vertex " + to_string(v); if (G.numContainedVertices(v) != c.size() || G.isEmpty(v) != c.empty()) return "numContainedVertices or isEmpty is wrong";
        for (auto& b : r.blk) if (b.second == s) (*id)[v] = b.first; if ((*id)[v] < 0) { Str t; for (auto x : s) t += to_string(x) + " "; return "vertex " + to_string(v) + " contains { " + t + "}, which is not a block"; } if (!used.insert((*id)[v]).second) return "two vertices contain the same originals";
        if (positions) for (NodeID x : s) if (G.getCurrentPosition(x) != (NodeID)v) return "position of original " + to_string(x) + " is " + to_string(G.getCurrentPosition(x)) + ", it is contained in " + to_string(v); }
    return "";
}
static Str check(mutable_graph& G, const Ref& r, bool attr = true) {
    std::vector<int> id; Str e = ids(G, r, &id); if (!e.empty()) return e; int n = G.n(); std::map<std::pair<int, int>, uint64_t> w; std::map<std::pair<int, int>, int> mult; uint64_t m = 0, tot = 0, mx = 0, mn = ~0ull, mu = 0;
    for (int v = 0; v < n; ++v) { uint64_t deg = 0; if (G.get_first_edge(v) != 0) return "first edge"; EdgeID k = G.get_first_invalid_edge(v); if (G.getUnweightedNodeDegree(v) != k) return "unweighted degree"; mu = std::max<uint64_t>(mu, k);
        for (EdgeID i = 0; i < k; ++i) { NodeID t = G.getEdgeTarget(v, i); if (t >= (NodeID)n) return "edge " + to_string(i) + " of " + to_string(v) + " points outside the graph"; if (t == (NodeID)v) return "self loop at " + to_string(v); EdgeID q = G.getReverseEdge(v, i);
            if (q >= G.get_first_invalid_edge(t)) return "reverse of edge " + to_string(i) + " of " + to_string(v) + " does not exist"; if (G.getEdgeTarget(t, q) != (NodeID)v || G.getReverseEdge(t, q) != i) return "reverse of edge " + to_string(i) + " of " + to_string(v) + " is another edge"; if (G.getEdgeWeight(t, q) != G.getEdgeWeight(v, i)) return "edge and reverse edge have different weights"; if (G.getEdgeSource(v, i) != (NodeID)v) return "edge source";
            auto ed = G.getEdge(v, i); if (ed.first != t || ed.second != G.getEdgeWeight(v, i)) return "getEdge"; deg += ed.second; ++m; if ((NodeID)v < t) { w[Ref::k(id[v], id[t])] += ed.second; mult[Ref::k(id[v], id[t])]++; } }
        if (deg != G.getWeightedNodeDegree(v)) return "degree of " + to_string(v) + " is " + to_string(G.getWeightedNodeDegree(v)) + ", its edges weigh " + to_string(deg); tot += deg; mx = std::max(mx, deg); mn = std::min(mn, deg);
        if (attr) { auto p = r.part.find(id[v]); if (p != r.part.end() && G.getPartitionIndex(v) != p->second) return "vertex " + to_string(v) + " lost its partition index"; auto c = r.cut.find(id[v]); if (c != r.cut.end() && G.getNodeInCut(v) != c->second) return "vertex " + to_string(v) + " lost its cut side"; } }
    if (m != G.m() || G.number_of_edges() != m) return "edge count is " + to_string(G.m()) + ", there are " + to_string(m); if (G.sumOfEdgeWeights() != tot) return "sum of edge weights"; if (n && (G.getMaxDegree() != mx || G.getMinDegree() != mn || G.getMaxUnweightedDegree() != mu)) return "minimum or maximum degree";
    auto clean = [](std::map<std::pair<int, int>, uint64_t> x) { for (auto it = x.begin(); it != x.end(); ) if (!it->second) it = x.erase(it); else ++it; return x; };
    if (clean(w) != clean(r.w)) return "weights between vertices differ from the reference"; if (!r.merged && mult != r.mult) return "number of parallel edges differs from the reference"; return "";
}
static Str copy_checks(mutable_graph& G, const Ref& r) {
    copies++; Str e; { mutable_graph c(G); e = check(c, r); if (!e.empty()) return "copy: " + e; if (c.getOriginalNodes() != G.getOriginalNodes() || c.get_partition_count() != G.get_partition_count()) return "copy: counts differ"; mutable_graph d(c); if (d.n() > 1) { d.contractVertexSet({ 0, 1 }); for (NodeID v : d.nodes()) if (d.getUnweightedNodeDegree(v)) { d.deleteEdge(v, 0); break; } } e = check(c, r); if (!e.empty()) return "copy changed with its copy: " + e; }
    auto tot = [&](std::vector<std::tuple<NodeID, NodeID, EdgeWeight> > v) { std::map<std::pair<NodeID, NodeID>, std::multiset<EdgeWeight> > s; for (auto& [a, b, w] : v) s[{ a, b }].insert(w); return s; };
    auto edges = [&](mutable_graph& g) { std::vector<std::tuple<NodeID, NodeID, EdgeWeight> > v; for (NodeID a : g.nodes()) for (EdgeID x : g.edges_of(a)) v.emplace_back(a, g.getEdgeTarget(a, x), g.getEdgeWeight(a, x)); return v; };
    auto mine = tot(edges(G)); auto S = G.to_graph_access(); if (S->number_of_nodes() != G.n() || S->number_of_edges() != G.m()) return "to_graph_access: counts differ"; std::vector<std::tuple<NodeID, NodeID, EdgeWeight> > se; for (NodeID a : S->nodes()) { if (S->getWeightedNodeDegree(a) != G.getWeightedNodeDegree(a)) return "to_graph_access: degrees differ"; for (EdgeID x : S->edges_of(a)) se.emplace_back(a, S->getEdgeTarget(x), S->getEdgeWeight(x)); } if (tot(se) != mine) return "to_graph_access: edges differ";
    auto sums = [&](mutable_graph& g) { std::map<std::pair<NodeID, NodeID>, EdgeWeight> s; for (auto& [a, b, w] : edges(g)) s[{ a, b }] += w; return s; };
    auto B = mutable_graph::from_graph_access(S); if (B->n() != G.n()) return "from_graph_access: vertices differ"; if (sums(*B) != sums(G)) return "from_graph_access: edges differ"; { Ref q; for (NodeID v : B->nodes()) { q.blk[v] = { v }; } for (auto& [a, b, w] : edges(*B)) if (a < b) { q.w[{ (int)a, (int)b }] += w; } q.merged = true; e = check(*B, q); if (!e.empty()) return "from_graph_access: " + e; }
    { auto M = G.simplify(); if (M->n() != G.n() || M->m() != G.m() || tot(edges(*M)) != mine) return "simplify: graph differs"; for (NodeID v : G.nodes()) if (M->getPartitionIndex(v) != G.getPartitionIndex(v) || M->getWeightedNodeDegree(v) != G.getWeightedNodeDegree(v)) return "simplify: vertex attributes differ"; }
    if (!r.deleted) { auto ser = G.serialize(); auto D = mutable_graph::deserialize(ser); if (D->n() != G.n() || D->m() != G.m()) return "deserialised graph has " + to_string(D->n()) + " vertices and " + to_string(D->m()) + " edges, original " + to_string(G.n()) + " and " + to_string(G.m()); if (tot(edges(*D)) != mine) return "deserialised graph has other edges"; Ref q = r; q.cut.clear(); e = check(*D, q); if (!e.empty()) return "deserialised graph: " + e;
        for (NodeID v : G.nodes()) if (D->getPartitionIndex(v) != G.getPartitionIndex(v) || D->containedVertices(v).size() != G.containedVertices(v).size()) return "deserialised vertex differs"; for (NodeID x = 0; x < G.getOriginalNodes(); ++x) if (D->getCurrentPosition(x) != G.getCurrentPosition(x)) return "deserialised position of an original vertex differs"; if (D->getOriginalNodes() != G.getOriginalNodes() || D->get_partition_count() != G.get_partition_count() || D->getLastNode() != G.getLastNode()) return "deserialised counts differ"; }
    return "";
}
static Str apply(mutable_graph& G, Ref& r, const Str& op) {
    int a = 0, b = 0; unsigned long long c = 0; sscanf(op.c_str() + 1, "%d,%d,%llu", &a, &b, &c); std::vector<int> id; Str e = ids(G, r, &id); if (!e.empty()) return e; ++steps;
    auto tgt = [&]() { return (int)G.getEdgeTarget(a, b); };
    switch (op[0]) {
    case 'a': G.new_edge_order(a, b, c); r.w[Ref::k(id[a], id[b])] += c; r.mult[Ref::k(id[a], id[b])]++; break;
    case 'd': { int t = tgt(); auto k = Ref::k(id[a], id[t]); r.w[k] -= G.getEdgeWeight(a, b); if (--r.mult[k] == 0) r.mult.erase(k); G.deleteEdge(a, b); break; }
    case 'w': { auto k = Ref::k(id[a], id[tgt()]); r.w[k] += c - G.getEdgeWeight(a, b); G.setEdgeWeight(a, b, c); break; }
    case 'c': { std::set<int> s = { id[a], id[tgt()] }; G.contractEdge(a, b); r.contract(s); break; }
    case 's': { std::set<int> s = { id[a], id[tgt()] }; G.contractEdgeSparseTarget(a, b); r.contract(s); break; }
    case 'n': G.contractSparseTargetNoEdge(a, b); r.contract({ id[a], id[b] }); break;
    case 'v': { std::unordered_set<NodeID> s; std::set<int> t; for (NodeID i : G.nodes()) if (a >> i & 1) { s.insert(i); t.insert(id[i]); } G.contractVertexSet(s); r.contract(t); break; }
    case 'x': G.deleteVertex(a); r.remove(id[a]); break;
    case 'N': { NodeID before = G.n(); if (G.new_node() != before) return "new vertex has another id"; r.blk[r.next++] = { before }; break; }
    case 'e': { int before = G.n(); if (G.new_empty_node() != (NodeID)before) return "new vertex has another id"; r.blk[r.next++] = {}; break; }
    }
    return check(G, r);
}
static std::vector<Str> ops(mutable_graph& G, const Ref& r, bool multi) {
    std::vector<Str> o; int n = G.n(); std::set<std::pair<int, int> > adj; for (NodeID v : G.nodes()) for (EdgeID e : G.edges_of(v)) adj.insert({ (int)v, (int)G.getEdgeTarget(v, e) });
    for (NodeID v : G.nodes()) for (EdgeID e : G.edges_of(v)) { Str s = to_string(v) + "," + to_string(e); o.push_back("c" + s); o.push_back("s" + s); o.push_back("d" + s); o.push_back("w" + s + ",5"); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && !adj.count({ i, j })) o.push_back("n" + to_string(i) + "," + to_string(j));
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (multi || !adj.count({ i, j })) o.push_back((i + j) % 2 ? "a" + to_string(i) + "," + to_string(j) + ",2" : "a" + to_string(j) + "," + to_string(i) + ",2");
    for (int m = 1; m < 1 << n; ++m) if (__builtin_popcount(m) > 1) o.push_back("v" + to_string(m));
    for (int i = 0; i < n; ++i) o.push_back("x" + to_string(i)); bool empty = false; for (auto& b : r.blk) empty |= b.second.empty(); if (!empty) o.push_back("e"); if (!r.merged && !r.deleted && !empty) o.push_back("N"); return o;
}
static bool skip(const Str& op) { return MODE == "copy" && (op[0] == 'x' || op[0] == 'e' || op[0] == 'N'); }
static Str dfs(mutable_graph& G, const Ref& r, int depth, bool multi, const Str& path) {
    if (MODE == "copy") { Str e = copy_checks(G, r); if (!e.empty()) return "after" + path + ": " + e; }
    if (!depth) { vh::outcome(vh::hash(path.size() > 3 ? path.substr(0, 12) : path) + G.n() * 31 + G.m()); return ""; }
    for (auto& op : ops(G, r, multi)) { if (skip(op)) continue; mutable_graph c(G); Ref s = r; Str p = path + " " + op, e = apply(c, s, op); if (!e.empty()) return "after" + p + ": " + e; e = dfs(c, s, depth - 1, multi, p); if (!e.empty()) return e; }
    return "";
}
// spec: graph depth multi | ops
static Str run(const Str& spec) {
    std::istringstream is(spec); Str g, t, path; int d, m; is >> g >> d >> m >> t; WG wg = isdigit(g[0]) ? WG::parse(g) : named(g.substr(0, g.find('-')), atoi(g.c_str() + g.find('-') + 1), 1); mutable_graph G; G.start_construction(wg.n); Ref r; r.next = wg.n;
    for (int i = 0; i < wg.n; ++i) { r.blk[i] = { (NodeID)i }; G.setPartitionIndex(i, i + 3); G.setNodeInCut(i, i % 2); r.part[i] = i + 3; r.cut[i] = i % 2; } G.set_partition_count(7);
    for (int i = 0; i < wg.n; ++i) { G.new_node(); for (int j = 0; j < wg.n; ++j) if (wg.at(i, j)) { G.new_edge(i, j, wg.at(i, j)); if (i < j) { r.w[{ i, j }] = wg.at(i, j); r.mult[{ i, j }] = 1; } } } G.finish_construction();
    steps = copies = 0; Str e = check(G, r); if (!e.empty()) return "initially: " + e; while (is >> t) { path += " " + t; e = apply(G, r, t); if (!e.empty()) return "after" + path + ": " + e; }
    e = dfs(G, r, d, m, path); vh::count(0, MODE == "copy" ? copies : 1); vh::count(3, steps); if (wg.n > 2) vh::count(1); return e;
}
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", cp = MODE == "copy"; auto go = [&](const WG& g, int d, int m) { return emit(g.str() + " " + to_string(d) + " " + to_string(m) + " |"); };
    if (!go(WG(1), th ? 5 : 4, 1)) return; all_labelled(2, { 0, 1, 3 }, [&](const WG& g) { return go(g, 4, 1); });
    all_labelled(3, { 0, 1, 2 }, [&](const WG& g) { return go(g, cp ? 2 : 3, 1); }); for (auto& g : iso_classes(3, 2)) if (!go(g, th ? 5 : 4, 1)) return;
    all_labelled(4, { 0, 1 }, [&](const WG& g) { return go(g, 2, 1); }); for (auto& g : iso_classes(4, 2)) for (auto& p : labelings(4, th ? 24 : 2)) if (!go(g.perm(p), 3, 1)) return;
    for (auto& g : iso_classes(5, 2)) for (auto& p : labelings(5, th ? 12 : 3)) if (!go(g.perm(p), th ? 3 : 2, !cp)) return;
    if (!cp) for (auto& g : iso_classes(5, 2)) if (!go(g, 3, 0)) return;
    for (auto& g : iso_classes(6, 2)) for (auto& p : labelings(6, th ? 6 : 1)) if (!go(g.perm(p), th ? 2 : 1, 1)) return;
    for (Str k : { "path", "cycle", "star", "wheel", "ladder" }) for (int n : { 6, 7, 8 }) if (!go(named(k, n, 1), cp ? 1 : 2, 0)) return;
    // ids at least as large as the number of edges; large weights
    for (int n : { 5, 9, 40 }) for (int a : { 0, 1, n - 2 }) { WG g(n); g.set(a, n - 1, 4294967297ull); if (n < 12 ? !go(g, 1, 0) : !emit(g.str() + " 0 0 |")) return; }
    { WG g(4); g.set(0, 1, 18446744073709551613ull); if (!go(g, 0, 0)) return; }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[3] = "transitions"; for (int i = 1; i + 1 < c; ++i) if (Str(v[i]) == "--arg") MODE = v[i + 1]; return vh::main_(c, v, enumerate, run); }
