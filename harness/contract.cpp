// Contraction along every partition (C09): fromUnionFind / contractGraph on static and mutable graphs, with and without copying, repeated.
#include "vh.hpp"
#include "vc_build.hpp"
#ifdef PARALLEL
#include "parallel/coarsening/contract_graph.h"
#include "parallel/data_structure/union_find.h"
#else
#include "coarsening/contract_graph.h"
#include "data_structure/union_find.h"
#endif
typedef std::string Str; using std::to_string; typedef std::vector<int> P; static bool MULTI = false; static WG vw(graphAccessPtr G, Str* e) { return view(G, e); } static WG vw(mutableGraphPtr G, Str* e) { return view(G, e, MULTI); }
static WG quotient(const WG& g, const P& p) { int k = 0; for (int x : p) k = std::max(k, x + 1); WG h(k); for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (p[i] != p[j] && g.at(i, j)) h.add(p[i], p[j], g.at(i, j)); return h; }
static WG full(const EG& e) { WG g(e.n); for (auto [u, v, w] : e.e) g.add(u, v, w); return g; }
template <class GP> static Str consistent(GP H, WG* out, const Str& what) { Str err; *out = vw(H, &err); if (!err.empty()) return what + ": " + err; uint64_t m = 0; for (NodeID v : H->nodes()) { uint64_t d = 0, k = 0; std::set<NodeID> ts; for (EdgeID e : H->edges_of(v)) { if (H->getEdgeTarget(v, e) == v) return what + ": self loop"; if (!ts.insert(H->getEdgeTarget(v, e)).second && !MULTI) return what + ": parallel edges in the contracted graph"; d += H->getEdgeWeight(v, e); ++k; ++m; } if (H->getWeightedNodeDegree(v) != d) return what + ": weighted degree of " + to_string(v) + " is " + to_string(H->getWeightedNodeDegree(v)) + ", its edges weigh " + to_string(d); if (H->getUnweightedNodeDegree(v) != k) return what + ": degree"; } if (H->number_of_edges() != m) return what + ": has " + to_string(m) + " edges, reports " + to_string(H->number_of_edges()); return ""; }
// the contracted graph equals the quotient under the given assignment of original vertices to new vertices
template <class GP> static Str match(GP H, const WG& g, const P& p, const std::vector<NodeID>& at, const Str& what) {
    int k = 0; for (int x : p) k = std::max(k, x + 1); if ((int)H->number_of_nodes() != k) return what + ": " + to_string(H->number_of_nodes()) + " vertices for " + to_string(k) + " blocks"; std::vector<int> blk(k, -1); std::vector<char> used(k, 0); for (int v = 0; v < g.n; ++v) { if (at[v] >= (NodeID)k) return what + ": vertex " + to_string(v) + " is mapped to " + to_string(at[v]) + " of " + to_string(k); int b = p[v]; if (blk[b] < 0) { if (used[at[v]]) return what + ": two blocks are mapped to one vertex"; blk[b] = at[v]; used[at[v]] = 1; } else if (blk[b] != (int)at[v]) return what + ": vertices of one block are mapped to different vertices"; }
    WG q = quotient(g, p), h; Str e = consistent(H, &h, what); if (!e.empty()) return e; for (int a = 0; a < k; ++a) for (int b = a + 1; b < k; ++b) if (h.at(blk[a], blk[b]) != q.at(a, b)) return what + ": weight between two blocks is " + to_string(h.at(blk[a], blk[b])) + ", should be " + to_string(q.at(a, b)); return ""; }
static P norm(const P& p) { std::map<int, int> m; P r; for (int x : p) { if (!m.count(x)) { int k = m.size(); m[x] = k; } r.push_back(m[x]); } return r; }
template <class F> static bool partitions(int n, F f) { P p(n, 0); std::function<bool(int, int)> rec = [&](int i, int k) -> bool { if (i == n) return f(p); for (int c = 0; c <= k && c < n; ++c) { p[i] = c; if (!rec(i + 1, std::max(k, c + 1))) return false; } return true; }; return rec(0, 0); }
static void unite(union_find& uf, const P& p) { std::map<int, int> f; for (size_t v = 0; v < p.size(); ++v) { if (f.count(p[v])) uf.Union(f[p[v]], v); else f[p[v]] = v; } }
template <class GP> static std::vector<NodeID> parts(GP G, int n) { std::vector<NodeID> r; for (int i = 0; i < n; ++i) r.push_back(G->getPartitionIndex(i)); return r; }
static std::vector<NodeID> positions(mutableGraphPtr G, int n) { std::vector<NodeID> r; for (int i = 0; i < n; ++i) r.push_back(G->getCurrentPosition(i)); return r; }
static Str contained(mutableGraphPtr G, int n, const Str& what) { std::vector<int> seen(n, 0); for (NodeID v : G->nodes()) for (NodeID x : G->containedVertices(v)) { if (x >= (NodeID)n || seen[x]++) return what + ": contained vertices are no partition"; if (G->getCurrentPosition(x) != v) return what + ": position of vertex " + to_string(x) + " disagrees with its container"; } for (int i = 0; i < n; ++i) if (!seen[i]) return what + ": vertex " + to_string(i) + " is contained nowhere"; return ""; }
template <class GP> static Str unchanged(GP G, const WG& g) { WG h; Str e = consistent(G, &h, "the input graph after contracting a copy"); if (!e.empty()) return e; return h.w == g.w && h.n == g.n ? "" : "contracting a copy changed the input graph"; }
static Str pstr(const P& p) { Str s = " [partition"; for (int x : p) s += " " + to_string(x); return s + "]"; }
template <class MS, class MM> static Str one(const WG& g, const P& p, MS ms, MM mm) {
    int n = g.n, k = *std::max_element(p.begin(), p.end()) + 1; Str e; auto cfg = configuration::getConfig(); vh::count(3, 7);
    for (bool save : { true, false }) { cfg->save_cut = save; 
        { auto G = ms(); union_find uf(n); unite(uf, p); auto H = contraction::fromUnionFind(G, &uf, true); std::vector<NodeID> at = parts(G, n); if (!save) for (int i = 0; i < n; ++i) at[i] = norm(p)[i]; if (!(e = match(H, g, p, at, "static")).empty()) return e; }
        { auto G = mm(); union_find uf(n); unite(uf, p); auto H = contraction::fromUnionFind(G, &uf, false); if (k == n && H != G) { } if (!(e = match(H, g, p, positions(H, n), "mutable, in place")).empty() || !(e = contained(H, n, "mutable, in place")).empty()) return e; }
        if (save) { auto G = mm(); union_find uf(n); unite(uf, p); auto H = contraction::fromUnionFind(G, &uf, true); if (!(e = match(H, g, p, parts(G, n), "mutable, copied")).empty() || !(e = unchanged(G, g)).empty() || !(e = contained(H, k, "mutable, copied")).empty()) return e; } }
    // explicit mapping with the blocks numbered in reverse
    cfg->save_cut = true; std::vector<NodeID> m(n); std::vector<std::vector<NodeID> > r(k); for (int v = n; v-- > 0; ) { m[v] = k - 1 - p[v]; r[m[v]].push_back(v); }
    { auto G = ms(); auto H = contraction::contractGraph(G, m, r); if (!(e = match(H, g, p, m, "static, mapping")).empty()) return e; }
    { auto G = mm(); auto H = contraction::contractGraph(G, m, r, true); bool re = false; std::vector<NodeID> at = parts(G, n); for (NodeID x : at) re |= x; if (!re) at = m; if (!(e = match(H, g, p, at, "mutable, mapping, copied")).empty() || !(e = unchanged(G, g)).empty()) return e; }
    { auto G = mm(); auto H = contraction::contractGraph(G, m, r, false); if (!(e = match(H, g, p, positions(H, n), "mutable, mapping, in place")).empty() || !(e = contained(H, n, "mutable, mapping, in place")).empty()) return e; }
    return ""; }
static Str run(const Str& spec) {
    vh::count(0); reset_config(); std::istringstream is(spec); Str kind; is >> kind; Str res;
    if (kind == "p" || kind == "2") { Str s; int par; is >> s >> par; MULTI = par; WG g = WG::parse(s); if (g.m()) vh::count(1); vh::outcome(vh::hash(to_string(g.n) + "/" + to_string(g.m())));
        EG eg = to_eg(g); if (par == 1) { EG h; h.n = g.n; for (auto [u, v, w] : eg.e) { h.e.emplace_back(v, u, w > 1 ? w / 2 : w); if (w > 1) h.e.emplace_back(u, v, w - w / 2); } std::reverse(h.e.begin(), h.e.end()); eg = h; } auto ms = [&] { return build_static(g); }; auto mm = [&] { return build_mutable(eg); };
        bool simple = par == 0; (void)simple;
        if (kind == "p") { partitions(g.n, [&](const P& p) { if (par && p == P(g.n)) return true; if (par) { int k = *std::max_element(p.begin(), p.end()) + 1; if (k == g.n) return true; } res = one(g, p, ms, mm); if (!res.empty()) res += pstr(p); return res.empty(); }); return res; }
        // two contractions of the same mutable graph one after the other
        configuration::getConfig()->save_cut = false; partitions(g.n, [&](const P& p) { WG q = quotient(g, p); return partitions(q.n, [&](const P& p2) { auto G = mm(); union_find a(g.n); unite(a, p); auto H = contraction::fromUnionFind(G, &a, false); std::vector<NodeID> at = positions(H, g.n); /* translate blocks to current vertices */ union_find b(q.n); std::vector<int> rep(q.n, -1); for (int v = 0; v < g.n; ++v) { int c = p2[p[v]]; if (rep[c] < 0) rep[c] = at[v]; else b.Union(rep[c], at[v]); } auto H2 = contraction::fromUnionFind(H, &b, false); P c(g.n); for (int v = 0; v < g.n; ++v) c[v] = p2[p[v]]; vh::count(3); res = match(H2, g, norm(c), positions(H2, g.n), "contracted twice in place"); if (res.empty()) res = contained(H2, g.n, "contracted twice in place"); if (!res.empty()) res += pstr(p) + pstr(p2); return res.empty(); }); }); return res; }
    // blow-ups (more than 100 vertices): special paths for large blocks
    Str s, bk, pk; int b, perm; is >> s >> bk >> b >> perm >> pk; EG eg = blow_up(WG::parse(s), bk, b, 3, perm); WG g = full(eg); int n = g.n; vh::count(1); EG se; se = to_eg(g); P p(n); P inv(n); { WG sk = WG::parse(s); std::vector<int> num(n); for (int i = 0; i < n; ++i) num[i] = i; if (perm) { uint64_t x = 88172645463325252ull * perm; for (int i = n - 1; i > 0; --i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; std::swap(num[i], num[(x >> 20) % (i + 1)]); } } for (int i = 0; i < n; ++i) inv[num[i]] = i; }
    for (int v = 0; v < n; ++v) { int i = inv[v]; p[v] = pk == "skel" ? i / b : pk == "mod2" ? i % 2 : pk == "mod3" ? i % 3 : pk == "two" ? (i % 5 < 2) : pk == "one" ? 0 : pk == "half" ? (i < n / 2 ? 0 : i) : pk == "pairs" ? i / 2 : pk == "big2" ? (i < n / 3 ? 0 : i < 2 * n / 3 ? 1 : i) : pk == "last" ? (i == n - 1 ? 1 : 0) : i; }
    p = norm(p); return one(g, p, [&] { return build_static(g); }, [&] { return build_mutable(se); });
}
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", go = true; auto A = [&](const WG& g) { return go = go && emit("p " + g.str() + " 0"); }; auto B = [&](const WG& g) { return go = go && emit("p " + g.str() + " 1"); }; auto C = [&](const WG& g) { return go = go && emit("2 " + g.str() + " 0"); };
    for (int n = 1; n <= 3; ++n) { all_labelled(n, { 0, 1, 2, 4294967297ull }, A); all_labelled(n, { 0, 1, 2, 3 }, C); } all_labelled(4, { 0, 1, 2 }, A); all_labelled(4, { 0, 1, 2 }, C); all_labelled(4, { 0, 1 }, B); all_labelled(3, { 0, 2, 5 }, B); all_labelled(5, { 0, 1 }, A); if (th) { all_labelled(5, { 0, 1, 2 }, A); all_labelled(5, { 0, 1 }, C); all_labelled(4, { 0, 1, 2, 3 }, A); }
    for (auto& g : iso_classes(5, 2)) for (auto& q : labelings(5, th ? 24 : 4)) { WG h = g.perm(q); int c = 0; for (int i = 0; i < 5; ++i) for (int j = i + 1; j < 5; ++j) if (h.at(i, j)) h.set(i, j, 1 << (c++ % 10)); A(h); B(h); C(h); } for (auto& g : iso_classes(6, 2)) for (auto& q : labelings(6, th ? 12 : 2)) { WG h = g.perm(q); int c = 0; for (int i = 0; i < 6; ++i) for (int j = i + 1; j < 6; ++j) if (h.at(i, j)) h.set(i, j, 1ull << (c++ % 15)); A(h); }
    for (Str k : { "cycle", "star", "wheel", "clique" }) for (int n : { 7, 8 }) { if (n == 8 && !th) continue; WG h = named(k, n, 1); int c = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (h.at(i, j)) h.set(i, j, 1ull << (c++ % 30)); A(h); }
    for (auto& g : iso_classes(4, 3)) for (Str bk : { "path", "star", "cycle" }) for (int b : { 26, 40 }) for (int perm : { 0, 1 }) for (Str pk : { "skel", "mod2", "mod3", "two", "one", "half", "pairs", "big2", "last", "id" }) { go = go && emit("b " + g.str() + " " + bk + " " + to_string(b) + " " + to_string(perm) + " " + pk); }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[3] = "transitions"; return vh::main_(c, v, enumerate, run); }
