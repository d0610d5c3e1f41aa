// Push-relabel: value and source side of every maximum flow between terminal sets, all graphs / terminal sets / sources / variants.
#include "vh.hpp"
#include "vc_build.hpp"
#include "algorithms/flow/push_relabel.h"
typedef std::string Str; using std::to_string;
// Independent reference: shortest augmenting paths on a matrix.
static uint64_t ref_flow(const WG& g, int s, const std::vector<int>& sinks) {
    int n = g.n; std::vector<uint64_t> c(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) c[i * n + j] = g.at(i, j); std::vector<char> T(n, 0); for (int t : sinks) T[t] = 1; uint64_t f = 0;
    while (true) { std::vector<int> p(n, -1), q = { s }; p[s] = s; int end = -1; for (size_t i = 0; i < q.size() && end < 0; ++i) for (int v = 0; v < n && end < 0; ++v) if (p[v] < 0 && c[q[i] * n + v]) { p[v] = q[i]; if (T[v]) end = v; else q.push_back(v); } if (end < 0) return f; uint64_t a = ~0ull; for (int v = end; v != s; v = p[v]) a = std::min(a, c[p[v] * n + v]); for (int v = end; v != s; v = p[v]) { c[p[v] * n + v] -= a; c[v * n + p[v]] += a; } f += a; } }
static uint64_t PID = 1000;
static Str check_set(const WG& g, int s, const std::vector<int>& sinks, const std::vector<NodeID>& set, uint64_t f) {
    std::vector<char> in(g.n, 0); for (NodeID v : set) { if (v >= (NodeID)g.n) return "source side contains a vertex out of range"; if (in[v]) return "source side lists vertex " + to_string(v) + " twice"; in[v] = 1; } if (!in[s]) return "source side does not contain the source"; for (int t : sinks) if (in[t]) return "source side contains sink " + to_string(t);
    uint64_t c = 0; for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (in[i] && !in[j]) c += g.at(i, j); if (c != f) return "edges leaving the source side weigh " + to_string(c) + ", the flow is " + to_string(f); return ""; }
// the flow left on the graph's edges is a valid flow of that value
static Str check_flow(const WG& g, mutableGraphPtr G, uint64_t pid, int s, const std::vector<int>& sinks, uint64_t f) { for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) { FlowType x = G->getEdgeFlow(v, e, pid); NodeID t = G->getEdgeTarget(v, e); if (x > (FlowType)G->getEdgeWeight(v, e)) return "an edge carries more than its capacity"; if (x != -G->getEdgeFlow(t, G->getReverseEdge(v, e), pid)) return "flow is not antisymmetric"; } int64_t in = 0; for (int t : sinks) for (EdgeID e : G->edges_of(t)) in -= G->getEdgeFlow(t, e, pid); if ((uint64_t)in != f) return "flow on the edges into the sinks is " + to_string(in) + ", reported " + to_string(f); return ""; }
static Str at(int s, const std::vector<int>& T, const Str& var) { Str r = " (" + var + ", terminals"; for (int t : T) r += " " + to_string(t); return r + ", source " + to_string(s) + ")"; }
static Str one(const WG& g, mutableGraphPtr G, push_relabel<false, false>& A, push_relabel<false, true>& B, const std::vector<int>& T, int si, bool lim) {
    std::vector<NodeID> src(T.begin(), T.end()); int s = T[si]; std::vector<int> sinks; for (int t : T) if (t != s) sinks.push_back(t); uint64_t f = ref_flow(g, s, sinks); Str e; vh::count(3, 4); vh::outcome(f);
    uint64_t p = PID++; auto [v, set] = A.solve_max_flow_min_cut(G, src, si, true, 0, p); if ((uint64_t)v != f) return "flow value " + to_string(v) + ", maximum flow " + to_string(f) + at(s, T, "sequential"); if (!(e = check_set(g, s, sinks, set, f)).empty()) return e + at(s, T, "sequential"); if (!(e = check_flow(g, G, p, s, sinks, f)).empty()) return e + at(s, T, "sequential");
    { push_relabel pr; auto [v2, s2] = pr.solve_max_flow_min_cut(G, src, si, false, 0, PID++); if ((uint64_t)v2 != f) return "flow value " + to_string(v2) + ", maximum flow " + to_string(f) + at(s, T, "fresh solver"); }
    auto s3 = B.callable_max_flow(G, src, si, true); if (!(e = check_set(g, s, sinks, s3, f)).empty()) return e + at(s, T, "concurrent variant");
    { push_relabel<false, true> b; auto [v4, s4] = b.solve_max_flow_min_cut(G, src, si, false); if ((uint64_t)v4 != f) return "flow value " + to_string(v4) + ", maximum flow " + to_string(f) + at(s, T, "concurrent variant, fresh"); }
    if (lim && T.size() == 2) { push_relabel<true, false> L; for (int d : { 1, 0, 2, 7 }) { configuration::getConfig()->depthOfPartialRelabeling = d; std::set<uint64_t> ls = { 1, f + 1, 2 * f + 5 }; if (f > 1) { ls.insert(f - 1); ls.insert(f); } for (uint64_t l : ls) { vh::count(3); auto [v5, s5] = L.solve_max_flow_min_cut(G, src, si, true, l, PID++); uint64_t w = std::min(l, f); if (l > f ? (uint64_t)v5 != f : ((uint64_t)v5 < l || (uint64_t)v5 > f)) return "limited flow value " + to_string(v5) + ", expected " + (l > f ? "" : "at least ") + to_string(w) + " (limit " + to_string(l) + ", depth " + to_string(d) + ")" + at(s, T, "limited"); if (l > f && !(e = check_set(g, s, sinks, s5, f)).empty()) return e + " (limit " + to_string(l) + ", depth " + to_string(d) + ")" + at(s, T, "limited"); } } }
    return ""; }
static Str run(const Str& spec) {
    vh::count(0); reset_config(); std::istringstream is(spec); Str gs; int kmax, ord; is >> gs >> kmax >> ord; WG g = WG::parse(gs); if (g.m()) vh::count(1); mutableGraphPtr G; 
    if (ord == 0) G = build_mutable(g); else { EG eg = to_eg(g); if (ord == 1) std::reverse(eg.e.begin(), eg.e.end()); if (ord == 2) { std::stable_sort(eg.e.begin(), eg.e.end(), [](auto& a, auto& b) { return std::get<1>(a) < std::get<1>(b); }); } if (ord == 3) { EG h; h.n = eg.n; for (auto [u, v, w] : eg.e) { h.e.emplace_back(u, v, w > 1 ? w / 2 : w); if (w > 1) h.e.emplace_back(v, u, w - w / 2); } eg = h; } G = build_mutable(eg); }
    push_relabel<false, false> A; push_relabel<false, true> B; { WG big = named("wheel", g.n + 3, 2), small = named("path", 2, 3); auto X = build_mutable(big), Y = build_mutable(small); A.solve_max_flow_min_cut(X, { 0, (NodeID)g.n }, 1, true, 0, PID++); if (g.n % 2) A.solve_max_flow_min_cut(Y, { 0, 1 }, 0, true, 0, PID++); B.callable_max_flow(X, { 1, 3 }, 0, true); }
    for (int m = 1; m < 1 << g.n; ++m) { int k = __builtin_popcount(m); if (k < 2 || k > kmax) continue; if (g.n > 9 && (m * 2654435761u >> 7) % 16) continue; std::vector<int> T; for (int i = 0; i < g.n; ++i) if (m >> i & 1) T.push_back(i); if (m % 3 == 1) std::reverse(T.begin(), T.end()); for (int s = 0; s < k; ++s) { vh::tick(); Str e = one(g, G, A, B, T, s, g.n <= 6); if (!e.empty()) return e; } }
    return ""; }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", go = true; auto E = [&](const WG& g, int k, int ord) { return go = go && emit(g.str() + " " + to_string(k) + " " + to_string(ord)); };
    for (int ord = 0; ord < 4; ++ord) { for (int n = 2; n <= 3; ++n) all_labelled(n, { 0, 1, 2, 5, 4294967297ull }, [&](const WG& g) { return E(g, 3, ord); }); all_labelled(4, { 0, 1, 2, 3 }, [&](const WG& g) { return E(g, 4, ord); }); }
    if (th) all_labelled(4, { 0, 1, 2, 5, 4294967297ull }, [&](const WG& g) { return E(g, 4, 1); }); all_labelled(5, { 0, 1 }, [&](const WG& g) { return E(g, 5, 0) && E(g, 5, 2); });
    for (auto& g : iso_classes(5, 3)) for (auto& p : labelings(5, th ? 24 : 4)) E(g.perm(p), 5, 1); for (auto& g : iso_classes(6, 2)) for (auto& p : labelings(6, th ? 48 : 10)) { WG h = g.perm(p); int c = 0; for (int i = 0; i < 6; ++i) for (int j = i + 1; j < 6; ++j) if (h.at(i, j)) h.set(i, j, 1 + c++ * 3 % 5); E(g.perm(p), 4, 0); E(h, 4, c % 4); }
    for (auto& g : iso_classes(7, 2)) for (auto& p : labelings(7, th ? 24 : 2)) { WG h = g.perm(p); int c = 0; for (int i = 0; i < 7; ++i) for (int j = i + 1; j < 7; ++j) if (h.at(i, j)) h.set(i, j, 1 + c++ * 5 % 7); E(h, 3, c % 3); }
    for (Str k : { "cycle", "path", "star", "wheel", "ladder", "clique" }) for (int n : { 8, 9, 10, 12 }) for (auto& p : labelings(n, 3)) { WG g = named(k, n, 2).perm(p); E(g, 3, 0); int c = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (g.at(i, j)) g.set(i, j, 1 + c++ * 7 % 11); E(g, 3, 1); E(g, 2, 2); }
    // long paths and grids: many relabelings, gaps and global updates
    for (int n : { 12, 14 }) for (int r : { 2, 3 }) for (auto& p : labelings(n, th ? 12 : 3)) { WG g(n); int c = 0; for (int i = 0; i < n; ++i) { if (i + r < n) g.set(i, i + r, 1 + c++ * 7 % 5); if (i % r + 1 < r && i + 1 < n) g.set(i, i + 1, 1 + c++ * 3 % 4); } E(g.perm(p), 2, 0); }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[3] = "transitions"; return vh::main_(c, v, enumerate, run); }
