// All minimum cuts: the cactus represents exactly the set of minimum cuts; most balanced / lowest conductance cut.
#include "vh.hpp"
#include "vc_build.hpp"
#include "cactus_ref.hpp"
#include "algorithms/global_mincut/algorithms.h"
#ifdef PARALLEL
#include "parallel/algorithm/parallel_cactus.h"
#define SOLVER parallel_cactus
#else
#define SOLVER cactus_mincut
#endif
typedef std::string Str; using std::vector;
static Str MODE;   // "cactus" or "balanced"
// parallel edges: the graph is built without them, then they are inserted
static WG base(WG g, const vector<std::array<int, 3>>& par) { for (auto& t : par) g.set(t[0], t[1], g.at(t[0], t[1]) - t[2]); return g; }
static void addpar(mutableGraphPtr G, const vector<std::array<int, 3>>& par) { for (auto& t : par) G->new_edge_order(t[0], t[1], t[2]); }
static void addpar(graphAccessPtr, const vector<std::array<int, 3>>&) { }
template <class P> Str one(const WG& g, uint64_t opt, const vector<uint32_t>& cuts, const Str& es, bool cond, int known, uint64_t* runs, const char* gt, const vector<std::array<int, 3>>& par = {}) {
    Str err; std::set<uint32_t> want(cuts.begin(), cuts.end()); uint64_t bestbal = 0, bestcond = 0;
    vector<uint64_t> deg(g.n); for (int i = 0; i < g.n; ++i) deg[i] = g.deg(i);
    auto bal = [&](uint32_t m) { int c = __builtin_popcount(m); return (uint64_t)std::min(c, g.n - c); };
    auto vol = [&](uint32_t m) { uint64_t a = 0, b = 0; for (int i = 0; i < g.n; ++i) (m >> i & 1 ? a : b) += deg[i]; return std::min(a, b); };
    for (auto m : cuts) { bestbal = std::max(bestbal, bal(m)); bestcond = std::max(bestcond, vol(m)); }
    auto body = [&]() {
        auto c = configuration::getConfig(); reset_config(); c->save_cut = true; c->edge_selection = es; c->find_most_balanced_cut = MODE == "balanced"; c->find_lowest_conductance = cond; c->set_node_in_cut = MODE == "balanced";
        auto G = builder<P>::make(base(g, par)); addpar(G, par); SOLVER<P> cm; vh::tick();
        EdgeWeight r = opt; mutableGraphPtr C; std::vector<std::pair<NodeID, EdgeID> > edges;
        if (known == 2) { recursive_cactus<P> rc(opt); C = rc.flowMincut({ G }); }   // the recursive algorithm on the unreduced graph
        else std::tie(r, C, edges) = known ? cm.findAllMincuts(G, opt) : cm.findAllMincuts(G);
        std::ostringstream o; o << "graph=" << gt << " select=" << es << (known == 2 ? " recursive" : known ? " known" : "") << ": ";
        if (r != opt) { o << "returned " << r << ", minimum cut is " << opt; err = o.str(); return false; }
        if (MODE == "balanced") {
            uint32_t m = 0; for (int i = 0; i < g.n; ++i) if (G->getNodeInCut(i)) m |= 1u << i;
            if (m == 0 || m == (1u << g.n) - 1 || g.cut(m) != opt) { o << "reported side is not a minimum cut"; err = o.str(); return false; }
            if (!cond && bal(m) != bestbal) { o << "smaller side has " << bal(m) << " vertices, " << bestbal << " possible"; err = o.str(); return false; }
            if (cond && vol(m) != bestcond) { o << "smaller side has volume " << vol(m) << ", " << bestcond << " possible"; err = o.str(); return false; }
            uint64_t w = 0; for (auto& [n, e] : edges) { NodeID t = G->getEdgeTarget(n, e); if (((m >> n) ^ (m >> t)) & 1) w += G->getEdgeWeight(n, e); else w += 1ull << 40; }
            if (w != 2 * opt) { o << "reported cut edges do not form the cut"; err = o.str(); return false; }
            vh::outcome(m * 1000 + opt);
        } else {
            std::set<uint32_t> got; Str e = cactus_cuts(C, g.n, opt, &got); if (!e.empty()) { err = o.str() + e; return false; }
            if (got != want) { o << "cactus represents " << got.size() << " cuts, graph has " << want.size() << " minimum cuts"; err = o.str(); return false; }
            vh::outcome(C->n() * 1000 + got.size());
        }
        return true;
    };
    bool capped = false; *runs += vrng::explore(body, 1, 4, es == "random" || es == "heavy" ? 60 : 12, &capped); if (capped) vh::count(2);
    return err;
}
// Large graphs, so that the heuristic bound contracts clusters first: every vertex of a small graph with minimum cut below 4 becomes a ring
// (edges of weight 2) of len vertices, all but the ends of its edges with a pendant vertex (weight 4). All minimum cuts are cuts of the small graph.
static EG rings(const WG& t, int len, int att, vector<int>* blk) {
    EG g; g.n = t.n * len; vector<char> used(g.n, 0); vector<int> nxt(t.n, 0); for (int i = 0; i < g.n; ++i) blk->push_back(i / len);
    auto add = [&](int u, int v, uint64_t w) { g.e.emplace_back(std::min(u, v), std::max(u, v), w); };
    for (int b = 0; b < t.n; ++b) for (int i = 0; i < len; ++i) add(b * len + i, b * len + (i + 1) % len, 2);
    for (int i = 0; i < t.n; ++i) for (int j = i + 1; j < t.n; ++j) if (t.at(i, j)) { int u = i * len + (nxt[i] += att) % len, v = j * len + (nxt[j] += att) % len; used[u] = used[v] = 1; add(u, v, t.at(i, j)); }
    for (int i = 0, n = g.n; i < n; ++i) if (!used[i]) { add(i, g.n++, 4); blk->push_back(i / len); }
    return g;
}
template <class P> Str large(const WG& t, int len, int att) {
    vector<uint32_t> cuts; uint64_t opt = brute_mincut(t, &cuts); vector<int> blk; EG g = rings(t, len, att, &blk); Str err;
    auto body = [&]() { reset_config(); configuration::getConfig()->save_cut = true; auto G = ebuilder<P>::make(g); SOLVER<P> cm; vh::tick();
        auto [r, C, e] = cm.findAllMincuts(G); vh::tick(); if (r != opt) { err = "returned " + std::to_string(r) + ", minimum cut is " + std::to_string(opt); return false; }
        std::set<uint32_t> got; err = cactus_cuts(C, t.n, opt, &got, &blk); if (err.empty() && got != std::set<uint32_t>(cuts.begin(), cuts.end())) err = "cactus represents " + std::to_string(got.size()) + " cuts, graph has " + std::to_string(cuts.size()) + " minimum cuts"; return err.empty(); };
    vh::count(0, vrng::explore(body, 0, 0, 1)); vh::count(3, 1); vh::count(1, cuts.size() > 1); return err;
}
// Balance: every vertex of a small graph becomes a star of the given size with edges heavier than its minimum cut
static WG sized(const WG& t, const vector<int>& sz, uint64_t heavy, vector<uint32_t>* mask) {
    int n = 0; vector<int> at; for (int x : sz) { at.push_back(n); n += x; } WG g(n); mask->assign(t.n, 0); vector<int> use(t.n, 0);
    for (int i = 0; i < t.n; ++i) for (int j = 0; j < sz[i]; ++j) { (*mask)[i] |= 1u << (at[i] + j); if (j) g.set(at[i], at[i] + j, heavy); }
    for (int i = 0; i < t.n; ++i) for (int j = i + 1; j < t.n; ++j) if (t.at(i, j)) g.set(at[i] + use[i]++ % sz[i], at[j] + use[j]++ % sz[j], t.at(i, j));
    return g;
}
static Str run(const Str& spec) {
    if (spec[0] == 'S') { std::istringstream is(spec.substr(2)); Str t, z, x; uint64_t lab; is >> t >> z >> lab; WG top = WG::parse(t); vector<int> sz; std::istringstream zs(z); while (std::getline(zs, x, ',')) sz.push_back(std::stoi(x));
        vector<uint32_t> cuts, mask; uint64_t opt = brute_mincut(top, &cuts); WG g = sized(top, sz, opt + 1, &mask); vector<int> q(g.n); std::iota(q.begin(), q.end(), 0); for (uint64_t r = lab, i = g.n; lab && i > 1; --i) { r = r * 6364136223846793005ull + 1442695040888963407ull; std::swap(q[i - 1], q[(r >> 33) % i]); }
        vector<int> inv(g.n); WG h = g.perm(q); bool fwd = true; for (int i = 0; i < g.n && fwd; ++i) for (int j = i + 1; j < g.n; ++j) if (h.at(q[i], q[j]) != g.at(i, j)) { fwd = false; break; } for (int i = 0; i < g.n; ++i) inv[q[i]] = i;
        vector<uint32_t> big; uint32_t fullm = (uint32_t)((1ull << g.n) - 1); for (auto c : cuts) { uint32_t m = 0; for (int i = 0; i < top.n; ++i) if (c >> i & 1) m |= mask[i]; uint32_t pm = 0; for (int i = 0; i < g.n; ++i) if (m >> i & 1) pm |= 1u << (fwd ? q[i] : inv[i]); if (pm & 1) pm = fullm ^ pm; if (h.cut(pm) != opt) return "bad spec"; big.push_back(pm); }
        uint64_t runs = 0; Str e; static int turn = 0; ++turn; for (Str es : { turn & 1 ? "heavy" : "central", turn & 2 ? "heavy_vertex" : "random" }) for (bool cond : { false, true }) { if (e.empty()) e = one<mutableGraphPtr>(h, opt, big, es, cond, 0, &runs, "mutable"); if (e.empty() && turn % 4 == 0) e = one<graphAccessPtr>(h, opt, big, es, cond, 0, &runs, "static"); }
        vh::count(0, runs); vh::count(1, cuts.size() > 1); vh::count(3, vrng::src().picks + runs); vrng::src().picks = 0; return e; }
    if (spec[0] == 'B') { std::istringstream is(spec.substr(2)); int len, att, mut; Str t; is >> len >> att >> mut >> t; WG g = WG::parse(t); return mut ? large<mutableGraphPtr>(g, len, att) : large<graphAccessPtr>(g, len, att); }
    std::istringstream is(spec); Str tok; is >> tok; WG g = WG::parse(tok); vector<std::array<int, 3>> par; while (is >> tok) { std::array<int, 3> t; sscanf(tok.c_str(), "+%d,%d,%d", &t[0], &t[1], &t[2]); par.push_back(t); g.set(t[0], t[1], g.at(t[0], t[1]) + t[2]); }
    if (!g.connected()) return ""; vector<uint32_t> cuts; uint64_t opt = brute_mincut(g, &cuts); uint64_t runs = 0; Str e;
    for (Str es : { "heavy", "heavy_vertex", "central", "random" }) for (bool cond : { false, true }) for (int known : { 0, 1, 2 }) {
        if (MODE == "cactus" && cond) continue; if (MODE == "balanced" && known) continue;
        if (known == 1 && es != "heavy_vertex") continue;
        if (e.empty()) e = one<mutableGraphPtr>(g, opt, cuts, es, cond, known, &runs, "mutable", par);
        if (e.empty() && par.empty()) e = one<graphAccessPtr>(g, opt, cuts, es, cond, known, &runs, "static"); }
    vh::count(0, runs); vh::count(1, cuts.size() > 1); vh::count(3, vrng::src().picks + runs); vrng::src().picks = 0; return e;
}
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough";
    if (MODE == "cactus") for (int m = 2; m <= (th ? 4 : 3); ++m) for (auto& g : iso_classes(m, 4)) { if (!g.connected() || brute_mincut(g) > 3) continue; for (int att = 1; att <= (th ? 2 : 1); ++att) { static int turn = 0; int mut = ++turn % 3 == 0; std::ostringstream s; s << "B " << (m == 2 ? 2600 : 10400 / m / 2) << ' ' << att << ' ' << mut << ' ' << g.str(); if (!emit(s.str())) return; } }
    if (MODE == "balanced") {
        auto all = [&](const WG& t, const vector<int>& pool, int step, bool ring) { vector<size_t> x(t.n, 0); int ix = 0; while (true) { vector<int> sz; int n = 0; for (auto i : x) sz.push_back(pool[i]), n += pool[i]; bool canon = true; if (ring) for (int r = 1; r < t.n && canon; ++r) { vector<int> y(sz.begin() + r, sz.end()); y.insert(y.end(), sz.begin(), sz.begin() + r); if (y < sz) canon = false; }
                if (canon && n <= 28 && ix++ % step == 0) { Str z; for (int v : sz) z += (z.empty() ? "" : ",") + std::to_string(v); for (int lab = 0; lab < (th ? 4 : 2); ++lab) if (!emit("S " + t.str() + " " + z + " " + std::to_string(lab ? lab * 7919 + ix : 0))) return false; }
                int i = 0; while (i < t.n && ++x[i] == pool.size()) x[i++] = 0; if (i == t.n) return true; } };
        for (int L = 3; L <= 7; ++L) { WG t = named("cycle", L, 1); if (!all(t, L <= 5 ? vector<int>{ 1, 2, 4, 7 } : vector<int>{ 1, 3, 4 }, L == 7 && !th ? 3 : 1, true)) return; }
        for (int L = 3; L <= 5; ++L) if (!all(named("path", L, 2), { 1, 2, 5 }, 1, false)) return;
        for (int a = 3; a <= 4; ++a) for (int b = 3; b <= 4; ++b) { int n = a + b - 1; WG t(n); for (int i = 0; i < a; ++i) t.add(i, (i + 1) % a, 1); for (int i = 0; i < b; ++i) t.add(i ? a + i - 1 : 0, i + 1 < b ? a + i : 0, 1); if (!all(t, n <= 6 ? vector<int>{ 1, 2, 4 } : vector<int>{ 1, 4 }, n == 6 && !th ? 3 : 1, false)) return;
            if (n < 7) for (int at = 0; at < n; at += 2) { WG h(n + 1); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) h.set(i, j, t.at(i, j)); h.set(at, n, 2); if (!all(h, { 1, 4 }, 1, false)) return; } }
    }
    auto f = [&](const WG& g) { return g.connected() ? emit(g.str()) : true; };
    for (int n = 2; n <= 4; ++n) all_labelled(n, { 0, 1, 2, 3 }, f);
    for (auto& g : iso_classes(5, th ? 4 : 3)) for (auto& p : labelings(5, th ? 8 : 3)) if (!f(g.perm(p))) return;
    // parallel edges, as insertions into a mutable graph leave them: every edge of weight 2 is split, or one edge is doubled
    for (int n = 3; n <= 6; ++n) for (auto& g : n < 6 ? iso_classes(n, 3) : iso_classes(6, 2)) { if (!g.connected() || (n == 6 && g.m() > 10)) continue; Str all = g.str(); int two = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (g.at(i, j)) {
        Str t = " +" + std::to_string(i) + "," + std::to_string(j) + ",1"; all += t; ++two; if (!emit(g.str() + t) || (n < 6 && !emit(g.str() + t + t))) return; } if (two && !emit(all)) return; }
    for (auto& g : iso_classes(6, 2)) for (auto& p : labelings(6, th ? 24 : 4)) if (!f(g.perm(p))) return;
    if (th) for (auto& g : iso_classes(6, 3)) if (g.m() <= 9) for (auto& p : labelings(6, 1)) if (!f(g.perm(p))) return;
    for (auto& g : iso_classes(7, 2)) for (auto& p : labelings(7, th ? 4 : 1)) if (!f(g.perm(p))) return;
    // cycles, trees and cactus-like graphs with many minimum cuts; clusters of different sizes on a cycle
    for (int n : { 6, 7, 8, 9, 10 }) for (Str k : { "cycle", "path", "star", "ladder", "wheel" }) for (auto& p : labelings(n, th ? 6 : 2)) if (!f(named(k, n, 1 + (n & 1)).perm(p))) return;
    for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int c = 1; c <= 3; ++c) for (int d = 0; d <= 3; ++d) for (int e = 0; e <= (d ? 2 : 0); ++e) {   // ring of heavy paths
        vector<int> sz = { a, b, c }; if (d) sz.push_back(d); if (e) sz.push_back(e); int n = 0; for (int x : sz) n += x; if (n > 11) continue; WG g(n); int o1 = 0; vector<int> st; for (int x : sz) { st.push_back(o1); for (int i = 0; i + 1 < x; ++i) g.add(o1 + i, o1 + i + 1, 5); o1 += x; }
        for (size_t i = 0; i < sz.size(); ++i) g.add(st[i] + sz[i] - 1, st[(i + 1) % sz.size()], 1);
        for (auto& p : labelings(n, th ? 6 : 2)) if (!f(g.perm(p))) return; }
    // two rings sharing a vertex, ring with pendant vertices
    for (int a = 3; a <= 5; ++a) for (int b = 3; b <= 5; ++b) { int n = a + b - 1; WG g(n); for (int i = 0; i < a; ++i) g.add(i, (i + 1) % a, 1); for (int i = 0; i < b; ++i) { int u = i ? a + i - 1 : 0, v = i + 1 < b ? a + i : 0; g.add(u, v, 1); } for (auto& p : labelings(n, th ? 8 : 3)) if (!f(g.perm(p))) return;
        for (int at = 0; at < n; at += 2) { WG h(n + 1); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) h.set(i, j, g.at(i, j)); h.set(at, n, 2); for (auto& p : labelings(n + 1, 2)) if (!f(h.perm(p))) return; } }
}
int main(int c, char** v) {
    vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; vh::cnt_names()[3] = "transitions";
    for (int i = 1; i + 1 < c; ++i) if (Str(v[i]) == "--arg") MODE = v[i + 1];
    return vh::main_(c, v, enumerate, run);
}
