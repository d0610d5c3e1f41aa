// Dynamic minimum cut: every sequence of edge insertions and deletions up to a depth, value compared after every step.
#include "vh.hpp"
#include "vc_build.hpp"
#include "cactus_ref.hpp"
#include "algorithms/global_mincut/algorithms.h"
#include "algorithms/global_mincut/dynamic/dynamic_mincut.h"
typedef std::string Str; using std::vector;
struct Ref { int n; std::map<std::pair<int, int>, vector<uint64_t> > e;
    uint64_t w(int a, int b) const { if (a > b) std::swap(a, b); auto it = e.find({ a, b }); uint64_t s = 0; if (it != e.end()) for (auto x : it->second) s += x; return s; }
    uint64_t mincut() const { if (n <= 9) { WG g(n); for (auto& p : e) for (auto x : p.second) g.add(p.first.first, p.first.second, x); return brute_mincut(g); } EG g; g.n = n; for (auto& p : e) for (auto x : p.second) g.e.emplace_back(p.first.first, p.first.second, x); return reference_mincut(g); } };
static WG graph(const Str& s) { if (isdigit(s[0])) return WG::parse(s); size_t a = s.find('-'), b = s.find('-', a + 1); return named(s.substr(0, a), atoi(s.substr(a + 1).c_str()), b == Str::npos ? 1 : atoi(s.substr(b + 1).c_str())); }
// classes of vertices that no cut of weight lambda separates: bounded maximum flows to the first vertex of every class
static vector<int> same_side(int n, const std::map<std::pair<int, int>, vector<uint64_t> >& ed, uint64_t lambda) {
    vector<vector<std::pair<int, uint64_t> > > adj(n); for (auto& p : ed) { uint64_t w = 0; for (auto x : p.second) w += x; if (w) { adj[p.first.first].push_back({ p.first.second, w }); adj[p.first.second].push_back({ p.first.first, w }); } }
    vector<vector<int> > rev(n); for (int v = 0; v < n; ++v) for (auto& a : adj[v]) { int k = 0; while (adj[a.first][k].first != v) ++k; rev[v].push_back(k); }
    vector<int> cls(n, -1), reps; 
    for (int v = 0; v < n; ++v) { for (int r : reps) { auto cap = adj; uint64_t flow = 0;
            while (flow <= lambda) { vector<int> from(n, -1), by(n, -1); std::vector<int> q{ v }; from[v] = v; for (size_t h = 0; h < q.size() && from[r] < 0; ++h) for (size_t k = 0; k < cap[q[h]].size(); ++k) { int t = cap[q[h]][k].first; if (cap[q[h]][k].second && from[t] < 0) { from[t] = q[h]; by[t] = k; q.push_back(t); } }
                if (from[r] < 0) break; uint64_t b = ~0ull; for (int x = r; x != v; x = from[x]) b = std::min(b, cap[from[x]][by[x]].second); for (int x = r; x != v; x = from[x]) { cap[from[x]][by[x]].second -= b; cap[x][rev[from[x]][by[x]]].second += b; } flow += b; }
            if (flow > lambda) { cls[v] = cls[r]; break; } }
        if (cls[v] < 0) { cls[v] = v; reps.push_back(v); } }
    return cls;
}
static Str play(const Str& spec, uint64_t* steps) {
    std::istringstream is(spec); Str t; is >> t; WG g = graph(t); Ref r; r.n = g.n; EG eg; eg.n = g.n;
    for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (g.at(i, j)) r.e[{ i, j }].push_back(g.at(i, j));
    auto G = build_mutable(g); reset_config(); configuration::getConfig()->save_cut = true;
    dynamic_mincut d; uint64_t got = d.initialize(G); vh::tick(); std::ostringstream log; log << "init"; std::map<uint64_t, bool> complete; /* of the cached cacti */ bool exact = true, removed = false, started = false; uint64_t last = 0, calls = 0; std::set<uint32_t> before;
    auto cmp = [&]() -> Str { ++*steps; uint64_t want = r.mincut(); if (got != want) return "after " + log.str() + ": returned " + std::to_string(got) + ", minimum cut is " + std::to_string(want); if (d.getCurrentCut() != want) return "after " + log.str() + ": stored cut differs";
        if (r.n <= 16) {   // the cactus: only minimum cuts; all of them unless a deletion added minimum cuts without changing the value
            WG w(r.n); for (auto& p : r.e) for (auto x : p.second) w.add(p.first.first, p.first.second, x); vector<uint32_t> cuts; brute_mincut(w, &cuts); std::set<uint32_t> all(cuts.begin(), cuts.end()), have;
            if (started && want < last) { complete[last] = exact; exact = true; } if (d.getCallsOfStaticAlgorithm() != calls) exact = true; else if (started && want > last) exact = complete.count(want) && complete[want]; calls = d.getCallsOfStaticAlgorithm();
            if (removed && want == last && all != before) exact = false;
            last = want; before = all; removed = false; started = true;
            Str ce = cactus_cuts(d.getCurrentCactus(), r.n, want, &have); if (!ce.empty()) return "after " + log.str() + ": " + ce;
            for (auto m : have) if (!all.count(m)) return "after " + log.str() + ": cactus represents a cut that is not a minimum cut";
            if (have.empty() || (exact && have != all)) return "after " + log.str() + ": cactus represents " + std::to_string(have.size()) + " cuts, graph has " + std::to_string(cuts.size()) + " minimum cuts"; }
        else {   // large graphs: which vertices share a node of the cactus
            vector<int> cls = same_side(r.n, r.e, want); if (started && want < last) { complete[last] = exact; exact = true; } if (d.getCallsOfStaticAlgorithm() != calls) exact = true; else if (started && want > last) exact = complete.count(want) && complete[want]; calls = d.getCallsOfStaticAlgorithm();
            if (removed && want == last) exact = false;
            last = want; removed = false; started = true; auto C = d.getCurrentCactus(); vector<int> home(r.n, -1); Str ce; view(C, &ce, true); if (!ce.empty()) return "after " + log.str() + ": cactus graph inconsistent: " + ce;
            for (NodeID c : C->nodes()) for (NodeID v : C->containedVertices(c)) { if (v >= (NodeID)r.n || home[v] >= 0 || C->getCurrentPosition(v) != c) return "after " + log.str() + ": vertex " + std::to_string(v) + " unknown, contained twice or at another position of the cactus"; home[v] = c; }
            std::map<int, int> at; for (int v = 0; v < r.n; ++v) { if (home[v] < 0) return "after " + log.str() + ": some vertex is contained in no node of the cactus"; if (!at.count(cls[v])) at[cls[v]] = home[v]; if (at[cls[v]] != home[v]) return "after " + log.str() + ": vertices that no minimum cut separates are in different nodes of the cactus"; }
            std::map<int, int> who; for (auto& p : at) { if (exact && who.count(p.second)) return "after " + log.str() + ": vertices " + std::to_string(who[p.second]) + " and " + std::to_string(p.first) + " share a node of the cactus, a minimum cut separates them"; who[p.second] = p.first; }
            if (who.size() < 2) return "after " + log.str() + ": cactus represents no cut"; }
        return ""; };
    Str e = cmp(); if (!e.empty()) return e;
    auto ins = [&](int s, int t, uint64_t w) { if (getenv("VH_LOUD")) fprintf(stderr, "insert %d,%d,%llu\n", s, t, (unsigned long long)w); r.e[{ std::min(s, t), std::max(s, t) }].push_back(w); got = d.addEdge(s, t, w); vh::tick(); };
    while (is >> t) {
        log << ' ' << t; char op = t[0]; int s = 0, x = 0; unsigned long long w = 1;
        if (op == '+') { sscanf(t.c_str() + 1, "%d,%d,%llu", &s, &x, &w); ins(s, x, w); }
        else if (op == '-') { sscanf(t.c_str() + 1, "%d,%d", &s, &x); auto& v = r.e[{ std::min(s, x), std::max(s, x) }]; if (v.empty()) return "bad spec"; 
            removed = true; got = d.removeEdge(s, x); vh::tick(); v.erase(v.begin()); if (v.empty()) r.e.erase({ std::min(s, x), std::max(s, x) }); }
        else if (op == 'F') { sscanf(t.c_str() + 1, "%d,%d,%llu", &s, &x, &w); for (int i = s; i < x; ++i) for (int j = i + 1; j < x; ++j) if (!r.w(i, j)) ins(i, j, w); }   // fill a range of vertices into a clique
        else if (op == 'R') {   // insert edges across minimum cuts until the minimum rises; they join the ends of smallest (0) or largest (1) degree, or the first (2) or last (3) ends
            int rule = atoi(t.c_str() + 1); uint64_t start = r.mincut();
            for (int it = 0; it < 60; ++it) {
                WG w(r.n); for (auto& p : r.e) for (auto q : p.second) w.add(p.first.first, p.first.second, q); vector<uint32_t> cuts; if (brute_mincut(w, &cuts) > start) break;
                vector<int> deg(r.n, 0); for (auto& p : r.e) deg[p.first.first]++, deg[p.first.second]++; uint32_t m = cuts[rule == 3 ? cuts.size() - 1 : 0]; int bs = -1, bt = -1; long best = 0;
                for (int i = 0; i < r.n; ++i) for (int j = i + 1; j < r.n; ++j) if ((m >> i & 1) != (m >> j & 1)) { long v = rule == 0 ? -deg[i] - deg[j] : rule == 1 ? deg[i] + deg[j] : rule == 2 ? -i * 100 - j : i * 100 + j; if (bs < 0 || v > best) best = v, bs = i, bt = j; }
                ins(bs, bt, 1); log << " +" << bs << ',' << bt; e = cmp(); if (!e.empty()) return e; }
        }
        e = cmp(); if (!e.empty()) return e;
    }
    vh::outcome(vh::hash(spec.substr(0, spec.find(' '))) * 31 + got); return "";
}
static Str run(const Str& spec) {
    uint64_t steps = 0, runs = 0; Str e; auto body = [&]() { e = play(spec, &steps); return e.empty(); };
    runs = vrng::explore(body, 0, 0, 1);
    vh::count(0, runs); vh::count(3, steps); vh::count(1, spec.find('-') != Str::npos); return e;
}
struct St { WG g; };
static bool UPDOWN = false;   // only histories that start with a deletion and end with an insertion
// all sequences of exactly `depth` operations over the vertex pairs below lim; parallel: also insert where an edge exists
static bool seqs(vh::Emitter& emit, const Str& base, WG g, int lim, const vector<uint64_t>& ws, int depth, bool parallel, const Str& pre, vector<int>* dup = nullptr) {
    if (depth == 0) { if (UPDOWN) { size_t a = pre.find(' '), b = pre.rfind(' '); if (pre[a + 1] != '-' || pre[b + 1] != '+') return true; } return emit(pre); }
    for (int i = 0; i < lim; ++i) for (int j = i + 1; j < lim; ++j) {
        if (g.at(i, j)) { WG h = g; if (!parallel) h.set(i, j, 0); else { if (g.at(i, j) % 1000 > 1 || true) h.set(i, j, g.at(i, j) - 1); }
            if (!seqs(emit, base, h, lim, ws, depth - 1, parallel, pre + " -" + std::to_string(j) + "," + std::to_string(i))) return false; }
        if (!g.at(i, j) || parallel) for (uint64_t w : ws) { WG h = g; if (parallel) h.set(i, j, g.at(i, j) + 1); else h.set(i, j, w); if (!seqs(emit, base, h, lim, ws, depth - 1, parallel, pre + " +" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(w))) return false; }
    }
    return true;
}
// All graphs that are cacti with minimum cut 2 (bridges of weight 2 and cycles): blocks are attached one by one, at vertices in non-decreasing order.
static bool cacti(const std::function<bool(const WG&)>& f, WG g, int from, int blocks, int maxn, int maxcyc) {
    if (g.n > 1 && !f(g)) return false; if (blocks == 0) return true;
    for (int at = from; at < g.n; ++at) for (int len = 2; len <= maxcyc; ++len) { if (g.n + len - 1 > maxn) break; WG h(g.n + len - 1); for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) h.set(i, j, g.at(i, j));
        if (len == 2) h.set(at, g.n, 2); else { h.set(at, g.n, 1); for (int k = 1; k + 1 < len; ++k) h.set(g.n + k - 1, g.n + k, 1); h.set(at, g.n + len - 2, 1); } if (!cacti(f, h, at, blocks - 1, maxn, maxcyc)) return false; }
    return true;
}
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough"; auto go = [&](const WG& g, int lim, vector<uint64_t> ws, int d, bool par) { return seqs(emit, g.str(), g, lim, ws, d, par, g.str()); };
    all_labelled(2, { 0, 1, 2 }, [&](const WG& g) { return go(g, 2, { 1, 2 }, 4, false); });
    all_labelled(3, { 0, 1, 2 }, [&](const WG& g) { return go(g, 3, { 1, 2 }, th ? 5 : 4, false); });
    for (auto& g : iso_classes(3, 2)) if (!go(g, 3, { 1 }, 4, true)) return;
    for (auto& g : iso_classes(4, 3)) if (!go(g, 4, { 1, 2 }, th ? 4 : 3, false)) return;
    // large cacti, so that cached ones are brought up to date with several changes
    UPDOWN = true; for (auto& at : vector<vector<int>>{ { 0, 1, 2, 7 }, { 0, 1, 5, 6 }, { 0, 1, 2, 3 }, { 0, 4, 5, 10 } }) for (int n : { 15, 16 }) for (int bridge = 0; bridge < 2; ++bridge) { if (!th && ((n == 16) != bridge || (at[1] == 4 ? bridge : at[2] == 5 ? true : at[3] == 3 ? !bridge : false))) continue;
        vector<int> pos(at), inv(n); for (int v = 0; v < n; ++v) if (std::find(at.begin(), at.end(), v) == at.end()) pos.push_back(v); for (int i = 0; i < n; ++i) inv[pos[i]] = i; WG g(n); for (int v = 0; v + bridge < n; ++v) g.set(inv[v], inv[(v + 1) % n], 1); if (!seqs(emit, g.str(), g, 4, { 1 }, n == 16 && !th ? 5 : 6, false, g.str())) return; }
    // a cached cactus is no longer valid when an edge that crosses its cuts was replaced: one vertex changes its neighbours in a small hub, other vertices of minimum degree hang on the hub
    { bool stop = false; all_labelled(3, { 0, 1, 2, 3 }, [&](const WG& hub) { for (int split = 0; split < 3 && !stop; ++split) for (int at = 0; at < (th ? 3 : 1) && !stop; ++at) { const int extra = 5; WG g(4 + extra); for (int i = 0; i < 3; ++i) { for (int j = i + 1; j < 3; ++j) g.set(1 + i, 1 + j, hub.at(i, j)); if (i != split) g.set(0, 1 + i, 1); } for (int x = 0; x < extra; ++x) g.set(1 + (at + (x == 4)) % 3, 4 + x, 2);
        if (!g.connected()) continue; for (int d = 2; d <= (th ? 4 : 3); ++d) if (!seqs(emit, g.str(), g, 4, { 1 }, d, false, g.str())) { stop = true; break; } } return !stop; }); if (stop) return; }
    UPDOWN = false;
    // every pair of vertices of every small cactus is joined, then the minimum cut is raised once or twice
    if (!cacti([&](const WG& g) { for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) for (const char* t : { " R0", " R1", " R2", " R3", " R0 R0" }) { if (g.n > 7 && !th && (t[2] == '1' || t[3])) continue; std::ostringstream q; q << g.str() << " +" << (i + j) % 2 * (j - i) + i << ',' << (i + j) % 2 * (i - j) + j << ",1" << t; if (!emit(q.str())) return false; } return true; }, WG(1), 0, th ? 6 : 5, th ? 10 : 9, 4)) return;
    for (auto& g : iso_classes(4, 2)) for (auto& p : labelings(4, 2)) { if (!go(g.perm(p), 4, { 1 }, th ? 5 : 4, false)) return; if (!go(g.perm(p), 4, { 1 }, th ? 4 : 3, true)) return; }
    for (auto& g : iso_classes(5, 2)) for (auto& p : labelings(5, th ? 6 : 2)) if (!go(g.perm(p), 5, { 1 }, th ? 4 : 3, false)) return;
    for (int n : { 6, 7, 8 }) for (Str k : { "cycle", "path", "star", "wheel", "ladder" }) { WG g = named(k, n, 1); if (!go(g, n, { 1 }, n < 8 || th ? 3 : 2, false)) return; if (!go(named(k, n, 2), n, { 1, 3 }, 2, false)) return; }
    // long histories on few vertices: delete / insert chains that move the cut value up and down and restore cached states
    for (int n : { 5, 6, 7, 8, 9 }) for (Str k : { "cycle", "path", "star" }) { WG g = named(k, n, 1); if (!go(g, 3, { 1, 2 }, th ? 7 : 6, false)) return; }
    for (int n : { 7, 8, 9 }) for (int c = 0; c < n; ++c) for (int q = 2; q < n - 1; ++q) { WG g = named("cycle", n, 1); g.set(c, (c + q) % n, 1); if (c > (c + q) % n) continue; if (!seqs(emit, g.str(), g, 4, { 1 }, th ? 5 : 4, false, g.str())) return; }
    // a cactus vertex of high degree
    for (int n : { 100, 102, 104 }) { WG g = named("star", n, 1); Str nm = "star-" + std::to_string(n); if (!seqs(emit, nm, g, 4, { 1 }, 3, false, nm)) return; }
    for (Str s : { "star-112 F1,11,1", "star-120 F1,13,1 F13,25,1 -0,5 +0,5,1", "star-104 -0,1 +0,1,1 +1,2,1 -1,2", "cycle-104 +0,52,1 -0,1 +0,1,1 +3,60,1" }) if (!emit(s)) return;
    // more insertions than the cache records
    for (int n : { 46, 47, 48, 60 }) for (Str tail : { "+0,1,2", "+0,1,2 -0,1", "+0,1,1 +0,2,1 -0,2" }) { std::ostringstream s; s << "cycle-" << n << " -0,1 F1," << n - 1 << ",1 " << tail; if (!emit(s.str())) return; std::ostringstream q; q << "cycle-" << n << "-2 -0,1 -0," << n - 1 << " +0,1,1 F1," << n << ",1 -0,1 " << tail; if (!emit(q.str())) return; }
}
int main(int c, char** v) {
    vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[3] = "transitions";
    return vh::main_(c, v, enumerate, run);
}
