// Graph generators and experiment programs (C32): -DAPP=<n> selects the program, its main runs in a child process with a
// scratch directory. Random decisions of the child are choice points: every one of the first ones is varied.
#include "vh.hpp"
#define P_TORUS 1
#define P_WEIGHT 2
#define P_HEAVY 3
#define P_REC 4
#define P_BAL 5
#define P_AUG 6
#define P_DEC 7
#define P_STATIC 8
#define SIM_RESET
#if APP == P_TORUS
#include "gnp_torus.cpp"
#elif APP == P_WEIGHT
#include "make_graph_weighted.cpp"
#elif APP == P_HEAVY
#include "mincut_heavy.cpp"
#elif APP == P_REC
#include "mincut_recursive.cpp"
#elif APP == P_BAL
#include "balanced_small_cut.cpp"
#elif APP == P_AUG
#include "create_augment_edges.cpp"
#elif APP == P_DEC
#include "decremental_gnp.cpp"
#elif APP == P_STATIC
#include "dynmc_from_static.cpp"
#endif
#include "app_run.hpp"
typedef unsigned long ul;
// An independent reader of weighted METIS files; every edge has to be listed at both ends with the same weight, once.
static Str read_metis(const Str& f, WG* g, bool dups = false) {
    bool ok; std::istringstream is(slurp(cwd() + "/" + f, &ok)); if (!ok) return "no file " + f; Str l; std::getline(is, l); std::istringstream h(l); long n, m; int fmt = 0; if (!(h >> n >> m) || n < 0 || n > 400) return f + ": header '" + l + "'"; h >> fmt; *g = WG(n); std::vector<std::vector<uint64_t> > a(n, std::vector<uint64_t>(n, 0)); long cnt = 0;
    for (int v = 0; v < n; ++v) { if (!std::getline(is, l)) return f + ": line of vertex " + to_string(v) + " is missing"; std::istringstream ls(l); uint64_t t, w = 1; while (ls >> t) { if (fmt && !(ls >> w)) return f + ": weight is missing"; if (t < 1 || t > (uint64_t)n) return f + ": edge to " + to_string(t) + " of " + to_string(n); if (t - 1 == (uint64_t)v) return f + ": self loop at " + to_string(v); if (!w) return f + ": edge of weight 0"; if (a[v][t - 1] && !dups) return f + ": edge twice"; a[v][t - 1] += w; ++cnt; } }
    while (std::getline(is, l)) if (!l.empty()) return f + ": more lines than vertices"; if (cnt != 2 * m) return f + ": header says " + to_string(m) + " edges, " + to_string(cnt) + " entries"; for (int v = 0; v < n; ++v) for (int u = 0; u < v; ++u) { if (a[u][v] != a[v][u]) return f + ": weight " + to_string(a[u][v]) + " one way, " + to_string(a[v][u]) + " the other"; if (a[u][v]) g->set(u, v, a[u][v]); } return ""; }
static WG plain(WG g) { for (auto& w : g.w) w = w ? 1 : 0; return g; }
// Runs fn for the choices of the child up to max_dev deviations.
static Str branch(std::function<Str()> fn, size_t dev, size_t points, size_t runs) { Str e; bool cap = false; size_t r = vrng::explore([&]() { e = fn(); if (!e.empty()) { e += " [choices"; for (auto c : vrng::src().prefix) e += " " + to_string(c); e += "]"; } return e.empty(); }, dev, points, runs, &cap); vh::count(3, r); if (cap) vh::count(2); return e; }
static std::vector<Str> lines(const Out& o) { std::vector<Str> r; std::istringstream is(o.text); Str l; while (std::getline(is, l)) r.push_back(l); return r; }
#if APP == P_TORUS
static Str check(const WG&, const Strs& a) {
    int N = std::stoi(after(a, "-n")), C = std::stoi(after(a, "-c")), B = std::stoi(after(a, "-b")); Str s = after(a, "-s", "0"), dir = after(a, "-o"); if (!dir.empty()) mkdir((cwd() + "/" + dir).c_str(), 0700); if (B > 1) vh::count(1); Str name = (dir.empty() ? "" : dir + "/") + Str("gnp_") + to_string(N) + "_" + to_string(B) + "_" + to_string(C) + "_" + s;
    Str r = branch([&]() -> Str { unlink((cwd() + "/" + name).c_str()); Out o = launch(a); Str e = died(o); if (!e.empty()) return e; if (to_string(trace()->seed) != s) return "seed is ignored"; WG g(1); e = read_metis(name, &g, B == 1); if (!e.empty()) return e; if (g.n != B * B * N) return to_string(g.n) + " vertices, expected " + to_string(B * B * N);
        if (B == 1) return ""; std::vector<std::vector<uint64_t> > w(B * B, std::vector<uint64_t>(B * B, 0)); for (int u = 0; u < g.n; ++u) for (int v = 0; v < u; ++v) { w[u / N][v / N] += g.at(u, v); if (u / N != v / N) w[v / N][u / N] += g.at(u, v); }
        std::vector<std::vector<uint64_t> > want(B * B, std::vector<uint64_t>(B * B, 0)); for (int i = 0; i < B * B; ++i) { int x = i % B, y = i / B; for (int j : { y * B + (x + 1) % B, ((y + 1) % B) * B + x }) want[i][j] += C, want[j][i] += C; }
        for (int i = 0; i < B * B; ++i) for (int j = 0; j < B * B; ++j) if (i != j && w[i][j] != want[i][j]) return "weight between blocks " + to_string(i) + " and " + to_string(j) + " is " + to_string(w[i][j]) + ", expected " + to_string(want[i][j]);
        for (int i = 0; i < B * B; ++i) if (w[i][i] > (uint64_t)N * (4 * C + 1)) return "block has too many edges"; if (N >= 8) for (int i = 0; i < B * B; ++i) if (w[i][i] * 2 < (uint64_t)N * (4 * C + 1)) return "block has " + to_string(w[i][i]) + " inner edges"; return ""; }, 1, 24, 3000);
    unlink((cwd() + "/" + name).c_str()); if (!dir.empty()) rmdir((cwd() + "/" + dir).c_str()); return r; }
#elif APP == P_WEIGHT
static Str check(const WG& g, const Strs& a) {   // g.metis o.metis min max multi
    write_graph(g, "g.metis"); uint64_t lo = std::stoul(a[2]), hi = std::stoul(a[3]), mu = std::stoul(a[4]); auto d = degrees(plain(g)); int n1 = 0, m = 0; for (auto x : d) n1 += x > 0, m += x; m /= 2; if (m > 1) vh::count(1);
    return branch([&]() -> Str { Out o = launch(a); Str e = died(o); if (!e.empty()) return e; if (a.size() > 6 && to_string(trace()->seed) != a[6]) return "seed is ignored"; WG h(1); e = read_metis("o.metis", &h); if (!e.empty()) return e; if (!(plain(h).w == plain(g).w)) return "the edges changed: " + h.str(); int heavy = 0; std::vector<int> hv(g.n, 0); for (int u = 0; u < g.n; ++u) for (int v = 0; v < u; ++v) if (uint64_t w = h.at(u, v)) { bool l = w >= lo && w <= hi, x = w % mu == 0 && w / mu >= lo && w / mu <= hi; if (!l && !x) return "weight " + to_string(w); if (!l) ++heavy, hv[u] = hv[v] = 1; else if (x) hv[u] = hv[v] = 1; }
        if (heavy > n1) return to_string(heavy) + " heavy edges"; for (int v = 0; v < g.n; ++v) if (d[v] && !hv[v]) return "no edge of vertex " + to_string(v) + " was multiplied"; return ""; }, 2, 12, 25); }
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) { em("g.metis o.metis 1 3 10 -s 1"); em("g.metis o.metis 2 2 5 -s 3"); em("g.metis o.metis 4 9 1 -s 3"); }
#elif APP == P_HEAVY
static Str check(const WG& g, const Strs& a) {
    write_graph(g, "g.metis"); Out o = launch(a); Str e = died(o); if (!e.empty()) return e; size_t it = std::stoul(after(a, "-i", "1")); if (o.results.size() != it) return to_string(o.results.size()) + " result lines"; auto d = degrees(g); uint64_t m = 0; for (auto w : g.w) m += w != 0; uint64_t val = 0;
    for (auto& r : o.results) { val = strtoull(r["cut"].c_str(), 0, 10); if (r["n"] != to_string(g.n) || r["graph"] != "g.metis") return "reports n=" + r["n"] + " graph=" + r["graph"]; }
    if (has(a, "-s")) { std::vector<int> s; e = read_side("g.metis.cut", g.n, &s); if (!e.empty() && e.find("one side") == Str::npos) return e; if (e.empty()) vh::count(1); uint64_t w = side_weight(g, s); if (w != val) return "written cut weighs " + to_string(w) + ", reported " + to_string(val);
        // the vertices below the degree bound are cut minimally (exact solvers), every other vertex joins the side with more of its neighbours among them
        auto so = d; std::sort(so.begin(), so.end()); double p = atof(after(a, "-c").c_str()); uint64_t bound = so[std::min<size_t>((double)g.n * p, g.n - 1)]; std::vector<int> L; for (int v = 0; v < g.n; ++v) if (d[v] < bound) L.push_back(v);
        if (L.size() > 1) { WG h(L.size()); uint64_t hw = 0; int ones = 0; for (size_t i = 0; i < L.size(); ++i) { ones += s[L[i]]; for (size_t j = i + 1; j < L.size(); ++j) { h.set(i, j, g.at(L[i], L[j])); if (s[L[i]] != s[L[j]]) hw += g.at(L[i], L[j]); } } uint64_t lam = brute_mincut(h); if (!ones || ones == (int)L.size()) return "the light vertices are not cut"; if (hw < lam || ((has(a, "noi") || has(a, "exact")) && hw != lam)) return "light vertices are cut with weight " + to_string(hw) + ", minimum is " + to_string(lam); }
        for (int v = 0; v < g.n; ++v) if (d[v] >= bound) { int in = 0, out = 0; for (int u : L) if (g.at(u, v)) (s[u] ? in : out)++; if (s[v] != (in >= out)) return "heavy vertex " + to_string(v) + " has " + to_string(in) + " neighbours inside, " + to_string(out) + " outside"; }
        Strs b = a; b.erase(std::find(b.begin(), b.end(), Str("-s"))); unlink((cwd() + "/g.metis.cut").c_str()); Out q = launch(b); e = died(q); if (!e.empty()) return "not saved: " + e; if (q.results.size() != it || q.results.back()["cut"] != to_string(val)) return "reports " + (q.results.empty() ? Str("nothing") : q.results.back()["cut"]) + " when the cut is not saved, " + to_string(val) + " otherwise"; bool ok; slurp(cwd() + "/g.metis.cut", &ok); if (ok) return "cut is written although this was not asked for"; }
    return ""; }
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) { for (Str al : PAR ? Strs{ "exact", "inexact" } : Strs{ "noi", "vc", "pr", "matula", "ks" }) for (Str c : { "0.9", "0.7", "0.5" }) em("g.metis " + al + " -c " + c + (c == "0.7" ? " -i 2" : "") + " -s"); }
#elif APP == P_BAL
static Str check(const WG& g, const Strs& a) {
    if (!g.connected()) return ""; write_graph(g, "g.metis");
    return branch([&]() -> Str { clean(); write_graph(g, "g.metis"); Out o = launch(a); Str e = died(o); if (!e.empty()) return e; std::vector<uint64_t> cuts; std::vector<std::pair<ul, ul> > next; for (auto& l : lines(o)) { ul x, y; if (sscanf(l.c_str(), "Minimum cut %lu", &x) == 1) cuts.push_back(x); if (sscanf(l.c_str(), "Next graph: G=(%lu,%lu)", &x, &y) == 2) next.emplace_back(x, y); }
        WG cur = g; if (cuts.empty() || cuts.size() != next.size()) return "no cut reported"; if (cuts.size() > 1) vh::count(1); uint64_t prev = 0; for (size_t i = 0; i < cuts.size(); ++i) { if (cur.n < 2) return "cut of a single vertex reported"; uint64_t want = brute_mincut(cur); if (cuts[i] != want) return "step " + to_string(i) + " reports " + to_string(cuts[i]) + ", minimum is " + to_string(want); if (cuts[i] < prev) return "cut decreases"; prev = cuts[i]; if (!has(a, "-o")) { if (i) return ""; cur = WG(2); cur = g; if (cuts.size() > 1) return ""; continue; }
            WG nx(1); e = read_metis("g.metis_" + to_string(i), &nx); if (!e.empty()) return e; uint64_t m = 0; for (auto w : nx.w) m += w != 0; if ((ul)nx.n != next[i].first) return "next graph has " + to_string(nx.n) + " vertices, reported " + to_string(next[i].first); if (nx.n >= cur.n) return "the graph did not shrink"; cur = nx; }
        if (has(a, "-o") && cur.n != 1) return "ends with " + to_string(cur.n) + " vertices"; return ""; }, 1, 4, 8); }
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) { em("g.metis -o"); em("g.metis -o -c"); em("g.metis"); }
#elif APP == P_REC
// blocks of the given sizes (stars of weight 50), joined at their centres by the edges of the top graph
static Str check(const WG& t, const Strs& a) {   // sizes, then options
    std::vector<int> size; std::istringstream is(a[0]); Str x; while (std::getline(is, x, ',')) size.push_back(std::stoi(x)); std::vector<int> first; int n = 0; for (int s : size) first.push_back(n), n += s; std::vector<std::vector<std::pair<int, uint64_t> > > adj(n); auto add = [&](int u, int v, uint64_t w) { adj[u].emplace_back(v, w); adj[v].emplace_back(u, w); }; uint64_t m = 0; for (int i = 0; i < t.n; ++i) for (int j = 1; j < size[i]; ++j) add(first[i], first[i] + j, 50), ++m; for (int i = 0; i < t.n; ++i) for (int j = i + 1; j < t.n; ++j) if (t.at(i, j)) add(first[i], first[j], t.at(i, j)), ++m;
    { std::ofstream f(cwd() + "/g.metis"); f << n << " " << m << " 1\n"; for (auto& l : adj) { for (auto [v, w] : l) f << v + 1 << " " << w << " "; f << "\n"; } }
    Strs b{ "g.metis" }; b.insert(b.end(), a.begin() + 1, a.end()); Out o = launch(b); Str e = died(o); if (!e.empty()) return e; std::vector<std::pair<ul, std::pair<ul, ul> > > got; ul cut = 0; for (auto& l : lines(o)) { ul p, q; if (sscanf(l.c_str(), "Minimum cut %lu", &p) == 1) cut = p; if (sscanf(l.c_str(), "Next graph: G=(%lu,%lu)", &p, &q) == 2) got.push_back({ cut, { p, q } }); }
    // the expected rounds: blocks that no minimum cut separates stay together, the largest such set goes on
    std::vector<int> cur(t.n); std::iota(cur.begin(), cur.end(), 0); size_t k = 0; while (true) { int tot = 0; for (int i : cur) tot += size[i]; if (tot <= 1000) break; if (k >= got.size()) return "stops with " + to_string(tot) + " vertices"; bool leaf = cur.size() == 1; uint64_t lam = 50; std::vector<int> best; int bs = 1; bool tie = false; std::vector<uint32_t> all;
        if (!leaf) { WG h(cur.size()); for (size_t i = 0; i < cur.size(); ++i) for (size_t j = i + 1; j < cur.size(); ++j) h.set(i, j, t.at(cur[i], cur[j])); lam = brute_mincut(h, &all); if (lam >= 50) return "bad spec"; std::vector<int> done(cur.size(), 0); bs = 0; for (size_t i = 0; i < cur.size(); ++i) if (!done[i]) { std::vector<int> c; int sz = 0; for (size_t j = i; j < cur.size(); ++j) { bool same = true; for (auto s : all) same &= (s >> i & 1) == (s >> j & 1); if (same) c.push_back(cur[j]), sz += size[cur[j]], done[j] = 1; } if (sz == bs) tie = true; if (sz > bs) bs = sz, best = c, tie = false; } if (tie) return ""; }
        if (got[k].first != lam) return "round " + to_string(k) + " reports " + to_string(got[k].first) + ", minimum is " + to_string(lam); std::vector<int> comp; ul ms = 0; int ns = 1; if (!leaf) { // largest component of the set
            std::vector<int> seen(best.size(), 0); ns = 0; tie = false; for (size_t i = 0; i < best.size(); ++i) if (!seen[i]) { std::vector<int> st{ (int)i }, c; seen[i] = 1; int sz = 0; while (st.size()) { int v = st.back(); st.pop_back(); c.push_back(best[v]); sz += size[best[v]]; for (size_t j = 0; j < best.size(); ++j) if (!seen[j] && t.at(best[v], best[j])) seen[j] = 1, st.push_back(j); } if (sz == ns) tie = true; if (sz > ns) ns = sz, comp = c, tie = false; } if (tie) return ""; for (size_t i = 0; i < comp.size(); ++i) { ms += size[comp[i]] - 1; for (size_t j = i + 1; j < comp.size(); ++j) ms += t.at(comp[i], comp[j]) != 0; } }
        if (got[k].second.first != (ul)ns || got[k].second.second != 2 * ms) return "round " + to_string(k) + " goes on with (" + to_string(got[k].second.first) + "," + to_string(got[k].second.second) + "), expected (" + to_string(ns) + "," + to_string(2 * ms) + ")";
        if (has(a, "-o")) { auto G = graph_io::readGraphWeighted<graph_access>(cwd() + "/g.metis_" + to_string(k)); if (G->number_of_nodes() != (NodeID)ns || G->number_of_edges() != 2 * ms) return "written graph has " + to_string(G->number_of_nodes()) + " vertices and " + to_string(G->number_of_edges()) + " edges"; std::vector<uint64_t> dg, dw; for (NodeID v : G->nodes()) dg.push_back(G->getWeightedNodeDegree(v)); for (int i : comp) for (int j = 0; j < size[i]; ++j) { uint64_t s = 0; for (auto [v, w] : adj[first[i] + j]) for (int q : comp) if (v >= first[q] && v < first[q] + size[q]) s += w; dw.push_back(s); } if (leaf) dw = { 0 }; std::sort(dg.begin(), dg.end()); std::sort(dw.begin(), dw.end()); if (dg != dw) return "written graph has other degrees"; }
        ++k; if (leaf) break; cur = comp; }
    if (k > 1) vh::count(1); if (k != got.size()) return to_string(got.size()) + " rounds, expected " + to_string(k); return ""; }
#elif APP == P_AUG
static Str check(const WG& g, const Strs& a) {
    size_t I = std::stoul(after(a, "-i", "0")), D = std::stoul(after(a, "-d", "0")); Str name = "g.metis." + to_string(I) + "." + to_string(D) + "." + after(a, "-r", "0"); vh::count(1);
    return branch([&]() -> Str { clean(); write_graph(g, "g.metis"); Out o = launch(a); Str e = died(o); if (D > I) return o.code ? "" : "deletes more edges than it inserts"; { int m = 0; for (auto w : g.w) m += w != 0; if ((int)I > g.n * (g.n - 1) / 2 - m) return o.code ? "" : "inserts more edges than fit"; } if (!e.empty()) return e; if (trace()->seed != 4) return "seed is ignored"; bool ok; std::istringstream is(slurp(cwd() + "/" + name, &ok)); if (!ok) return "no file " + name; Str l; std::set<std::pair<long, long> > ed, ins; for (int u = 0; u < g.n; ++u) for (int v = u + 1; v < g.n; ++v) if (g.at(u, v)) ed.insert({ u, v }); size_t i = 0, d = 0, t = 0;
        while (std::getline(is, l)) { long u, v, w, x; if (sscanf(l.c_str(), "%ld %ld %ld %ld", &u, &v, &w, &x) != 4) return "line '" + l + "'"; --u; --v; if (u < 0 || v < 0 || u >= g.n || v >= g.n || u == v) return "line '" + l + "'"; if ((size_t)x != t++) return "timestamp " + to_string(x) + " in line " + to_string(t - 1); auto p = std::make_pair(std::min(u, v), std::max(u, v)); if (w == 1) { if (!ed.insert(p).second) return "inserts an existing edge: " + l; ins.insert(p); ++i; } else if (w == -1) { if (!ins.erase(p)) return "deletes an edge that it did not insert: " + l; ed.erase(p); ++d; } else return "line '" + l + "'"; }
        if (i != I || d != D) return to_string(i) + " insertions and " + to_string(d) + " deletions"; return ""; }, 2, 10, 25); }
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) { int m = 0; for (auto w : g.w) m += w != 0; int free = g.n * (g.n - 1) / 2 - m; for (auto [i, d] : std::vector<std::pair<int, int> >{ { 1, 0 }, { 1, 1 }, { 2, 1 }, { 2, 2 }, { 3, 2 }, { 3, 0 }, { 1, 2 } }) if (i <= free + (d == 0)) em("g.metis -i " + to_string(i) + " -d " + to_string(d) + " -r 4"); }
#elif APP == P_DEC || APP == P_STATIC
// Value after every change as far as it is printed: (changes so far, cut).
static std::vector<std::pair<ul, ul> > changes(const Out& o, size_t total) { std::vector<std::pair<ul, ul> > r; for (auto& l : lines(o)) { ul x, y; double t;
#if APP == P_DEC
    if (sscanf(l.c_str(), "cut changed to %lu after %lf and %lu", &x, &t, &y) == 3) r.emplace_back(y, x);
#else
    if (sscanf(l.c_str(), "after %lu %lu", &x, &y) == 2) r.emplace_back(x, y); if (sscanf(l.c_str(), "at end, cut %lu", &y) == 1) r.emplace_back(total, y);
#endif
    } return r; }
static Str check(const WG& g, const Strs& a) {
    bool th = false; Strs b = a; b.push_back("-s"); auto num = [&](const char* o) -> size_t { double f = std::stod(after(a, o, "0")), m = 0; for (auto w : g.w) m += w != 0; return f >= 0.999 ? (size_t)f : (size_t)std::floor(f * (2 * m) * 0.5); }; size_t ins = APP == P_DEC ? 0 : num("-i"), rem = APP == P_DEC ? 1000 : num("-r"), tot = ins + rem; uint64_t lam = brute_mincut(g); (void)th;
    write_graph(g, "g.metis"); return branch([&]() -> Str { Out o = launch(a); Str e = died(o); if (!e.empty()) return e; auto tk = vrng::src().taken; auto ar = vrng::src().arity; vrng::src().lenient = true; Out s = launch(b); vrng::src().lenient = false; vrng::src().taken = tk; vrng::src().arity = ar; e = died(s); if (!e.empty()) return "static: " + e; if (trace()->seed != 3) return "seed is ignored"; auto x = changes(o, tot), y = changes(s, tot); auto str = [](const std::vector<std::pair<ul, ul> >& v) { Str r; for (auto& p : v) r += " " + to_string(p.second) + "@" + to_string(p.first); return r; }; if (x != y) return "dynamic algorithm:" + str(x) + ", static algorithm:" + str(y); if (x.size()) vh::count(1);
        if (x.size() && (APP == P_DEC || !rem) && x.back().second != lam) return "last cut is " + to_string(x.back().second) + ", minimum is " + to_string(lam); ul last = ~0ul; for (auto& p : x) { if (p.second == last) return "same cut reported as a change"; last = p.second; if (p.first > tot) return "change after " + to_string(p.first) + " of " + to_string(tot); } if (APP == P_DEC) { for (size_t i = 1; i < x.size(); ++i) if (x[i].second > x[i - 1].second) return "deletions increase the cut"; }
#if APP == P_STATIC
        for (auto* q : { &o, &s }) { if (q->results.size() != 1) return "no result line"; auto& r = q->results[0]; if (r["cutchange"] != to_string(x.size())) return "reports cutchange=" + r["cutchange"]; if (r["insert"] != to_string(ins) || r["delete"] != to_string(rem)) return "reports insert=" + r["insert"] + " delete=" + r["delete"]; bool done = false; for (auto& l : lines(*q)) done |= l == to_string(ins) + " " + to_string(rem); if (!done) return "not all changes were made"; uint64_t m = 0; for (auto w : g.w) m += w != 0; std::vector<ul> ms; for (auto& l : lines(*q)) if (!l.empty() && l.find_first_not_of("0123456789") == Str::npos) ms.push_back(std::stoul(l)); if (ms.size() < 2 || ms[0] != 2 * (m - ins) || ms.back() != 2 * (m - rem)) return "edges at start and end"; }
#endif
        return ""; }, 2, 10, 25); }
#if APP == P_DEC
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) { em("-i g.metis -e 1 -r 3"); em("-i g.metis -e 2 -r 3"); if (g.n >= 8) em("-i g.metis -e 7 -r 3"); }
#else
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) { auto d = degrees(plain(g)); int free = 0; for (int u = 0; u < g.n; ++u) for (int v = 0; v < u; ++v) free += g.at(u, v) && d[u] > 1 && d[v] > 1; for (auto [i, r] : std::vector<std::pair<int, int> >{ { 1, 0 }, { 2, 0 }, { 0, 1 }, { 0, 2 }, { 1, 1 }, { 3, 0 }, { 0, 3 }, { 2, 2 } }) if (i + r <= free && (g.n < 5 || (i + r) % 2 == 0 || i == 3)) em("-g g.metis -i " + to_string(i) + " -r " + to_string(r) + (i == r ? " -m" : "") + " -x 3");  if (free >= 4) for (Str q : { "-i 0.3", "-r 0.4", "-i 0.25 -r 1", "-i 1 -r 0.2" }) { int m = 0; for (auto w : g.w) m += w != 0; if (m * 2 / 5 + 1 <= free) em("-g g.metis " + q + " -x 3"); } }
#endif
#endif
static Str run(const Str& spec) { std::istringstream is(spec); Str gs, t; is >> gs; Strs a; while (is >> t) a.push_back(t); clean(); vh::count(0); return check(gs == "-" ? WG(1) : WG::parse(gs), a); }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", stop = false;
#if APP == P_TORUS
    for (int B : { 1, 2, 3, 4 }) for (int C = 0; C <= (th ? 5 : 3); ++C) for (int N : { 1, 2, 3, 5, 8, 12 }) if (!stop && B * B * N <= 150) { Str s = "- -n " + to_string(N) + " -c " + to_string(C) + " -b " + to_string(B) + " -s " + to_string(7 * C); if (!emit(s) || (C == 2 && !emit(s + " -o sub"))) stop = true; }
#elif APP == P_REC
    std::vector<Strs> pool{ { "1001", "3" }, { "4", "1200", "900" }, { "700", "350", "5", "80" }, { "2", "1005", "3", "4" }, { "600", "500", "450", "3" }, { "40", "60", "500", "1002" } }; for (auto& sz : pool) { Str s; for (auto& x : sz) s += (s.empty() ? "" : ",") + x; all_labelled(sz.size(), { 0, 1, 3 }, [&](const WG& g) { if (!g.connected()) return !stop; for (Str x : { "", " -o" }) if (!stop && !emit(g.str() + " " + s + x)) stop = true; return !stop; }); if (stop) return; }
#else
    auto go = [&](const WG& g) { if ((APP == P_DEC || APP == P_STATIC || APP == P_AUG || APP == P_HEAVY) && !g.connected()) return !stop; args(g, th, [&](const Str& s) { if (!stop && !emit(g.str() + " " + s)) stop = true; return !stop; }); return !stop; };
    for (int n = 2; n <= 3; ++n) all_labelled(n, { 0, 1, 2 }, go); if (!stop) all_labelled(4, { 0, 1, 3 }, go); if (stop) return;
    for (auto& g : iso_classes(5, 2)) for (auto& q : labelings(5, th ? 12 : 3)) { WG h = g.perm(q); if (!go(h)) return; int i = 0; for (auto& w : h.w) if (w) w = 1 + (i++ * 3) % 4; if (!go(h)) return; }
    for (auto& g : iso_classes(6, 2)) for (auto& q : labelings(6, th ? 4 : 1)) if (!go(g.perm(q))) return;
    for (Str k : { "cycle", "path", "star", "wheel", "ladder" }) for (int n : { 7, 8 }) { WG g = named(k, n, 2); if (g.n && g.connected() && !go(g)) return; }
    for (auto& g : iso_classes(7, 2)) { int m = 0; for (auto w : g.w) m += w != 0; if (m / 2 <= (th ? 10 : 8) && !go(g)) return; }
#endif
}
#include "app_main.hpp"
