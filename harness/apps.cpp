// Whole command line programs (C31): -DAPP=<n> selects the program, its main runs in a child process with a scratch directory.
#include "vh.hpp"
#define A_MINCUT 1
#define A_MT 2
#define A_KCORE 3
#define A_CC 4
#define A_TCC 5
#define A_DYN 6
#define A_CONTRACT 7
#if APP == A_MT
#include "mpi_sim.hpp"
#define SIM_RESET mpisim::reset(1)
#else
#define SIM_RESET
#endif
#if APP == A_MINCUT
#include "mincut.cpp"
#elif APP == A_MT
#include "multiterminal_cut.cpp"
#elif APP == A_KCORE
#include "kcore.cpp"
#elif APP == A_CC
#include "largest_cc.cpp"
#elif APP == A_TCC
#include "temporal_largest_cc.cpp"
#elif APP == A_DYN
#include "dynamic_mincut.cpp"
#elif APP == A_CONTRACT
#include "mincut_contract.cpp"
#endif
#include "app_run.hpp"
#if APP == A_MINCUT
// The cactus in a GraphML file (read back into a mutable graph).
static Str read_cactus(const Str& f, int n, mutableGraphPtr* C) {
    bool ok; Str s = slurp(cwd() + "/" + f, &ok); if (!ok) return "no file " + f; std::vector<std::vector<NodeID> > cont; std::vector<std::tuple<int, int, uint64_t> > ed; std::set<Str> ids; size_t p = 0; if (s.find("<graphml") == Str::npos || s.find("</graphml>") == Str::npos || s.find("edgedefault=\"undirected\"") == Str::npos) return "no GraphML file";
    auto attr = [&](size_t at, const Str& a) -> Str { size_t e = s.find('>', at), q = s.find(" " + a + "=\"", at); if (q == Str::npos || q > e) return "?"; q += a.size() + 3; return s.substr(q, s.find('"', q) - q); }; auto data = [&](size_t at, const Str& key) -> Str { Str t = "<data key=\"" + key + "\">"; size_t q = s.find(t, at); if (q == Str::npos) return "?"; q += t.size(); return s.substr(q, s.find('<', q) - q); };
    while ((p = s.find("<node ", p)) != Str::npos) { Str id = attr(p, "id"); if (id != to_string(cont.size())) return "node ids are not consecutive: " + id; std::istringstream is(data(p, "containedVertices")); Str t; cont.push_back({}); while (std::getline(is, t, ',')) { if (t.empty() || t.find_first_not_of("0123456789") != Str::npos) return "contained vertex '" + t + "'"; cont.back().push_back(std::stoul(t)); } ++p; } p = 0;
    while ((p = s.find("<edge ", p)) != Str::npos) { int a = atoi(attr(p, "source").c_str()), b = atoi(attr(p, "target").c_str()); if (a < 0 || b < 0 || a >= (int)cont.size() || b >= (int)cont.size() || a == b) return "bad edge"; if (!ids.insert(attr(p, "id")).second) return "edge id " + attr(p, "id") + " twice"; ed.emplace_back(a, b, strtoull(data(p, "weight").c_str(), 0, 10)); ++p; }
    *C = std::make_shared<mutable_graph>(); (*C)->start_construction(cont.size()); for (auto [a, b, w] : ed) (*C)->new_edge_order(a, b, w); (*C)->finish_construction(); (*C)->setOriginalNodes(n); for (size_t i = 0; i < cont.size(); ++i) { (*C)->setContainedVertices(i, cont[i]); for (NodeID v : cont[i]) if (v < (NodeID)n) (*C)->setCurrentPosition(v, i); } return ""; }
static Str check(const WG& g, const Strs& a) {
    write_graph(g, "g.metis"); Out o = launch(a); Str algo; for (Str x : { "noi", "vc", "pr", "matula", "ks", "cactus", "exact", "inexact" }) if (has(a, x)) algo = x; std::vector<uint32_t> all; uint64_t lambda = brute_mincut(g, &all); if (all.size() > 1) vh::count(1); Str e = died(o); if (!e.empty()) return e;
    size_t iters = std::stoul(after(a, "-i", "1")); size_t procs = std::max<size_t>(1, std::count(a.begin(), a.end(), Str("-p"))); if (o.results.size() != iters * procs) return to_string(o.results.size()) + " result lines"; uint64_t val = 0, m = 0; for (auto w : g.w) m += w != 0;
    for (auto& r : o.results) { if (r["n"] != to_string(g.n) || r["m"] != to_string(m)) return "reports n=" + r["n"] + " m=" + r["m"]; if (r["graph"] != "g.metis") return "reports graph=" + r["graph"]; Str q = after(a, "-q", "default"); if (r["algo"].find(q) == Str::npos || r["algo"].find(algo) == Str::npos) return "reports algo=" + r["algo"]; val = strtoull(r["cut"].c_str(), 0, 10);
        if (algo == "vc" || algo == "pr" || algo == "ks" || algo == "matula" || algo == "inexact") { bool is = false; for (uint32_t s = 1; s < (1u << (g.n - 1)) && !is; ++s) { std::vector<int> t(g.n, 0); for (int i = 0; i + 1 < g.n; ++i) t[i + 1] = s >> i & 1; is = side_weight(g, t) == val; } if (!is) return "reports " + to_string(val) + ", which no cut weighs"; if (algo == "matula" && val > 2 * lambda + (lambda > 0)) return "reports " + to_string(val) + ", minimum is " + to_string(lambda); }
        if (algo == "noi" || algo == "exact" || algo == "cactus" || algo == "vc" || algo == "inexact") if (val != lambda) return "reports " + to_string(val) + ", minimum is " + to_string(lambda); }
    Str of = after(a, "-o"); if (!of.empty() && !(lambda == 0 && algo == "cactus")) { std::vector<int> s; e = read_side(of, g.n, &s); if (!e.empty()) return e; uint64_t w = side_weight(g, s); if (w != val) return "written cut weighs " + to_string(w) + ", reported " + to_string(val);
        if (has(a, "-b") || has(a, "-d")) { auto d = degrees(g); double best = -1, mine = 0; auto score = [&](uint32_t mask) -> double { int c = __builtin_popcount(mask); uint64_t v = 0, t = 0; for (int i = 0; i < g.n; ++i) t += d[i], v += mask >> i & 1 ? d[i] : 0; return has(a, "-d") ? (double)std::min(v, t - v) : (double)std::min(c, g.n - c); }; for (auto x : all) best = std::max(best, score(x)); uint32_t k = 0; for (int i = 0; i < g.n; ++i) if (s[i]) k |= 1u << i; mine = score(k); if (mine != best) return "written cut has smaller side " + to_string(mine) + ", best is " + to_string(best); } }
    Str tf = after(a, "-t"); if (!tf.empty() && lambda > 0) { mutableGraphPtr C; e = read_cactus(tf, g.n, &C); if (!e.empty()) return "cactus file: " + e; std::set<uint32_t> got, want; e = cactus_cuts(C, g.n, lambda, &got); if (!e.empty()) return "cactus file: " + e; for (auto x : all) want.insert(x & 1 ? ((1u << g.n) - 1) & ~x : x); if (got != want) return "cactus file has " + to_string(got.size()) + " minimum cuts, graph has " + to_string(want.size()); }
    return ""; }
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) {
    Strs algos = PAR ? Strs{ "exact", "inexact", "cactus" } : Strs{ "noi", "vc", "pr", "matula", "ks", "cactus" };
    for (auto& al : algos) { for (Str x : { "", "-s -o c.txt", "-q heap -l -s -o c.txt -i 2", "-q bstack -i 3 -r 5", "-l -s -q bqueue -r 3 -o c.txt" }) em("g.metis " + al + " " + x); if (PAR) em("g.metis " + al + " -p 1 -p 1 -s -o c.txt -i 2");
        if (al == "cactus") for (Str x : { "-s -b -o c.txt", "-s -d -o c.txt", "-b -s -i 2 -o c.txt", "-t c.xml", "-s -b -o c.txt -t c.xml", "-s -t c.xml -e random", "-s -t c.xml -e heavy", "-t c.xml -e central -r 7 -i 2" }) em("g.metis cactus " + x); } }
#elif APP == A_MT
static uint64_t opt(const WG& g, const std::vector<int>& fix, int k) { std::vector<int> a(g.n); uint64_t best = ~0ull; std::function<void(int, uint64_t)> rec = [&](int v, uint64_t c) { if (c >= best) return; if (v == g.n) { best = c; return; } for (int b = fix[v] < 0 ? 0 : fix[v]; b < (fix[v] < 0 ? k : fix[v] + 1); ++b) { uint64_t x = 0; for (int u = 0; u < v; ++u) if (a[u] != b) x += g.at(u, v); a[v] = b; rec(v + 1, c + x); } }; rec(0, 0); return best; }
static Str check(const WG& g, const Strs& a) {
    write_graph(g, "g.metis"); std::vector<int> fix(g.n, -1); int k = 0; for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == "-t") fix[std::stoi(a[i + 1])] = k++;
    Strs b = a; for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == "-f") { std::istringstream is(a[i + 1]); Str t; std::getline(is, t, ':'); k = std::stoi(t); Str name = "part." + t + ".pre"; std::ofstream f(cwd() + "/" + name); int v = 0; while (std::getline(is, t, ',')) { f << t << "\n"; if (std::stoi(t) < k) fix[v] = std::stoi(t); ++v; } b[i + 1] = name; }
    if (has(a, "-k")) { k = std::stoi(after(a, "-k")); auto d = degrees(g); std::vector<int> o(g.n); std::iota(o.begin(), o.end(), 0); std::sort(o.begin(), o.end(), [&](int x, int y) { return d[x] > d[y]; }); if (k < g.n && d[o[k]] == d[o[k - 1]]) return ""; for (int i = 0; i < k; ++i) fix[o[i]] = i; }
    Out o = launch(b); Str e = died(o); if (!e.empty()) return e; if (o.results.size() != 1) return "no result line"; uint64_t val = strtoull(o.results[0]["cut"].c_str(), 0, 10), best = opt(g, fix, k); if (o.results[0]["terminals"] != to_string(k)) return "reports terminals=" + o.results[0]["terminals"]; if (best) vh::count(1); if (val != best) return "reports " + to_string(val) + ", minimum is " + to_string(best);
    if (has(a, "-w")) { std::istringstream is(slurp(cwd() + "/solution")); std::vector<int> s; int x; while (is >> x) s.push_back(x); if ((int)s.size() != g.n) return "solution has " + to_string(s.size()) + " lines"; for (int v = 0; v < g.n; ++v) if (s[v] < 0 || s[v] >= k || (!has(a, "-k") && fix[v] >= 0 && fix[v] != s[v])) return "solution puts vertex " + to_string(v) + " into block " + to_string(s[v]); if (has(a, "-k")) { std::set<int> q; for (int v = 0; v < g.n; ++v) if (fix[v] >= 0) q.insert(s[v]); if ((int)q.size() != k) return "solution does not separate the terminals"; } uint64_t w = side_weight(g, s); if (w != val) return "written solution weighs " + to_string(w) + ", reported " + to_string(val); }
    return ""; }
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) { int n = g.n; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { Str t = "g.metis -d -p 1 -t " + to_string(j) + " -t " + to_string(i); em(t + " -w"); for (int l = j + 1; l < n; ++l) em("g.metis -d -p 1 -w -t " + to_string(i) + " -t " + to_string(l) + " -t " + to_string(j) + (l % 2 ? " -e heavy_global -q lower_bound" : "")); }
    for (int k = 2; k <= std::min(n, 3); ++k) em("g.metis -d -p 1 -w -k " + to_string(k)); if (n <= 4) { std::vector<int> f(n, 0); while (true) { Str t = "g.metis -d -p 1 -w -f 2:"; int u = 0; for (int v = 0; v < n; ++v) t += (v ? "," : "") + to_string(f[v]), u |= 1 << f[v]; if ((u & 3) == 3) em(t); int i = 0; while (i < n && ++f[i] > 2) f[i++] = 0; if (i == n) break; } } }
#elif APP == A_KCORE || APP == A_CC
// largest components of the vertices in `in`
static std::vector<WG> largest(const WG& g, std::vector<int> in) { std::vector<std::vector<int> > cs; std::vector<int> seen(g.n, 0); for (int i : in) if (!seen[i]) { std::vector<int> st{ i }, c; seen[i] = 1; while (st.size()) { int v = st.back(); st.pop_back(); c.push_back(v); for (int u : in) if (!seen[u] && g.at(u, v)) seen[u] = 1, st.push_back(u); } cs.push_back(c); } size_t m = 0; for (auto& c : cs) m = std::max(m, c.size()); std::vector<WG> r; for (auto& c : cs) if (c.size() == m) { std::sort(c.begin(), c.end()); WG h(m); for (size_t x = 0; x < m; ++x) for (size_t y = x + 1; y < m; ++y) h.set(x, y, g.at(c[x], c[y])); r.push_back(h); } return r; }
static WG ones(WG g) { for (auto& w : g.w) w = w ? 1 : 0; return g; }
static Str file_is(const Str& f, const std::vector<WG>& want, bool weights) { bool ok; slurp(cwd() + "/" + f, &ok); if (!ok) return "no file " + f; auto G = graph_io::readGraphWeighted<graph_access>(cwd() + "/" + f); Str e; WG h = view(G, &e); if (!e.empty()) return f + ": " + e; Str c = canon(h); for (auto& w : want) if (canon(weights ? w : ones(w)) == c) return ""; return f + " contains " + h.str(); }
static Str check(const WG& g, const Strs& a) {
    write_graph(g, "g.metis"); Out o = launch(a); Str e = died(o); std::vector<int> all(g.n); std::iota(all.begin(), all.end(), 0);
#if APP == A_CC
    if (!e.empty()) return e; auto l = largest(g, all); if (l[0].n < g.n && l[0].n > 1) vh::count(1); return file_is("g.cc", l, has(a, "-w"));
#else
    if (!e.empty()) return e; int maxcore = 0; auto core = [&](int k) { std::vector<int> in = all; for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < in.size(); ++i) { int d = 0; for (int u : in) d += g.at(u, in[i]) != 0; if (d < k) { in.erase(in.begin() + i); ch = true; break; } } } return in; }; while (core(maxcore + 1).size()) ++maxcore;
    std::vector<int> ks; for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == "-k") ks.push_back(std::stoi(a[i + 1])); if (has(a, "-l")) for (int k = 2; k < maxcore; ++k) if (k == 2 || core(k).size() != core(k - 1).size()) ks.push_back(k); std::set<int> written; bool done = false;
    for (int k : ks) { Str f = "g.metis_core_" + to_string(k); bool exists; slurp(cwd() + "/" + f, &exists); auto in = core(k); if (done) { if (exists) return f + " was written after the lowest core"; continue; } if (in.empty()) { if (exists) return f + " was written although the core is empty"; continue; } auto l = largest(g, in); if (l[0].n > 1 && (int)in.size() < g.n) vh::count(1); std::vector<WG> ok; bool may = false, must = true;
        for (auto& h : l) { auto d = degrees(h); uint64_t mind = *std::min_element(d.begin(), d.end()); if (has(a, "-c") ? mind > 0 : h.n > 1 && brute_mincut(h) < mind) may = true, ok.push_back(h); else must = false; } if (exists && !may) return f + " was written"; if (!exists && must) return f + " was not written"; if (exists) { e = file_is(f, ok, false); if (!e.empty()) return e; if (has(a, "-l")) done = true; } }
    return "";
#endif
}
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) {
#if APP == A_CC
    em("g.metis"); em("g.metis -w");
#else
    bool one = true; for (auto w : g.w) one &= w < 2; for (Str x : { "-c -k 1 -k 2", "-c -k 3 -k 2 -k 4", "-k 1", "-k 2 -k 3" }) if (one || x[1] == 'c') em("g.metis " + x); if (!one) return; int d = 0; auto has3 = [&]() { WG h = ones(g); std::vector<int> in(g.n); std::iota(in.begin(), in.end(), 0); for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < in.size(); ++i) { d = 0; for (int u : in) d += h.at(u, in[i]); if (d < 3) { in.erase(in.begin() + i); ch = true; break; } } } return !in.empty(); }; if (has3()) em("g.metis -l");
#endif
}
#elif APP == A_DYN
static Str check(const WG& g, const Strs& a) {   // operations are the arguments behind --
    Strs b; std::ofstream f; WG h = g; uint64_t prev = brute_mincut(g), ch = 0; size_t i = 0; while (i < a.size() && a[i] != "--") b.push_back(a[i++]); write_graph(g, "g.metis"); { std::ofstream f(cwd() + "/d.txt"); int t = 5; for (++i; i < a.size(); ++i) { int u, v, w = 0; sscanf(a[i].c_str() + 1, "%d,%d,%d", &u, &v, &w); if (a[i][0] == '-') w = -1; f << u + 1 << " " << v + 1 << " " << (w < 0 ? "-1" : "+" + to_string(w)) << " " << t << "\n"; t += 3; h.set(u, v, w < 0 ? 0 : w); uint64_t c = brute_mincut(h); ch += c != prev; prev = c; } }
    Out o = launch(b); Str e = died(o); if (!e.empty()) return e; if (o.results.size() != 1) return "no result line"; if (ch) vh::count(1); if (o.results[0]["cutchange"] != to_string(ch)) return "reports cutchange=" + o.results[0]["cutchange"] + ", the minimum cut changed " + to_string(ch) + " times"; if (o.results[0]["n"] != to_string(g.n)) return "reports n=" + o.results[0]["n"];
    if (!has(b, "-s")) { auto p = o.text.rfind(" c "); if (p == Str::npos || strtoull(o.text.c_str() + p + 3, 0, 10) != prev) return "final cut is not " + to_string(prev) + ": " + tail(o.text); } return ""; }
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) { int n = g.n; int depth = n <= 3 ? 4 : n == 4 ? 2 : 1; std::function<void(const WG&, const Str&, int)> rec = [&](const WG& h, const Str& s, int d) { if (!s.empty()) for (Str o : { "", "-s ", "-s -b " }) if (d == 0 || o == "") em("-i g.metis -d d.txt " + o + "--" + s); if (!d) return; for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) { WG k = h; Str a = (u + v) % 2 ? to_string(u) + "," + to_string(v) : to_string(v) + "," + to_string(u); if (h.at(u, v)) k.set(u, v, 0), rec(k, s + " -" + a, d - 1); else { int w = 1 + (u + d) % 2; k.set(u, v, w); rec(k, s + " +" + a + "," + to_string(w), d - 1); } } }; rec(g, "", depth); }
#elif APP == A_TCC
static Str check(const WG& g, const Strs& a) {   // edges of the file are the arguments: u,v,w,t
    int n = 0; std::vector<std::array<int, 4> > ed; for (auto& s : a) { std::array<int, 4> e; sscanf(s.c_str(), "%d,%d,%d,%d", &e[0], &e[1], &e[2], &e[3]); ed.push_back(e); n = std::max(n, std::max(e[0], e[1]) + 1); } { std::ofstream f(cwd() + "/t.txt"); for (auto& e : ed) f << e[0] + 1 << " " << e[1] + 1 << " " << e[2] << " " << e[3] << "\n"; }
    Out o = launch({ "t.txt" }); Str e = died(o); if (!e.empty()) return e; bool ok; std::istringstream is(slurp(cwd() + "/t.txt.cc", &ok)); if (!ok) return "no output file"; std::vector<std::array<long, 4> > got; std::array<long, 4> x; while (is >> x[0] >> x[1] >> x[2] >> x[3]) got.push_back(x);
    std::stable_sort(ed.begin(), ed.end(), [](auto& p, auto& q) { return p[3] < q[3]; }); std::vector<int> c(n); std::iota(c.begin(), c.end(), 0); for (bool ch = true; ch;) { ch = false; for (auto& q : ed) if (c[q[0]] != c[q[1]]) { c[q[0]] = c[q[1]] = std::min(c[q[0]], c[q[1]]); ch = true; } } std::map<int, int> size; for (int v = 0; v < n; ++v) size[c[v]]++; int mx = 0; for (auto& p : size) mx = std::max(mx, p.second); if (size.size() > 1) vh::count(1);
    for (auto& p : size) if (p.second == mx) { std::vector<int> id(n, 0); int k = 0; for (int v = 0; v < n; ++v) if (c[v] == p.first) id[v] = ++k; std::vector<std::array<long, 4> > want; for (auto& q : ed) if (c[q[0]] == p.first) want.push_back({ id[q[0]], id[q[1]], q[2], q[3] }); if (want == got) return ""; } return "written edges are not those of a largest component"; }
static void args(const WG&, bool, std::function<bool(const Str&)>) { }
#elif APP == A_CONTRACT
static Str check(const WG& g, const Strs& a) {
    write_graph(g, "g.metis"); Out o = launch(a); Str e = died(o); if (!e.empty()) return e + " " + tail(o.text); uint64_t lambda = brute_mincut(g); double c = atof(after(a, "-c", "0").c_str()); size_t it = std::stoul(after(a, "-i", "1")); if (o.results.size() != it) return to_string(o.results.size()) + " result lines"; uint64_t val = 0;
    for (auto& r : o.results) { val = strtoull(r["cut"].c_str(), 0, 10); bool exact = has(a, "noi") || has(a, "exact"), is = false; if (exact && c == 0 && val != lambda) return "reports " + to_string(val) + ", minimum is " + to_string(lambda); for (uint32_t s = 1; s < (1u << (g.n - 1)) && !is; ++s) { std::vector<int> t(g.n, 0); for (int i = 0; i + 1 < g.n; ++i) t[i + 1] = s >> i & 1; is = side_weight(g, t) == val; } if (!is) return "reports " + to_string(val) + ", which no cut weighs"; if (val != lambda) vh::count(1); }
    if (has(a, "-s")) { std::vector<int> s; e = read_side("g.metis.cut", g.n, &s); if (!e.empty()) return e; uint64_t w = side_weight(g, s); if (w != val) return "written cut weighs " + to_string(w) + ", reported " + to_string(val); } return ""; }
static void args(const WG& g, bool th, std::function<bool(const Str&)> em) { auto d = degrees(g); if (*std::min_element(d.begin(), d.end()) == 0) return; for (Str al : PAR ? Strs{ "exact", "inexact" } : Strs{ "noi", "vc", "pr", "matula", "ks" }) for (Str c : { "0", "0.3", "0.6" }) em("g.metis " + al + " -c " + c + (c == "0.3" ? " -i 2" : "") + " -s"); }
#endif
static Str run(const Str& spec) { std::istringstream is(spec); Str gs, t; is >> gs; Strs a; while (is >> t) a.push_back(t); clean(); vh::count(0); return check(gs == "-" ? WG(1) : WG::parse(gs), a); }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", stop = false; auto go = [&](const WG& g) { bool huge = g.n && *std::max_element(g.w.begin(), g.w.end()) > 1000000; args(g, th, [&](const Str& s) { if (huge && (APP == A_DYN || s.find(" cactus") != Str::npos || s.find(" bqueue") != Str::npos || s.find(" bstack") != Str::npos)) return true; /* buckets for every value */ if (!stop && !emit(g.str() + " " + s)) stop = true; return !stop; }); return !stop; };
#if APP == A_TCC
    Strs pool; int n = th ? 6 : 5; for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) pool.push_back(to_string((u + v) % 2 ? u : v) + "," + to_string((u + v) % 2 ? v : u) + "," + to_string(1 + (u + v) % 3) + "," + to_string(5 + (u * v) % 3)); for (uint32_t m = 1; m < (1u << pool.size()) && !stop; ++m) { Str s = "-"; for (size_t i = 0; i < pool.size(); ++i) if (m >> i & 1) s += " " + pool[i]; if (!emit(s)) stop = true; } return;
#endif
    for (int n = 2; n <= 3; ++n) all_labelled(n, { 0, 1, 2 }, go); if (!stop) all_labelled(4, APP == A_DYN ? std::vector<uint64_t>{ 0, 1 } : std::vector<uint64_t>{ 0, 1, 3 }, go); if (stop) return;
    for (auto& g : iso_classes(5, 2)) for (auto& q : labelings(5, th ? 12 : 2)) { WG h = g.perm(q); if (!go(h)) return; int i = 0; for (auto& w : h.w) if (w) w = 1 + (i++ * 3) % 4; if (!go(h)) return; }
    for (auto& g : iso_classes(6, 2)) for (auto& q : labelings(6, th ? 4 : 1)) if (!go(g.perm(q))) return;
    for (Str k : { "cycle", "path", "star", "wheel", "ladder" }) for (int n : { 7, 8 }) { WG g = named(k, n, 2); if (g.n && g.connected() && !go(g)) return; } { WG g(4); g.set(0, 1, 4294967297ull); g.set(1, 2, 4294967296ull); g.set(2, 3, 2147483648ull); g.set(0, 3, 4294967295ull); go(g); }
}
#include "app_main.hpp"
