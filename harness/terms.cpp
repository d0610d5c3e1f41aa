// Choice of the terminals of a multiterminal cut (C29): multiterminal_cut::setOriginalTerminals.
#include "vh.hpp"
#include "mpi_sim.hpp"
#include "vc_build.hpp"
#include "algorithms/multicut/multiterminal_cut.h"
typedef std::string Str; using std::to_string;
static const NodeID NONE = UNDEFINED_NODE; static Str DIR;
static Str seq(const std::vector<NodeID>& v) { Str s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + (x == NONE ? Str(".") : to_string(x)); return s + "]"; }
static std::vector<int> dist(const WG& g, const std::set<int>& src) { std::vector<int> d(g.n, -1), q; for (int s : src) d[s] = 0, q.push_back(s); for (size_t i = 0; i < q.size(); ++i) for (int u = 0; u < g.n; ++u) if (g.at(q[i], u) && d[u] < 0) d[u] = d[q[i]] + 1, q.push_back(u); return d; }
// Blocks around the terminals t (in this order): m maps vertices to blocks, each block of at most hi and, unless nothing is free, at least lo vertices.
static Str blocks(const WG& g, const std::vector<NodeID>& t, const std::vector<NodeID>& m, uint64_t lo, uint64_t hi) {
    for (size_t i = 0; i < t.size(); ++i) if (m[t[i]] != i) return "terminal " + to_string(i) + " (vertex " + to_string(t[i]) + ") is not in its own block";
    for (size_t i = 0; i < t.size(); ++i) { std::set<int> b; for (int v = 0; v < g.n; ++v) if (m[v] == i) b.insert(v); if (b.size() > hi) return "block " + to_string(i) + " has " + to_string(b.size()) + " vertices, at most " + to_string(hi) + " were asked for";
        WG h = g; for (int v = 0; v < g.n; ++v) for (int u = v + 1; u < g.n; ++u) if (!b.count(u) || !b.count(v)) h.set(v, u, 0); auto d = dist(h, { (int)t[i] }); for (int v : b) if (d[v] < 0) return "block " + to_string(i) + " is not connected";
        if (b.size() < lo) for (int v : b) for (int u = 0; u < g.n; ++u) if (g.at(u, v) && m[u] == NONE) return "block " + to_string(i) + " has only " + to_string(b.size()) + " vertices although a neighbour is free"; }
    for (int v = 0; v < g.n; ++v) if (m[v] != NONE && m[v] >= t.size()) return "vertex " + to_string(v) + " is in a block that does not exist"; return ""; }
static Str run(const Str& spec) {
    reset_config(); std::istringstream is(spec); Str gs, how; uint64_t k, b; double pct; is >> gs >> how >> k >> b >> pct; WG g = WG::parse(gs); auto cfg = configuration::getConfig(); uint64_t n = g.n; std::vector<Str> ids; Str x; while (is >> x) ids.push_back(x);
    std::vector<NodeID> want; if (how == "ids") for (auto& s : ids) { bool num = !s.empty() && s.size() < 9; for (char c : s) num &= c >= '0' && c <= '9'; if (num && std::stoul(s) < n) want.push_back(std::stoul(s)); }
    Str err; bool capped = false;
    auto once = [&]() -> Str {
        vh::count(0); reset_config(); cfg->bfs_size = b; cfg->preset_percentage = pct; if (how == "topk") cfg->top_k = k; if (how == "random") cfg->random_k = k; if (how == "distant") cfg->distant_terminals = k; if (how == "ids") cfg->term_strings = ids;
        if (how == "pre" || how == "pos") { cfg->partition_file = DIR + "/p" + to_string(getpid()) + "." + to_string(k) + (how == "pre" ? ".pre" : ""); std::ofstream f(cfg->partition_file); std::ofstream o; if (how == "pos") o.open(cfg->partition_file + ".pos"); for (auto& s : ids) { auto c = s.find('/'); f << s.substr(0, c) << "\n"; if (o.is_open()) o << s.substr(c + 1) << "\n"; } }
        auto G = build_mutable(g); multiterminal_cut mc; std::vector<NodeID> m = mc.setOriginalTerminals(G); { Str e; WG h = view(G, &e); if (!e.empty() || h.str() != g.str()) return "the graph was changed"; }
        if (how == "pre" || how == "pos") { unlink(cfg->partition_file.c_str()); unlink((cfg->partition_file + ".pos").c_str()); }
        if (m.size() != n) return "the result has " + to_string(m.size()) + " entries"; vh::outcome(vh::hash(spec + seq(m)));
        if (how == "pre" || how == "pos") { if (cfg->num_terminals != k) return "number of terminals is " + to_string(cfg->num_terminals); std::vector<NodeID> w(n, NONE); uint64_t sz = 1; if (pct > 0) sz = std::max<uint64_t>(1, (uint64_t)((n / k) * pct / 100));
            for (size_t v = 0; v < n; ++v) { auto c = ids[v].find('/'); uint64_t p = std::stoul(ids[v].substr(0, c)), o = c == Str::npos ? 0 : std::stoul(ids[v].substr(c + 1)); if (p < k && o <= sz) w[v] = p; } if (w != m) return "got " + seq(m) + ", the file says " + seq(w); if (std::set<NodeID>(w.begin(), w.end()).size() > 1) vh::count(1); return ""; }
        uint64_t kk = how == "ids" ? want.size() : k; if (cfg->num_terminals != kk) return to_string(cfg->num_terminals) + " terminals instead of " + to_string(kk); if (kk > 1) vh::count(1);
        uint64_t lo = std::max<uint64_t>(b, 1), hi = lo; if (pct > 0) { hi = std::max<uint64_t>(1, (uint64_t)(n * pct / (100 * kk))); lo = std::max<uint64_t>(1, (uint64_t)((n / kk) * pct / 100)); }
        if (how == "ids") return blocks(g, want, m, lo, hi);
        // recover the terminals from single-vertex blocks, or try every consistent choice
        std::vector<std::vector<NodeID> > in(kk); for (NodeID v = 0; v < n; ++v) if (m[v] != NONE) { if (m[v] >= kk) return "vertex " + to_string(v) + " is in block " + to_string(m[v]); in[m[v]].push_back(v); }
        std::vector<uint64_t> deg(n, 0); for (uint64_t v = 0; v < n; ++v) for (uint64_t u = 0; u < n; ++u) deg[v] += g.at(u, v); Str last = "no choice of terminals explains " + seq(m); bool ok = false; std::vector<NodeID> t;
        std::function<void(size_t)> rec = [&](size_t i) { if (ok) return; if (i == kk) {
                if (how == "topk") { std::set<NodeID> s(t.begin(), t.end()); uint64_t in_min = ~0ull, out_max = 0; for (NodeID v = 0; v < n; ++v) if (s.count(v)) in_min = std::min(in_min, deg[v]); else out_max = std::max(out_max, deg[v]); if (kk < n && out_max > in_min) return; }
                if (how == "distant") { bool any = false; for (uint64_t r = 0; r < n && !any; ++r) { std::set<int> s{ (int)r }; bool good = true; for (auto v : t) { auto d = dist(g, s); good &= d[v] == *std::max_element(d.begin(), d.end()); s.insert(v); } any |= good; } if (!any) return; }
                Str e = blocks(g, t, m, lo, hi); if (e.empty()) ok = true; else last = e; return; }
            for (auto v : in[i]) { t.push_back(v); rec(i + 1); t.pop_back(); } };

        for (size_t i = 0; i < kk; ++i) if (in[i].empty()) return "terminal " + to_string(i) + " has no vertex: " + seq(m);
        rec(0); return ok ? "" : last + " in " + seq(m); };
    if (how == "random" || how == "distant") { vrng::explore([&]() { vh::tick(); err = once(); return err.empty(); }, 3, 40, 20000, &capped); if (capped) vh::count(2); } else err = once();
    return err; }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", stop = false; auto em = [&](const Str& s) { if (!stop && !emit(s)) stop = true; return !stop; };
    auto modes = [&](const WG& g, bool conn) { int n = g.n; Str s = g.str(); for (int k = 1; k <= n; ++k) for (int b = 0; b <= n / k + 2; ++b) { Str t = " " + to_string(k) + " " + to_string(b) + " 0"; em(s + " topk" + t); if (k <= 3) em(s + " random" + t); if (conn && k < n) em(s + " distant" + t); }
        for (int k = 1; k <= std::min(n, 3); ++k) for (Str p : { "1", "20", "34", "50", "75", "100" }) { em(s + " topk " + to_string(k) + " 0 " + p); if (conn && k < n) em(s + " distant " + to_string(k) + " 0 " + p); } return !stop; };
    auto byid = [&](const WG& g, int maxk) { int n = g.n; std::vector<int> t; std::function<void()> rec = [&]() { if (stop) return; if (t.size()) { Str w; for (int v : t) w += " " + to_string(v); for (int b = 0; b <= n; ++b) em(g.str() + " ids 0 " + to_string(b) + " 0" + w); for (Str p : { "30", "60", "100" }) em(g.str() + " ids 0 0 " + p + w);
                Str bad; for (int v : t) bad += " " + to_string(n) + " " + to_string(v) + " x"; em(g.str() + " ids 0 2 0" + bad); } if ((int)t.size() == maxk) return; for (int v = 0; v < n; ++v) if (std::find(t.begin(), t.end(), v) == t.end()) { t.push_back(v); rec(); t.pop_back(); } }; rec(); return !stop; };
    auto files = [&](const WG& g, int maxk) { int n = g.n; for (int k = 2; k <= maxk; ++k) { std::vector<int> a(n, 0); while (!stop) { Str w; for (int v = 0; v < n; ++v) w += " " + to_string(a[v]); em(g.str() + " pre " + to_string(k) + " 0 0" + w);
                std::vector<int> ord(n); for (int rot = 0; rot < (th ? 3 : 2); ++rot) { std::vector<int> cnt(k + 1, 0); std::vector<int> os(n); for (int j = 0; j < n; ++j) { int v = rot == 0 ? j : rot == 1 ? n - 1 - j : (j * 2) % n; os[v] = ++cnt[a[v]]; } Str q; for (int v = 0; v < n; ++v) q += " " + to_string(a[v]) + "/" + to_string(os[v]); for (Str p : { "0", "50", "100" }) em(g.str() + " pos " + to_string(k) + " 0 " + p + q); }
                int i = 0; while (i < n && ++a[i] > k) a[i++] = 0; if (i == n) break; } } };
    for (int n = 1; n <= 4; ++n) all_labelled(n, { 0, 1, 2 }, [&](const WG& g) { if (!modes(g, g.connected())) return false; return n > 3 && g.m() % 2 ? true : byid(g, 3); });
    for (int n = 2; n <= 4; ++n) files(named("path", n, 1), 3); files(named("path", 5, 1), th ? 4 : 2);
    for (auto& g : iso_classes(5, th ? 3 : 2)) for (auto& q : labelings(5, th ? 6 : 2)) { if (!modes(g.perm(q), g.connected())) return; byid(g.perm(q), 2); } for (auto& g : iso_classes(6, 2)) for (auto& q : labelings(6, th ? 6 : 1)) { if (!modes(g.perm(q), g.connected())) return; byid(g.perm(q), 2); }
    for (Str k : { "path", "cycle", "star", "wheel", "ladder" }) for (int n : { 8, 11, 12 }) { WG g = named(k, n, 3); if (!g.n || !g.connected()) continue; modes(g, true); byid(g, 2); }
    { WG g(5); g.set(0, 1, 4294967297ull); g.set(1, 2, 4294967296ull); g.set(2, 3, 2147483648ull); g.set(3, 4, 4294967295ull); modes(g, true); }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; char d[] = "/tmp/vc29XXXXXX"; if (!mkdtemp(d)) return 2; DIR = d; int r = vh::main_(c, v, enumerate, run); if (DIR.size() > 8) rmdir(DIR.c_str()); return r; }
