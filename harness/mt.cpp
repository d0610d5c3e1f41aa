// Multiterminal cut solver: optimal value, feasible solution. Runs under the controlled scheduler (the solver always starts threads).
#include <filesystem>
#include <sys/stat.h>
#include "vh.hpp"
#include "conc.hpp"
#include "mpi_sim.hpp"
#include "vc_build.hpp"
#include "algorithms/multicut/multiterminal_cut.h"
using std::to_string; typedef std::string Str; static Str MODE; static bool THOROUGH; static Str DIR; static int MO = getenv("MO") ? atoi(getenv("MO")) : -1;
// cheapest assignment of the vertices to k blocks with the given ones fixed (-1: free)
static uint64_t brute(const WG& g, const std::vector<int>& fix, int k) {
    int n = g.n; uint64_t best = ~0ull; std::vector<int> a(n); std::vector<int> ord; for (int i = 0; i < n; ++i) if (fix[i] >= 0) ord.push_back(i); for (int i = 0; i < n; ++i) if (fix[i] < 0) ord.push_back(i);
    std::function<void(int, uint64_t)> rec = [&](int d, uint64_t c) { if (c >= best) return; if (d == n) { best = c; return; } int v = ord[d]; for (int b = fix[v] >= 0 ? fix[v] : 0; b < (fix[v] >= 0 ? fix[v] + 1 : k); ++b) { uint64_t x = 0; for (int e = 0; e < d; ++e) if (a[ord[e]] != b) x += g.at(v, ord[e]); a[v] = b; rec(d + 1, c + x); } };
    rec(0, 0); return best; }
static uint64_t cost(const WG& g, const std::vector<NodeID>& s) { uint64_t c = 0; for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (s[i] != s[j]) c += g.at(i, j); return c; }
struct Opts { int threads = 1, ranks = 1, bound = -1; bool multi = true, ls = true, wr = true; Str queue = "bound_sum", edge = "heavy_vertex"; int dev = 0; bool free_ws = false; bool inexact = false; int depth = 1, branch = 5, timeout = 600; double lowest = 0.1; };
// spec: graph fix,fix,... k [key=value ...]
static Str run(const Str& spec) {
    std::istringstream is(spec); Str gs, fs, t; int k; is >> gs >> fs >> k; WG g = WG::parse(gs); std::vector<int> fix; { std::istringstream q(fs); Str x; while (std::getline(q, x, ',')) fix.push_back(x == "." ? -1 : atoi(x.c_str())); } Opts o;
    while (is >> t) { Str key = t.substr(0, t.find('=')), v = t.substr(t.find('=') + 1); int i = atoi(v.c_str()); if (key == "t") o.threads = i; else if (key == "r") o.ranks = i; else if (key == "b") o.bound = i; else if (key == "m") o.multi = i; else if (key == "ls") o.ls = i; else if (key == "w") o.wr = i; else if (key == "q") o.queue = v; else if (key == "e") o.edge = v; else if (key == "d") o.dev = i; else if (key == "X") o.inexact = i; else if (key == "c") o.depth = i; else if (key == "B") o.branch = i; else if (key == "T") o.timeout = i; else if (key == "l") o.lowest = atof(v.c_str()); } bool heur = o.inexact || o.timeout == 0;
    uint64_t want = brute(g, fix, k); static int once = (mkdir((DIR + "/" + to_string(getpid())).c_str(), 0700), chdir((DIR + "/" + to_string(getpid())).c_str())); (void)once;
    conc::Options co; co.threads = o.threads; co.bound = o.bound; co.max_steps = 3000000; co.max_runs = THOROUGH ? 20000 : 3000; auto& S = vrng::src(); S.taken.reserve(4096); S.arity.reserve(4096);
    Str err; std::vector<uint32_t> pre; auto body = [&]() -> Str {
        vh::tick(); S.pos = 0; S.calls = 0; S.taken.clear(); S.arity.clear(); S.seed(1); mpisim::reset(o.ranks);
        reset_config(); auto c = configuration::getConfig(); c->threads = o.threads; c->multibranch = o.multi; c->runLocalSearch = o.ls; c->write_solution = o.wr; c->queue_type = o.queue; c->edge_selection = o.edge; c->num_terminals = k; c->inexact = o.inexact; c->contractionDepthAroundTerminal = o.depth; c->removeTerminalsBeforeBranch = o.lowest; c->maximumBranchingFactor = o.branch; c->timeoutSeconds = o.timeout;
        std::vector<FlowType> flow(o.ranks, -1); std::vector<NodeID> term(g.n, UNDEFINED_NODE); for (int i = 0; i < g.n; ++i) if (fix[i] >= 0) term[i] = fix[i];
        auto one = [&](int r) { conc::set_tag(r); auto G = build_mutable(g); multiterminal_cut mct; flow[r] = mct.multicut(G, term, k); };
        if (o.wr) unlink("solution");
        if (o.ranks == 1) one(0); else { std::vector<std::thread> ts; for (int r = 1; r < o.ranks; ++r) ts.emplace_back(one, r); one(0); for (auto& t : ts) t.join(); }
        for (int r = 0; r < o.ranks; ++r) if (heur ? (uint64_t)flow[r] < want || flow[r] != flow[0] : (uint64_t)flow[r] != want) return "reported value " + to_string(flow[r]) + ", the minimum multiterminal cut is " + to_string(want);
        if (o.wr && o.ranks == 1) { std::vector<NodeID> s; { FILE* f = fopen("solution", "r"); if (!f) return "no solution file"; unsigned x; while (fscanf(f, "%u", &x) == 1) s.push_back(x); fclose(f); }
            if ((int)s.size() != g.n) return "solution has " + to_string(s.size()) + " entries"; for (int i = 0; i < g.n; ++i) if (s[i] >= (NodeID)k) return "vertex " + to_string(i) + " is in no block"; else if (fix[i] >= 0 && s[i] != (NodeID)fix[i]) return "terminal vertex " + to_string(i) + " is in block " + to_string(s[i]);
            if (cost(g, s) != (uint64_t)flow[0]) return "the solution has weight " + to_string(cost(g, s)) + ", reported is " + to_string(flow[0]); }
        return ""; };
    auto fn = [&]() -> bool { auto R = conc::explore(body, co); vh::count(0, R.runs); vh::count(3, R.steps); vh::count(2, R.capped); vh::count(5, R.shared); err = R.err; return err.empty(); };
    bool capped = false; S.exploring = false; S.lenient = true; vrng::explore([&] { S.exploring = true; return fn(); }, o.dev, 12, 400, &capped); if (capped) vh::count(2); if (!err.empty()) return err;
    vh::outcome(vh::hash(to_string(want) + "/" + to_string(k) + "/" + to_string(g.n))); if (want > 0 && k > 2) vh::count(1); return "";
}
static Str fixs(const std::vector<int>& f) { Str s; for (size_t i = 0; i < f.size(); ++i) s += (i ? "," : "") + (f[i] < 0 ? Str(".") : to_string(f[i])); return s; }
static void terms(int n, int kmin, int kmax, bool both, const std::function<bool(const std::vector<int>&, int)>& f) {
    for (int m = 1; m < 1 << n; ++m) { int k = __builtin_popcount(m); if (k < kmin || k > kmax) continue; for (int rev = 0; rev < (both ? 2 : 1); ++rev) { std::vector<int> x(n, -1); int c = 0; for (int i = 0; i < n; ++i) if (m >> i & 1) { x[i] = rev ? k - 1 - c : c; ++c; } if (!f(x, k)) return; } } }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough"; bool stop = false; static const char* Q[] = { "bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted" }; static const char* E[] = { "heavy_vertex", "heavy", "heavy_global", "connection", "distance", "random" };
    uint64_t c = 0; auto go = [&](const WG& g, const std::vector<int>& f, int k, const Str& opt) { if (stop) return false; if (!emit(g.str() + " " + fixs(f) + " " + to_string(k) + opt)) stop = true; return !stop; };
    auto cyc = [&]() { ++c; Str s = MO == 1 || (MO < 0 && c % 2) ? " m=1" : Str(" m=0 e=") + E[c / 2 % 6]; s += Str(" q=") + Q[c % 8]; return s; };
    auto scale = [](WG g, uint64_t f, uint64_t d) { for (auto& x : g.w) if (x) { x = x * f + d; ++d; } return g; };
    if (MODE == "solve") {
        auto bothm = [&](const WG& g, const std::vector<int>& f, int k) { Str q = Str(" q=") + Q[c % 8]; ++c; return go(g, f, k, " m=1" + q) && go(g, f, k, Str(" m=0 e=") + E[c % 6] + q); };
        for (int n = 2; n <= 4; ++n) all_labelled(n, { 0, 1, 2 }, [&](const WG& g) { terms(n, 2, n, true, [&](const std::vector<int>& f, int k) { return bothm(g, f, k); }); return !stop; });
        // every assignment of terminal ids to vertices: several vertices for one terminal, unused ids, one or no terminal
        for (int n = 2; n <= 4; ++n) for (int k = 2; k <= 3; ++k) { int tot = 1; for (int i = 0; i < n; ++i) tot *= k + 1; all_labelled(n, { 0, 1 }, [&](const WG& g) { for (int x = 0; x < tot; ++x) { std::vector<int> f; int y = x; bool any = false; for (int i = 0; i < n; ++i, y /= k + 1) { f.push_back(y % (k + 1) - 1); } if (!go(g, f, k, cyc())) return false; } return !stop; }); }
        for (auto& g : iso_classes(5, 3)) { terms(5, 2, 4, th, [&](const std::vector<int>& f, int k) { return bothm(g, f, k); }); for (uint64_t w : { 1ull << 32, (1ull << 31) - 1 }) if (g.m() > 5) terms(5, 3, 4, false, [&](const std::vector<int>& f, int k) { return go(scale(g, w, 1), f, k, cyc()); }); }
        for (auto& g : iso_classes(6, 2)) terms(6, 2, 5, true, [&](const std::vector<int>& f, int k) { return bothm(g, f, k) && go(scale(g, 3, 0), f, k, cyc()) && go(scale(g, 5, 1), f, k, cyc()); });
        for (auto& g : iso_classes(th ? 6 : 5, 2)) terms(g.n, 3, 4, false, [&](const std::vector<int>& f, int k) { return go(g, f, k, cyc() + " d=1"); });   // every choice of the random source, one deviation
        for (auto& g : iso_classes(7, 2)) if (g.m() >= 9 && g.m() <= (th ? 21 : 14)) terms(7, 3, 4, false, [&](const std::vector<int>& f, int k) { return go(g, f, k, cyc()); });
        if (th) for (auto& g : iso_classes(6, 3)) terms(6, 3, 4, false, [&](const std::vector<int>& f, int k) { return go(g, f, k, cyc()); });
        // one terminal for a set of vertices on larger graphs, grids and other named graphs, blow-ups (the solver rebuilds the graph when it has shrunk by half)
        for (const char* nm : { "cycle", "wheel", "ladder", "complete", "grid" }) for (int n = 8; n <= (th ? 12 : 10); n += 2) for (int var = 0; var < 3; ++var) { WG g = named(nm, n, 2); if (!g.n) continue; if (var) g = scale(g, var, 1); int N = g.n; for (int a = 0; a < N; ++a) for (int b = a + 1; b < N; ++b) for (int d = b + 1; d < N; d += 2) { std::vector<int> f(N, -1); f[a] = 1; f[b] = 0; f[d] = 2; if (var == 2) f[(d + 1) % N] = 2; int k = 3; if (var == 2 && f[(d + 3) % N] < 0) { f[(d + 3) % N] = 3; k = 4; } bool ok = true; for (int t = 0; t < k; ++t) { bool h = false; for (int x : f) h |= x == t; ok &= h; } if (ok && !go(g, f, k, cyc())) return; } }
        // weights that are multiples of 2^16 and 2^32, every branching edge selection
        for (uint64_t w : { 1ull << 16, 1ull << 32 }) for (const char* nm : { "wheel", "grid", "ladder", "complete" }) for (int n = 8; n <= (th ? 12 : 9); ++n) { WG g = named(nm, n, 2); if (!g.n) continue; g = scale(g, w, 0); int N = g.n; for (int a = 0; a < N; a += 2) for (int b = a + 1; b < N; b += 2) for (int d = b + 1; d < N; d += 3) { std::vector<int> f(N, -1); f[a] = 1; f[b] = 0; f[d] = 2; for (int e = 0; e < 6; ++e) if (!go(g, f, 3, Str(" m=0 e=") + E[e] + " q=" + Q[c++ % 8])) return; if (!go(g, f, 3, " m=1")) return; } }
        for (int n = 3; n <= 4; ++n) all_labelled(n, { 0, 1, 3 }, [&](const WG& s) { if (!s.connected()) return true; int q = 12 / n; WG g(n * q); for (int b = 0; b < n; ++b) for (int i = 0; i < q; ++i) { for (int j = i + 1; j < q; ++j) g.set(b * q + i, b * q + j, 1 + (i + j) % 2); for (int d = b + 1; d < n; ++d) if (s.at(b, d)) g.add(b * q + i % q, d * q + (i + 1) % q, s.at(b, d)); } std::vector<int> f(n * q, -1); for (int b = 0; b < n; ++b) f[b * q + b % q] = n - 1 - b; return go(g, f, n, cyc()); });
    }
    if (MODE == "inexact") {   // heuristic branching and an expired time limit: any feasible solution, reported with its weight
        static const char* L[] = { "0.1", "0.5", "0", "1" }; auto hard = [&](const WG& g, const std::vector<int>& f, int k) { bool ok = true; for (int T : { 600, 0 }) { ++c; Str x = Str(" X=") + (T ? "1" : "0") + " T=" + to_string(T) + " c=" + to_string(c % 3) + " B=" + to_string(1 + c % 3) + " l=" + L[c / 3 % 4] + cyc(); ok = ok && go(g, f, k, x); } return ok; };
        auto every = [&](const WG& g, const std::vector<int>& f, int k) { for (const char* l : L) for (int d = 0; d < 3; ++d) for (int m = 0; m < 2; ++m) { ++c; if (!go(g, f, k, Str(" X=1 c=") + to_string(d) + " l=" + l + " B=" + to_string(1 + c % 3) + (m ? " m=1" : Str(" m=0 e=") + E[c % 6]) + " q=" + Q[c % 8])) return false; } return hard(g, f, k); };
        for (int n = 2; n <= 4; ++n) all_labelled(n, { 0, 1, 2 }, [&](const WG& g) { terms(n, 2, n, true, [&](const std::vector<int>& f, int k) { return hard(g, f, k); }); return !stop; });
        for (auto& g : iso_classes(5, 3)) { terms(5, 2, 4, th, [&](const std::vector<int>& f, int k) { return hard(g, f, k); }); if (stop) return; }
        for (auto& g : iso_classes(6, 2)) { terms(6, 3, 5, false, [&](const std::vector<int>& f, int k) { return every(g, f, k) && hard(scale(g, 3, 1), f, k); }); if (stop) return; }
        for (const char* nm : { "cycle", "wheel", "ladder", "complete", "grid" }) for (int n = 8; n <= (th ? 12 : 9); ++n) for (int var = 0; var < 3; ++var) { WG g = named(nm, n, 2); if (!g.n) continue; if (var) g = scale(g, var, 1); int N = g.n; for (int a = 0; a < N; ++a) for (int b = a + 1; b < N; b += 2) for (int d = b + 1; d < N; d += 2) { std::vector<int> f(N, -1); f[a] = 1; f[b] = 0; f[d] = 2; int k = 3; if (var == 2 && d + 1 < N) { f[d + 1] = 3; k = 4; } if (!every(g, f, k)) return; } }
        for (auto& g : iso_classes(7, 2)) if (g.m() >= 9 && g.m() <= (th ? 21 : 13)) { terms(7, 3, 4, false, [&](const std::vector<int>& f, int k) { return hard(g, f, k); }); if (stop) return; }
        for (auto& g : iso_classes(6, 2)) if (g.m() >= 8) { terms(6, 3, 3, false, [&](const std::vector<int>& f, int k) { ++c; return go(g, f, k, (c % 2 ? Str(" X=1 t=2 b=") + (th ? "1" : "0") : Str(" X=0 T=0 t=2 b=") + (th ? "2" : "1")) + cyc()); }); if (stop) return; }
        for (auto& g : iso_classes(6, 2)) { terms(6, 3, 4, false, [&](const std::vector<int>& f, int k) { return go(g, f, k, " X=1 c=1 l=0.5 d=1" + cyc()); }); if (stop) return; }
    }
}
int main(int c, char** v) {
    vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; vh::cnt_names()[3] = "transitions"; vh::cnt_names()[5] = "shared_bytes"; for (int i = 1; i + 1 < c; ++i) { if (Str(v[i]) == "--arg") MODE = v[i + 1]; if (Str(v[i]) == "--tier") THOROUGH = Str(v[i + 1]) == "thorough"; }
    char cwd[4096]; getcwd(cwd, sizeof cwd); char tmp[] = "/tmp/vh-mt-XXXXXX"; DIR = mkdtemp(tmp); int r = vh::main_(c, v, enumerate, run); chdir(cwd); if (DIR.rfind("/tmp/vh-mt-", 0) == 0) { std::error_code ec; std::filesystem::remove_all(DIR, ec); } return r; }
