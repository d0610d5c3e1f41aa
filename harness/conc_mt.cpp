// Shared state of the parallel branch and bound under every schedule up to a preemption bound: problem queue, best solution, whole solver.
#include "vh.hpp"
#include "conc.hpp"
#include "mpi_sim.hpp"
#include "vc_build.hpp"
#include "algorithms/multicut/multiterminal_cut.h"
using std::to_string; typedef std::string Str; static Str MODE; static bool THOROUGH;
static Str explore(const conc::Options& o, const std::function<Str()>& body) {
    auto R = conc::explore([&]() -> Str { vh::tick(); auto& S = vrng::src(); S.seed(1); S.pos = 0; mpisim::reset(1); return body(); }, o);
    vh::count(0, R.runs); vh::count(2, R.capped); vh::count(3, R.steps); vh::count(4, R.points); vh::count(5, R.shared); if (R.runs > 1) vh::count(1); if (getenv("CONC_STATS")) fprintf(stderr, "runs %lu steps/run %lu points/run %lu restarts %lu shared %lu capped %d\n", R.runs, R.steps / (R.runs + !R.runs), R.points / (R.runs + !R.runs), R.restarts, R.shared, R.capped); return R.err; }
static void both(const std::vector<std::function<void()> >& f) { std::vector<std::thread> t; for (auto& x : f) t.emplace_back(x); for (auto& x : t) x.join(); }
// ---- queue. spec: type bound pre | ops ; ops   (a: add, A: add preferring the local queue, p: pull, s: pull for sending, q: drop problems that cannot improve on 3; digits: lower bounds)
static Str run_queue(std::istringstream& is) {
    Str type, t; int bound; is >> type >> bound; std::vector<std::vector<Str> > prog(1); while (is >> t) { if (t == "|" || t == ";") prog.emplace_back(); else prog.back().push_back(t); }
    std::vector<Str> pre = prog[0]; prog.erase(prog.begin()); int T = std::max<int>(2, prog.size()); bool drops = false; for (auto& p : prog) for (auto& x : p) drops |= x[0] == 'q'; for (auto& x : pre) drops |= x[0] == 'q';
    int total = 0; for (auto& x : pre) total += (x[0] | 32) == 'a'; for (auto& p : prog) for (auto& x : p) total += (x[0] | 32) == 'a';
    conc::Options o; o.bound = bound; o.threads = T; o.max_runs = THOROUGH ? 3000000 : 150000;
    std::vector<int> seen(total + 1); std::vector<int64_t> lb(total + 1);
    return explore(o, [&]() -> Str {
        std::fill(seen.begin(), seen.end(), 0); per_thread_problem_queue q(T, type); std::vector<std::vector<problemPointer> > got(T); Str err; std::vector<int> first(T + 1, 0);
        { int c = 0; for (auto& x : pre) c += (x[0] | 32) == 'a'; for (int i = 0; i < (int)prog.size(); ++i) { first[i] = c; for (auto& x : prog[i]) c += (x[0] | 32) == 'a'; } }
        auto mk = [&](int id, int l) { auto p = std::make_shared<multicut_problem>(); p->lower_bound = l; p->upper_bound = 10 + (id * 3) % 4; p->deleted_weight = id; p->graph = std::make_shared<mutable_graph>(); p->graph->start_construction(2 + id % 2); p->graph->finish_construction(); lb[id] = l; return p; };
        auto op = [&](int th, const Str& x, int& id) { switch (x[0]) { case 'a': case 'A': { auto p = mk(id++, x[1] - '0'); q.addProblem(p, th, x[0] == 'A'); break; } case 'p': case 's': { auto r = q.pullProblem(th, x[0] == 's'); if (r.has_value()) got[th].push_back(*r); break; } case 'q': q.prepareQueue(th, 3); break; } };
        { int id = 0; for (auto& x : pre) op(0, x, id); }
        std::vector<std::function<void()> > f; for (int i = 0; i < (int)prog.size(); ++i) f.push_back([&, i] { int id = first[i]; for (auto& x : prog[i]) op(i, x, id); }); both(f);
        // nobody works on the queue anymore
        size_t out = 0; for (auto& v : got) for (auto& p : v) { if (!p) return "pulled a null problem"; if (++seen[p->deleted_weight] > 1) return "problem " + to_string(p->deleted_weight) + " was handed out twice"; ++out; }
        size_t sub = q.haveASendProblem(); for (int i = 0; i < T; ++i) { if (q.empty(i) != (q.subqueue_size(i) == 0)) return "empty() disagrees with the size"; sub += q.subqueue_size(i); } if (sub != q.size()) return "sizes of the queues do not add up"; size_t left = 0, announced = q.size(); if (q.all_empty() != (announced == 0)) return "all_empty() disagrees with the size";
        for (int r = 0; r < 2; ++r) for (int i = 0; i < T; ++i) while (true) { auto p = q.pullProblem(i, false); if (!p.has_value()) break; if (++seen[(*p)->deleted_weight] > 1) return "problem " + to_string((*p)->deleted_weight) + " was handed out twice"; ++left; }
        if (left != announced) return "the queue announced " + to_string(announced) + " problems, it held " + to_string(left);
        for (int i = 0; i < total; ++i) if (!seen[i] && !(drops && lb[i] >= 3)) return "problem " + to_string(i) + " with lower bound " + to_string(lb[i]) + " was lost"; if (!q.all_empty() || q.haveASendProblem()) return "not empty after everything was taken out";
        return ""; });
}
static uint64_t cost(const WG& g, const std::vector<NodeID>& s) { uint64_t c = 0; for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (s[i] != s[j]) c += g.at(i, j); return c; }
// ---- best solution. spec: graph terminals bound ls op op op...: each op is one thread: s<digits> solution, u<number> bound from elsewhere, r reader
static Str run_best(std::istringstream& is) {
    Str gs, ts, t; int bound; is >> gs >> ts >> bound; WG g = WG::parse(gs); std::vector<NodeID> term; { std::istringstream q(ts); Str x; while (std::getline(q, x, ',')) term.push_back(atoi(x.c_str())); } std::vector<Str> ops; while (is >> t) ops.push_back(t);
    conc::Options o; o.bound = bound; o.threads = ops.size(); o.max_runs = THOROUGH ? 300000 : 6000; o.max_steps = 2000000;
    return explore(o, [&]() -> Str {
        reset_config(); auto c = configuration::getConfig(); c->threads = 2; c->num_terminals = term.size(); auto G = build_mutable(g); std::vector<bool> fixed(g.n, false); for (auto x : term) fixed[x] = true; problem_management pm(*G, term, fixed);
        std::vector<std::function<void()> > f; uint64_t best = ~0ull, ext = ~0ull; Str err; std::vector<uint64_t> seen; std::vector<std::vector<NodeID> > sols(ops.size()); bool any = false;
        for (size_t i = 0; i < ops.size(); ++i) { const Str& x = ops[i]; if (x[0] == 's') { for (char d : x.substr(1)) sols[i].push_back(d - '0'); best = std::min(best, cost(g, sols[i])); any = true; f.push_back([&, i] { pm.findBestSolution(&sols[i], term.size()); }); } else if (x[0] == 'u') { uint64_t b = strtoull(x.c_str() + 1, 0, 10); ext = std::min(ext, b); f.push_back([&, b] { pm.updateBound(b); }); }
            else f.push_back([&] { int64_t a = pm.bestCut(); int64_t b = pm.bestCut(); if (b > a) err = "the bound grew from " + to_string(a) + " to " + to_string(b); if (pm.isBestSolutionInitialized()) { int64_t h = pm.bestCut(); auto s = pm.getBestSolution(); uint64_t w = cost(g, s); (void)h; (void)w; for (size_t k = 0; k < term.size(); ++k) if (s[term[k]] != k) err = "a reader saw a solution that is not feasible"; if (w > best && ext >= best && false) err = "x"; } }); }
        both(f); if (!err.empty()) return err; if (!any) return ""; if ((uint64_t)pm.bestCut() > std::min(best, ext)) return "the bound is " + to_string(pm.bestCut()) + ", a solution of weight " + to_string(best) + " was given";
        if (!pm.isBestSolutionInitialized()) { if (ext > best) return "no solution is stored"; return ""; } auto s = pm.getBestSolution(); for (size_t k = 0; k < term.size(); ++k) if (s[term[k]] != k) return "the stored solution does not separate the terminals"; uint64_t w = cost(g, s);
        if (ext > best) { if (w > best) return "the stored solution has weight " + to_string(w) + ", a solution of weight " + to_string(best) + " was given"; if (w != (uint64_t)pm.bestCut() && (uint64_t)pm.bestCut() < ext) return "the stored solution has weight " + to_string(w) + ", the bound is " + to_string(pm.bestCut()); }
        return ""; });
}
// ---- whole solver. spec: graph fix k threads ranks bound options
static uint64_t brute(const WG& g, const std::vector<int>& fix, int k) {
    int n = g.n; uint64_t best = ~0ull; std::vector<int> a(n); std::vector<int> ord; for (int i = 0; i < n; ++i) if (fix[i] >= 0) ord.push_back(i); for (int i = 0; i < n; ++i) if (fix[i] < 0) ord.push_back(i);
    std::function<void(int, uint64_t)> rec = [&](int d, uint64_t c) { if (c >= best) return; if (d == n) { best = c; return; } int v = ord[d]; for (int b = fix[v] >= 0 ? fix[v] : 0; b < (fix[v] >= 0 ? fix[v] + 1 : k); ++b) { uint64_t x = 0; for (int e = 0; e < d; ++e) if (a[ord[e]] != b) x += g.at(v, ord[e]); a[v] = b; rec(d + 1, c + x); } };
    rec(0, 0); return best; }
static Str run(const Str& spec);
static Str run_solve(std::istringstream& is) {
    Str gs, fs, t; int k, threads, ranks, bound; is >> gs >> fs >> k >> threads >> ranks >> bound; WG g = WG::parse(gs); std::vector<int> fix; { std::istringstream q(fs); Str x; while (std::getline(q, x, ',')) fix.push_back(x == "." ? -1 : atoi(x.c_str())); } Str queue = "bound_sum"; bool multi = true, delay = false; int flows = 5; while (is >> t) { if (t == "dl") { delay = true; continue; } if (t[0] == 'm') multi = t[1] == '1'; else if (t[0] == 'f' && isdigit(t[1])) flows = t[1] - '0'; else queue = t; }
    uint64_t want = brute(g, fix, k); conc::Options o; o.bound = bound; o.delay = delay; o.threads = threads; o.max_steps = 1000000; o.max_runs = THOROUGH ? 100000 : 8000;
    return explore(o, [&]() -> Str {
        mpisim::reset(ranks); reset_config(); auto c = configuration::getConfig(); c->threads = threads; c->multibranch = multi; c->queue_type = queue; c->num_terminals = k; c->random_flows = c->high_distance_flows = flows;
        std::vector<int64_t> flow(ranks, -1), sw(ranks, -1); Str err;
        // what multiterminal_cut::multicut does for one connected component
        auto one = [&](int r) { conc::set_tag(r); std::vector<NodeID> terms; std::vector<std::vector<NodeID> > blocks(k); std::vector<bool> fx(g.n, false); auto G = build_mutable(g); auto H = build_mutable(g); std::vector<terminal> pt; for (int v = 0; v < g.n; ++v) if (fix[v] >= 0) { blocks[fix[v]].push_back(v); fx[v] = true; } for (int b = 0; b < k; ++b) { pt.emplace_back(blocks[b][0], b); terms.push_back(blocks[b][0]); }
            auto p = std::make_shared<multicut_problem>(H, pt); branch_multicut bmc(*G, terms, fx); auto [sol, f] = bmc.find_multiterminal_cut(p); flow[r] = f; if (sol.size() != (size_t)g.n) { err = "no solution"; return; } sw[r] = cost(g, sol); for (int v = 0; v < g.n; ++v) if (sol[v] >= (NodeID)k || (fix[v] >= 0 && sol[v] != (NodeID)fix[v])) err = "the solution is not feasible"; };
        if (ranks == 1) one(0); else { std::vector<std::thread> ts; for (int r = 1; r < ranks; ++r) ts.emplace_back(one, r); one(0); for (auto& x : ts) x.join(); }
        if (!err.empty()) return err; for (int r = 0; r < ranks; ++r) { if ((uint64_t)flow[r] != want) return "process " + to_string(r) + " reports " + to_string(flow[r]) + ", the minimum is " + to_string(want); if ((uint64_t)sw[r] != want) return "the solution has weight " + to_string(sw[r]); }
        return ""; });
}
static Str run(const Str& spec) { std::istringstream is(spec); if (MODE == "queue") return run_queue(is); if (MODE == "best") return run_best(is); return run_solve(is); }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough";
    if (MODE == "queue") {
        static const char* Q[] = { "bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted" }; int qc = 0;
        // sequential histories of one thread
        { static const char* O[] = { "a1", "A1", "a2", "A2", "a4", "A0", "p", "s", "q" }; for (int len = 1; len <= (th ? 6 : 5); ++len) { std::vector<int> x(len, 0); while (true) { Str s; int ad = 0; for (int v : x) { s += Str(O[v]) + " "; ad += v < 6; } if (ad && !emit(Str(Q[qc++ % 8]) + " -1 " + s + "|")) return; int i = 0; while (i < len && ++x[i] == 9) x[i++] = 0; if (i == len) break; } } }
        static const char* P[] = { "", "a2 ", "a2 a2 ", "A2 A1 A3 ", "a4 a1 " }; static const char* O[] = { "a1", "A2", "a3", "p", "s", "q" };
        for (int len1 = 1; len1 <= 2; ++len1) for (int len2 = 1; len2 <= len1; ++len2) for (auto pre : P) { std::vector<int> x(len1 + len2, 0); while (true) { Str s = pre; s += "|"; for (int i = 0; i < len1; ++i) s += Str(" ") + O[x[i]]; s += " ;"; for (int i = 0; i < len2; ++i) s += Str(" ") + O[x[len1 + i]]; if (!emit(Str(Q[qc++ % 8]) + (len1 + len2 > 3 ? (th ? " 2 " : " 1 ") : len1 + len2 > 2 ? (th ? " 3 " : " 2 ") : " 3 ") + s)) return; int i = 0; while (i < len1 + len2 && ++x[i] == 6) x[i++] = 0; if (i == len1 + len2) break; } }
        for (auto pre : P) { std::vector<int> x(3, 0); while (true) { Str s = pre; s += "|"; for (int i = 0; i < 3; ++i) s += Str(i ? " ; " : " ") + O[x[i]]; if (!emit(Str(Q[qc++ % 8]) + (th ? " 2 " : " 1 ") + s)) return; int i = 0; while (i < 3 && ++x[i] == 6) x[i++] = 0; if (i == 3) break; } }
        return; }
    if (MODE == "best") {
        // all pairs of solutions of small graphs, plus a reader or a bound from another process
        for (auto& g : { WG::parse("4:2,1,1,1,1,2"), WG::parse("4:0,1,0,2,1,1"), WG::parse("5:0,2,1,0,0,1,2,1,1,0"), WG::parse("5:0,1,1,1,0,2,2,1,1,2") }) for (int b = 0; b <= (th ? 2 : 1); ++b) { int k = 2 + (g.n == 5), fr = g.n - k, tot = 1; for (int i = 0; i < fr; ++i) tot *= k; Str t; for (int i = 0; i < k; ++i) t += (i ? "," : "") + to_string(i);
            auto sol = [&](int x) { Str s = "s"; for (int i = 0; i < k; ++i) s += '0' + i; for (int i = 0; i < fr; ++i, x /= k) s += '0' + x % k; return s; };
            for (int x = 0; x < tot; ++x) for (int y = 0; y <= x; ++y) for (const char* third : { "", " r", " u3" }) { if (*third && y % 2) continue; if (!emit(g.str() + " " + t + " " + to_string(*third && b ? b - 0 : b) + " " + sol(x) + " " + sol(y) + third)) return; } }
        return; }
    static const char* Q[] = { "bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted" }; int qc = 0;
    auto add = [&](const Str& gfk, const char* conf, bool both_modes) { for (int m = 0; m < 2; ++m) { if (!both_modes && m != qc % 2) continue; if (!emit(gfk + " " + conf + (m ? " m1" : " m0") + " f1 dl " + Q[qc % 8])) return false; } ++qc; return true; };
    // instances on which the solver branches
    static const char* B[] = {
        "4:0,0,2,0,2,2 0,1,2,. 3",
        "4:0,0,2,0,2,2 2,1,0,. 3",
        "5:0,0,0,1,0,0,1,0,1,1 0,1,2,3,. 4",
        "5:0,0,0,1,0,0,1,0,1,1 3,2,1,0,. 4",
        "5:0,0,0,2,0,0,2,0,2,0 0,1,2,.,. 3",
        "5:0,0,0,2,0,0,2,0,2,0 0,1,2,3,. 4",
        "5:0,0,0,2,0,0,2,0,2,0 2,1,0,.,. 3",
        "5:0,0,0,2,0,0,2,0,2,0 3,2,1,0,. 4",
        "5:0,0,1,2,0,1,2,1,2,1 0,1,2,.,. 3",
        "5:0,0,2,1,0,1,2,1,2,1 0,1,2,.,. 3",
        "5:0,0,2,2,0,2,2,1,2,0 0,1,2,.,. 3",
        "5:0,0,2,2,0,2,2,1,2,0 2,1,0,.,. 3",
        "6:0,0,0,0,1,0,0,0,1,0,0,1,0,1,0 0,1,2,3,.,. 4",
        "6:0,0,0,0,1,0,0,0,1,0,0,1,0,1,0 0,1,2,3,4,. 5",
        "6:0,0,0,0,1,0,0,0,1,0,0,1,0,1,0 4,3,2,1,0,. 5",
        "6:0,0,0,0,1,0,0,0,1,0,0,1,0,1,1 0,1,2,3,4,. 5",
        "6:0,0,0,0,1,0,0,0,1,0,0,1,0,1,1 4,3,2,1,0,. 5",
        "6:0,0,0,0,2,0,0,0,2,0,0,2,0,1,1 0,1,2,.,.,. 3",
        "6:0,0,0,0,2,0,0,0,2,0,0,2,0,1,1 0,1,2,.,3,. 4",
        "6:0,0,0,0,2,0,0,0,2,0,0,2,0,1,1 0,1,2,3,.,. 4",
        "6:0,0,0,0,2,0,0,0,2,0,0,2,0,2,0 0,.,1,2,.,. 3",
        "6:0,0,0,1,1,0,0,1,0,0,0,1,0,1,0 4,3,2,1,0,. 5",
        "6:0,0,0,1,1,0,0,1,1,0,0,1,0,0,0 4,3,2,1,0,. 5",
        "6:0,0,0,1,1,0,0,1,1,0,1,1,0,1,0 0,1,2,3,.,. 4",
        "6:0,0,0,1,1,0,0,1,1,0,1,1,0,2,1 0,1,2,3,.,. 4",
        "6:0,0,0,1,2,0,0,1,1,0,1,1,0,2,0 0,1,2,3,.,. 4",
        "6:0,0,0,1,2,0,0,1,2,0,1,2,1,1,1 0,1,2,.,.,. 3",
        "6:0,0,0,1,2,0,0,1,2,0,1,2,1,2,1 0,1,.,2,.,. 3",
        "6:0,0,0,2,0,0,0,2,0,0,0,2,0,2,2 0,1,2,3,.,. 4",
        "6:0,0,0,2,1,0,0,2,1,0,1,2,1,2,1 0,1,2,3,.,. 4",
        "6:0,0,0,3,4,0,0,5,6,0,7,8,0,9,10 0,1,2,3,.,. 4",
        "6:0,0,0,6,0,0,0,7,0,0,0,8,0,9,10 0,1,2,3,.,. 4",
        "6:0,0,0,6,0,0,0,7,0,0,0,8,0,9,10 3,2,1,0,.,. 4",
        "6:0,0,0,6,7,0,0,8,0,0,0,9,0,0,10 0,1,2,.,.,. 3",
        "6:0,0,0,6,7,0,0,8,0,0,0,9,0,0,10 2,1,0,.,.,. 3",
        "6:0,0,0,6,7,0,0,8,0,0,0,9,0,10,11 2,1,.,0,.,. 3",
        "6:0,0,0,6,7,0,0,8,0,0,0,9,0,10,11 2,1,0,.,.,. 3",
        "6:0,0,0,6,7,0,0,8,9,0,0,10,0,0,11 0,1,2,3,.,. 4",
        "6:0,0,1,1,0,0,1,0,1,0,2,2,1,1,1 0,1,2,.,.,3 4",
        "6:0,0,1,1,1,0,0,2,2,0,2,2,0,1,0 0,1,2,.,.,. 3",
        "6:0,0,1,1,2,0,0,2,1,0,2,0,0,2,1 0,1,2,3,.,. 4",
        "6:0,0,1,1,2,0,0,2,1,0,2,0,1,2,1 0,1,2,3,.,. 4",
        "6:0,0,1,1,2,0,0,2,2,0,2,2,1,1,0 0,1,2,.,.,. 3",
        "6:0,0,1,1,2,0,1,1,0,0,2,1,0,1,2 0,1,2,.,.,3 4",
        "6:0,0,1,2,1,0,1,1,1,0,2,2,1,2,0 0,.,1,2,.,. 3",
        "6:0,0,1,2,1,0,1,1,2,0,2,2,1,1,0 0,1,2,.,.,. 3",
        "6:0,0,1,2,1,0,1,1,2,1,1,2,1,1,0 0,1,2,.,.,. 3",
        "6:0,0,1,2,1,0,1,2,1,1,2,1,0,1,1 0,1,2,.,.,. 3",
        "6:0,0,1,2,2,0,1,2,1,1,1,1,1,2,0 0,1,.,2,.,. 3",
        "6:0,0,2,1,2,0,1,2,2,1,2,2,0,1,1 .,.,.,0,1,2 3",
        "6:0,0,2,2,1,0,2,1,2,1,2,2,1,1,1 0,1,2,.,.,. 3",
        "6:0,0,2,2,2,0,1,2,1,0,0,1,1,2,2 0,1,.,2,.,3 4",
        "6:0,0,3,0,4,0,0,5,6,0,7,8,0,9,10 0,1,2,3,.,. 4",
        "6:0,0,3,4,5,0,0,6,7,0,0,8,9,10,0 0,1,2,.,.,. 3",
        "6:0,0,3,4,5,0,0,6,7,0,8,0,0,9,10 0,1,2,.,.,. 3",
        "6:0,1,1,2,1,0,2,2,0,0,1,2,1,2,0 .,0,1,.,2,3 4",
        "6:0,1,1,2,1,0,2,2,2,1,1,2,1,2,1 0,1,2,.,.,3 4",
        "6:0,1,1,2,2,0,0,2,1,1,2,2,1,2,0 .,.,0,1,2,. 3",
        "6:0,1,2,2,2,1,2,2,2,2,2,2,0,2,2 .,.,0,1,2,. 3",
    }, *BIG[] = {
        "12:2,1,0,0,0,0,1,0,0,1,0,2,0,0,0,0,0,1,0,0,1,0,0,0,1,0,0,1,0,0,2,1,0,1,0,0,3,0,2,0,0,1,0,0,3,1,0,0,3,0,0,2,1,0,1,0,2,0,0,1,1,0,0,2,1,2 3,.,.,.,2,.,.,.,1,0,.,. 4",
        "12:2,1,0,0,0,0,1,0,0,3,0,2,0,0,0,0,0,1,0,0,3,0,0,0,1,0,0,3,0,0,2,1,0,1,0,0,3,0,2,0,0,1,0,0,3,1,0,0,3,0,0,2,1,0,0,0,2,0,0,0,0,0,0,2,1,2 3,.,.,.,2,.,.,.,1,0,.,. 4",
        "12:2,1,0,0,0,0,3,0,0,1,0,2,0,0,0,0,0,3,0,0,1,0,0,0,3,0,0,1,0,0,2,1,0,1,0,0,3,0,2,0,0,1,0,0,3,1,0,0,3,0,0,2,1,0,1,0,2,0,0,1,1,0,0,2,1,2 3,.,.,.,2,.,.,.,1,0,.,. 4",
    };
    { int i = 0; for (auto b : B) { for (auto c : { "2 1 1", "3 1 1", "1 2 1" }) if (!add(b, c, true)) return; if (!add(b, "1 3 1", false)) return; if (th || i % 8 == 0) for (auto c : { "1 2 2" }) if (!add(b, c, false)) return; if (th) for (auto c : { "2 1 2" }) if (!add(b, c, false)) return; if (th && !add(b, "2 2 1", false)) return; ++i; } }
    if (th) for (auto b : BIG) for (auto c : { "2 1 1", "1 2 1" }) if (!add(b, c, false)) return;
    // every small connected graph
    { bool go = true; for (int n = 4; n <= 5 && go; ++n) { auto cls = iso_classes(n, 1); for (auto& c : cls) { if (!c.connected()) continue; for (int der = 0; der < 2 && go; ++der) { WG g = c; int i = 0; for (auto& w : g.w) if (w) w = der ? 2 + i++ % 3 : 2;
        for (int k = 3; k < n && go; ++k) for (int rot = 0; rot < 2 && go; ++rot) { Str f; for (int v = 0; v < n; ++v) { int b = rot ? n - 1 - v : v; f += Str(v ? "," : "") + (b < k ? to_string(b) : Str(".")); } Str s = g.str() + " " + f + " " + to_string(k);
            for (auto cf : { "2 1 1", "3 1 1", "1 2 1" }) go = go && add(s, cf, th); if (th) for (auto cf : { "2 1 2", "1 2 2", "1 3 1", "2 2 1" }) go = go && add(s, cf, false); } } } } }
}
int main(int c, char** v) {
    vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; vh::cnt_names()[3] = "transitions"; vh::cnt_names()[4] = "decisions"; vh::cnt_names()[5] = "shared_bytes"; for (int i = 1; i + 1 < c; ++i) { if (Str(v[i]) == "--arg") MODE = v[i + 1]; if (Str(v[i]) == "--tier") THOROUGH = Str(v[i + 1]) == "thorough"; }
    return vh::main_(c, v, enumerate, run); }
