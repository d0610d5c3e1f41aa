// Building blocks of the multiterminal solver in isolation: reductions, isolating flows, branching, local search, messages between processes.
#include "vh.hpp"
#include "mpi_sim.hpp"
#include <future>
#include <queue>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <fstream>
#include <set>
#include <map>
#include <tuple>
#include <thread>
#include <atomic>
#include <array>
#include <iostream>
#define private public   // reductions and branching steps are not part of the public interface
#include "vc_build.hpp"
#include "algorithms/multicut/multiterminal_cut.h"
#undef private
using std::to_string; typedef std::string Str; static Str MODE; static bool THOROUGH;
static const uint64_t INF = ~0ull;
static uint64_t brute(const WG& g, const std::vector<int>& fix, int k) {
    int n = g.n; uint64_t best = INF; std::vector<int> a(n), ord; for (int i = 0; i < n; ++i) if (fix[i] >= 0) ord.push_back(i); for (int i = 0; i < n; ++i) if (fix[i] < 0) ord.push_back(i);
    std::function<void(int, uint64_t)> rec = [&](int d, uint64_t c) { if (c >= best) return; if (d == n) { best = c; return; } int v = ord[d]; for (int b = fix[v] >= 0 ? fix[v] : 0; b < (fix[v] >= 0 ? fix[v] + 1 : k); ++b) { uint64_t x = 0; for (int e = 0; e < d; ++e) if (a[ord[e]] != b) x += g.at(v, ord[e]); a[v] = b; rec(d + 1, c + x); } };
    rec(0, 0); return best; }
static uint64_t cost(const WG& g, const std::vector<NodeID>& s) { uint64_t c = 0; for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (s[i] != s[j]) c += g.at(i, j); return c; }
struct Inst { WG g; std::vector<int> fix; int k; std::vector<NodeID> terms; };
static Inst parse(std::istringstream& is) { Inst x; Str gs, fs, t; is >> gs >> fs >> x.k; x.g = WG::parse(gs); std::istringstream q(fs); while (std::getline(q, t, ',')) x.fix.push_back(t == "." ? -1 : atoi(t.c_str())); x.terms.assign(x.k, 0); for (int v = x.g.n; v-- > 0;) if (x.fix[v] >= 0) x.terms[x.fix[v]] = v; return x; }
// what multiterminal_cut does before it calls the solver
static problemPointer problem(const Inst& x) {
    auto G = build_mutable(x.g); std::vector<std::vector<NodeID> > blocks(x.k); for (int v = 0; v < x.g.n; ++v) if (x.fix[v] >= 0) blocks[x.fix[v]].push_back(v); std::vector<terminal> pt; for (int b = 0; b < x.k; ++b) pt.emplace_back(blocks[b][0], b);
    auto p = std::make_shared<multicut_problem>(G, pt); graph_contraction::contractIsolatingBlocks(p, blocks); return p; }
// optimum of a problem, including what is deleted already; INF when two terminals are one vertex
static uint64_t opt(problemPointer p, const Inst& x, Str* err) {
    WG g = view(p->graph, err, true); std::vector<int> fix(g.n, -1);
    for (int i = 0; i < x.k; ++i) { NodeID v = p->graph->getCurrentPosition(p->mapped(x.terms[i])); if (v >= (NodeID)g.n) { *err = "terminal " + to_string(i) + " has no vertex"; return INF; } if (fix[v] >= 0) return INF; fix[v] = i; }
    uint64_t b = brute(g, fix, x.k); return b == INF ? INF : b + p->deleted_weight; }
static Str feasible(const Inst& x, const std::vector<NodeID>& s) { if ((int)s.size() != x.g.n) return "wrong size"; for (int v = 0; v < x.g.n; ++v) if (s[v] >= (NodeID)x.k) return "vertex " + to_string(v) + " is in block " + to_string(s[v]); else if (x.fix[v] >= 0 && s[v] != (NodeID)x.fix[v]) return "vertex " + to_string(v) + " of terminal " + to_string(x.fix[v]) + " is in block " + to_string(s[v]); return ""; }
static void conf(const Inst& x) { mpisim::reset(1); reset_config(); auto c = configuration::getConfig(); c->threads = 1; c->num_terminals = x.k; c->multibranch = true; }
static Str explore(int dev, const std::function<Str()>& body) {
    auto& S = vrng::src(); Str err; bool capped = false; auto fn = [&]() -> bool { vh::count(0); vh::tick(); err = body(); return err.empty(); };
    S.seed(1); S.exploring = false; if (dev <= 0) { fn(); return err; } vrng::explore(fn, dev, 24, 3000, &capped); if (capped) vh::count(2); return err; }
// ---- reductions. spec: graph fix k op bound flow dev     (bound: distance of the upper bound from the optimum, x: none)
static Str run_reduce(std::istringstream& is) {
    Inst x = parse(is); Str op, bs; int flow, dev; is >> op >> bs >> flow >> dev; uint64_t want = brute(x.g, x.fix, x.k); uint64_t B = bs == "x" ? (uint64_t)UNDEFINED_FLOW : want + atoi(bs.c_str());
    return explore(dev, [&]() -> Str {
        conf(x); auto p = problem(x); maximum_flow mf(x.terms); kernelization_criteria kc(x.terms); Str err;
        if (flow) { mf.maximumIsolatingFlow(p, 0, false); uint64_t a = opt(p, x, &err); if (!err.empty()) return "after the isolating flow: " + err; if (a != want) return "the optimum is " + to_string(want) + ", after contracting isolating cuts it is " + to_string(a);
            if ((uint64_t)p->lower_bound > want) return "lower bound " + to_string(p->lower_bound) + ", the optimum is " + to_string(want); if ((uint64_t)p->upper_bound < want) return "upper bound " + to_string(p->upper_bound) + ", the optimum is " + to_string(want);
            auto H = build_mutable(x.g); measurements msm(*H, x.terms); auto s = msm.getSolution(p); err = feasible(x, s); if (!err.empty()) return "after the isolating flow: " + err; if (cost(x.g, s) > (uint64_t)p->upper_bound) return "the upper bound is " + to_string(p->upper_bound) + ", its solution has weight " + to_string(cost(x.g, s));
            if (flow == 2) { graph_contraction::deleteTermEdges(p, x.terms); a = opt(p, x, &err); if (!err.empty()) return "after deleting edges between terminals: " + err; if (a != want) return "the optimum is " + to_string(want) + ", after deleting edges between terminals it is " + to_string(a); } }
        graph_contraction::setTerminals(p, x.terms); NodeID before = p->graph->n(); if (before == 0 || p->graph->m() == 0) return "";
        std::vector<bool> act(p->graph->getOriginalNodes(), true), an(p->graph->getOriginalNodes(), false); auto con = [&](union_find uf) { kc.contractIfImproved(&uf, p, "check", &an); };
        if (op == "all") kc.kernelization(p, B, false); else if (op == "low") con(kc.lowDegreeContraction(p)); else if (op == "high") con(kc.highDegreeContraction(p, act)); else if (op == "tri") con(kc.triangleDetection(p, act));
        else if (op == "eq") { equal_neighborhood en; con(en.findEqualNeighborhoods(p, act)); } else if (op == "flow") con(mf.nonTerminalFlow(p, false, act)); else if (op == "aps") { find_articulation_points f(p->graph); if (f.findAllArticulationPoints()) { auto u = f.terminalsOnBothSides(p->terminals); if (u.has_value()) con(*u); } } else return "bad spec";
        uint64_t a = opt(p, x, &err); if (!err.empty()) return "after the reduction: " + err; if (p->graph->n() < before) { vh::count(1); vh::outcome(vh::hash(op + to_string(before) + "/" + to_string(p->graph->n()) + "/" + to_string(want))); }
        if (want < B || op != "all") { if (a == INF) return "two terminals were contracted (optimum " + to_string(want) + ", upper bound " + to_string(B) + ")"; if (a != want) return "the optimum is " + to_string(want) + ", after the reduction it is " + to_string(a); }
        else if (a < want) return "the optimum is " + to_string(want) + ", after the reduction it is " + to_string(a);
        for (auto& t : p->terminals) if (p->graph->getCurrentPosition(p->mapped(x.terms[t.original_id])) != t.position) return "terminal " + to_string(t.original_id) + " is recorded at vertex " + to_string(t.position);
        return ""; });
}
// ---- one branching step. spec: graph fix k selection bound dev (selection "multi": multiway branching)
static Str run_branch(std::istringstream& is) {
    Inst x = parse(is); Str sel, bs; int dev; is >> sel >> bs >> dev; uint64_t want = brute(x.g, x.fix, x.k);
    return explore(dev, [&]() -> Str {
        conf(x); auto c = configuration::getConfig(); c->multibranch = sel == "multi"; c->edge_selection = sel == "multi" ? "heavy_vertex" : sel; auto H = build_mutable(x.g); std::vector<bool> fixed(x.g.n, false); for (int v = 0; v < x.g.n; ++v) fixed[v] = x.fix[v] >= 0;
        problem_management pm(*H, x.terms, fixed); measurements msm(*H, x.terms); mpi_communication mpic; auto p = problem(x); Str err; if (bs[0] == 'f') { maximum_flow mf(x.terms); mf.maximumIsolatingFlow(p, 0, false); } else p->lower_bound = p->upper_bound = 0; graph_contraction::deleteTermEdges(p, x.terms); if (p->graph->m() == 0 || p->terminals.size() < 2) return "";
        uint64_t a0 = opt(p, x, &err); if (!err.empty()) return err; if (a0 != want) return "before branching the optimum is " + to_string(a0) + " instead of " + to_string(want); if (bs.back() != 'x') pm.updateBound(want + bs.back() - '0');
        pm.branch(p, 0, &mpic); vh::count(1);
        uint64_t best = pm.isBestSolutionInitialized() ? (uint64_t)pm.bestCut() : INF; if (best != INF) { auto s = pm.getBestSolution(); err = feasible(x, s); if (!err.empty()) return "stored solution: " + err; uint64_t w = cost(x.g, s); if (bs.back() == 'x' && w != best) return "stored solution has weight " + to_string(w) + ", recorded is " + to_string(best); if (w < want) return "the reference is wrong"; best = w; }
        int ch = 0; while (auto q = pm.pullProblem(0, false)) { ++ch; problemPointer r = *q; uint64_t a = opt(r, x, &err); if (!err.empty()) return "subproblem: " + err; if (a != INF && a < want) return "a subproblem has optimum " + to_string(a) + ", the problem has " + to_string(want); if (a != INF && (uint64_t)r->lower_bound > a) return "a subproblem has lower bound " + to_string(r->lower_bound) + ", its optimum is " + to_string(a); best = std::min(best, a); }
        vh::outcome(vh::hash(sel + to_string(ch) + "/" + to_string(want))); if (best != want) return "the best of solution and " + to_string(ch) + " subproblems is " + (best == INF ? Str("nothing") : to_string(best)) + ", the optimum is " + to_string(want);
        return ""; });
}
// ---- local search. spec: graph fix k dev solution-digits
static Str run_ls(std::istringstream& is) {
    Inst x = parse(is); int dev; Str ds; is >> dev >> ds; std::vector<NodeID> s0; for (char d : ds) s0.push_back(d - '0'); auto f0 = feasible(x, s0); if (!f0.empty()) return "bad spec"; uint64_t want = brute(x.g, x.fix, x.k);
    return explore(dev, [&]() -> Str {
        conf(x); auto H = build_mutable(x.g); std::vector<bool> fixed(x.g.n, false); for (int v = 0; v < x.g.n; ++v) fixed[v] = x.fix[v] >= 0; auto s = s0; std::vector<NodeID> terms = x.terms; local_search ls(*H, terms, fixed, &s); timer t;
        uint64_t b = cost(x.g, s0); int64_t imp = ls.improveSolution(t); Str err = feasible(x, s); if (!err.empty()) return "after the local search: " + err; uint64_t a = cost(x.g, s); if (a > b) return "the weight grew from " + to_string(b) + " to " + to_string(a); if (imp < 0 || b - a != (uint64_t)imp) return "the weight went from " + to_string(b) + " to " + to_string(a) + ", reported is an improvement of " + to_string(imp);
        if (a < want) return "the reference is wrong"; if (a < b) vh::count(1); vh::outcome(vh::hash(to_string(b) + ">" + to_string(a))); auto G = view(H, &err); if (!err.empty() || G.str() != x.g.str()) return "the graph was changed";
        return ""; });
}
// ---- messages. spec: graph fix k steps...   (f: isolating flow, d: delete terminal edges, k: kernelization, m<i>: i-th subproblem of multiway branching, s<i>: of single branching, c: as solveProblem rebuilds a shrunken graph, C: rebuild anyway, e<i>: contract the i-th edge, x<i>: delete it)
static Str same(problemPointer a, problemPointer b, const Inst& x) {
    if (a->lower_bound != b->lower_bound) return "lower bound"; if (a->upper_bound != b->upper_bound) return "upper bound"; if (a->deleted_weight != b->deleted_weight) return "deleted weight"; if (a->terminals.size() != b->terminals.size()) return "number of terminals"; for (size_t i = 0; i < a->terminals.size(); ++i) if (a->terminals[i].position != b->terminals[i].position || a->terminals[i].original_id != b->terminals[i].original_id) return "terminal " + to_string(i);
    if (b->terminals.size()) for (auto& t : b->terminals) if (!t.invalid_flow) return "a terminal claims a flow of another process"; if (a->mappings.size() != b->mappings.size()) return "number of mappings"; for (size_t i = 0; i < a->mappings.size(); ++i) if (*a->mappings[i] != *b->mappings[i]) return "mapping " + to_string(i);
    if (b->priority_edge.first != UNDEFINED_NODE && b->priority_edge != a->priority_edge) return "priority edge";
    Str e1, e2; WG g = view(a->graph, &e1, true), h = view(b->graph, &e2, true); if (!e1.empty()) return "the original is invalid: " + e1; if (!e2.empty()) return e2; if (g.str() != h.str()) return "graph " + g.str() + " became " + h.str(); if (a->graph->m() != b->graph->m()) return "number of edges"; if (a->graph->getOriginalNodes() != b->graph->getOriginalNodes()) return "number of original vertices";
    for (NodeID v = 0; v < a->graph->getOriginalNodes(); ++v) if (a->graph->getCurrentPosition(v) != b->graph->getCurrentPosition(v)) return "position of vertex " + to_string(v);
    for (NodeID v : a->graph->nodes()) { auto p = a->graph->containedVertices(v), q = b->graph->containedVertices(v); std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); if (p != q) return "vertices contained in " + to_string(v); }
    (void)x; return ""; }
static Str run_msg(std::istringstream& is) {
    Inst x = parse(is); std::vector<Str> st; Str t; while (is >> t) st.push_back(t);
    return explore(0, [&]() -> Str {
        conf(x); auto H = build_mutable(x.g); std::vector<bool> fixed(x.g.n, false); for (int v = 0; v < x.g.n; ++v) fixed[v] = x.fix[v] >= 0; measurements msm(*H, x.terms); auto p = problem(x); maximum_flow mf(x.terms); Str err; p->lower_bound = 0; p->upper_bound = 1 << 20;
        auto trip = [&](const char* when) -> Str { Str e; uint64_t a = opt(p, x, &e); if (!e.empty()) return ""; mpi_communication mpic; mpic.sendProblem(p, 0); auto q = mpic.recvProblem(0); Str d = same(p, q, x); if (!d.empty()) return Str(when) + ": " + d + " differs"; uint64_t b = opt(q, x, &e); if (!e.empty() || a != b) return Str(when) + ": the optimum differs";
            if (mpisim::world()->box[0].size()) return "messages are left over";
            // both continue in the same way
            if (q->graph->m() && a != INF && q->terminals.size() > 2) { mf.maximumIsolatingFlow(q, 0, false); uint64_t b2 = opt(q, x, &e); if (!e.empty() || b2 != a) return Str(when) + ": the optimum of the received problem changes in the next step"; auto s = msm.getSolution(q); Str f = feasible(x, s); if (!f.empty()) return Str(when) + ": solution of the received problem: " + f; if (cost(x.g, s) > (uint64_t)q->upper_bound) return Str(when) + ": solution of the received problem is worse than its bound"; }
            vh::count(1); return ""; };
        Str r = trip("at the start"); if (!r.empty()) return r;
        for (auto& s : st) { int i = s.size() > 1 ? atoi(s.c_str() + 1) : 0; graph_contraction::setTerminals(p, x.terms); if (opt(p, x, &err) == INF) break;
            switch (s[0]) {
            case 'f': if (p->terminals.size() < 2 || !p->graph->m()) return ""; mf.maximumIsolatingFlow(p, 0, false); break; case 'd': graph_contraction::deleteTermEdges(p, x.terms); break;
            case 'k': { if (!p->graph->m()) return ""; kernelization_criteria kc(x.terms); kc.kernelization(p, UNDEFINED_FLOW, false); break; }
            case 'm': case 's': { auto c = configuration::getConfig(); c->multibranch = s[0] == 'm'; graph_contraction::deleteTermEdges(p, x.terms); if (!p->graph->m() || p->terminals.size() < 2) return ""; problem_management pm(*H, x.terms, fixed); mpi_communication mpic; pm.branch(p, 0, &mpic); std::vector<problemPointer> v; while (auto q = pm.pullProblem(0, false)) v.push_back(*q); if (i >= (int)v.size()) return ""; p = v[i]; break; }
            case 'c': if (p->graph->n() * 2 >= p->graph->getOriginalNodes()) break; [[fallthrough]];
            case 'C': { auto map = std::make_shared<std::vector<NodeID> >(); for (size_t v = 0; v < p->graph->getOriginalNodes(); ++v) map->emplace_back(p->graph->getCurrentPosition(v)); p->mappings.emplace_back(map); p->graph = p->graph->simplify(); graph_contraction::setTerminals(p, x.terms); break; }
            case 'e': case 'x': { int c = 0; bool done = false; for (NodeID v = 0; v < p->graph->n() && !done; ++v) for (EdgeID e : p->graph->edges_of(v)) if (c++ == i) { if (s[0] == 'e') p->graph->contractEdge(v, e); else { p->deleted_weight += p->graph->getEdgeWeight(v, e); p->graph->deleteEdge(v, e); } done = true; break; } if (!done) return ""; break; } }
            r = trip(("after " + s).c_str()); if (!r.empty()) return r; }
        return ""; });
}
static Str run(const Str& spec) { std::istringstream is(spec); Str r = MODE == "reduce" ? run_reduce(is) : MODE == "branch" ? run_branch(is) : MODE == "ls" ? run_ls(is) : run_msg(is); return r; }
static Str fixs(const std::vector<int>& f) { Str s; for (size_t i = 0; i < f.size(); ++i) s += (i ? "," : "") + (f[i] < 0 ? Str(".") : to_string(f[i])); return s; }
static bool terms(int n, int kmin, int kmax, bool both, const std::function<bool(const std::vector<int>&, int)>& f) {
    for (int m = 1; m < 1 << n; ++m) { int k = __builtin_popcount(m); if (k < kmin || k > kmax) continue; for (int rev = 0; rev < (both ? 2 : 1); ++rev) { std::vector<int> x(n, -1); int c = 0; for (int i = 0; i < n; ++i) if (m >> i & 1) { x[i] = rev ? k - 1 - c : c; ++c; } if (!f(x, k)) return false; } } return true; }
static WG scale(WG g, uint64_t f, uint64_t d) { for (auto& x : g.w) if (x) { x = x * f + d; ++d; } return g; }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough"; bool stop = false; auto em = [&](const Str& s) { if (!stop && !emit(s)) stop = true; return !stop; };
    auto graphs = [&](int lim, bool conn, const std::function<bool(const WG&, int)>& f) {   // cls 0: all labelled, 1: classes
        for (int n = 2; n <= 4; ++n) { all_labelled(n, { 0, 1, 2 }, [&](const WG& g) { return (conn && !g.connected()) || f(g, 0); }); if (stop) return; }
        for (auto& g : iso_classes(5, th || lim > 5 ? 3 : 2)) if (!conn || g.connected()) { if (!f(g, 1) || !f(scale(g, 3, 1), 1)) return; }
        if (lim >= 6) for (auto& g : iso_classes(6, 2)) if (!conn || g.connected()) for (int i = 0; i < (th ? 4 : 2); ++i) { WG h = i == 0 ? g : scale(g, i == 1 ? 1 : i == 2 ? 5 : 0, i == 1 ? 0 : i == 2 ? 1 : 3); if (i == 1) { int c = 0; for (auto& w : h.w) if (w) w = 1 + (c++ * 7) % 4; } if (!f(h, 2)) return; }
        if (lim >= 7) for (auto& g : iso_classes(7, 2)) if (g.m() >= 8 && (th || g.m() <= 13) && g.connected()) { if (!f(g, 3)) return; WG h = g; int c = 0; for (auto& w : h.w) if (w) w = 1 + (c++ * 5) % 4; if (th && !f(h, 3)) return; } };
    if (MODE == "reduce") {
        static const char* OPS[] = { "all", "low", "high", "tri", "eq", "flow", "aps" };
        graphs(7, true, [&](const WG& g, int cls) { return terms(g.n, 2, 4, cls == 0 || th, [&](const std::vector<int>& f, int k) { if (cls == 3 && k != 3 && !(th && k == 4)) return true; Str s = g.str() + " " + fixs(f) + " " + to_string(k) + " "; bool ok = true;
            for (auto op : OPS) for (int fl = 0; fl < 3 && ok; ++fl) { if (cls >= 2 && fl == 1) continue; bool all = op == Str("all"); bool rnd = all || op == Str("flow"); if (cls == 3 && !all && fl) continue; for (const char* b : { "1", "3", "x", "0" }) { if (!all && *b != 'x') continue; if (cls >= 2 && (*b == '3' || *b == '0') && !th) continue; ok = ok && em(s + op + " " + b + " " + to_string(fl) + " " + (rnd && (cls == 0 || (cls == 1 && *b == '1')) && fl != 1 ? (cls == 0 && g.n < 4 ? "2" : "1") : "0")); } }
            return ok; }); });
        // the local reductions compare sums of weights: more weights
        for (auto& g : iso_classes(5, 4)) if (g.connected() && !stop) terms(5, 2, 3, false, [&](const std::vector<int>& f, int k) { Str t = g.str() + " " + fixs(f) + " " + to_string(k) + " "; for (const char* q : { "tri x 0 0", "high x 0 0", "eq x 0 0", "low x 0 0" }) if (!em(t + q)) return false; return true; });
        for (auto& g : iso_classes(6, 2)) if (g.connected() && g.m() >= 7) for (int wt = 1; wt < (th ? 12 : 5) && !stop; ++wt) { WG h = g; int c = wt; for (auto& w : h.w) if (w) w = 1 + (c += wt, c * c + wt) % 5; terms(6, 2, 3, false, [&](const std::vector<int>& f, int k) { Str t = h.str() + " " + fixs(f) + " " + to_string(k) + " "; for (const char* q : { "tri x 0 0", "high x 0 0", "eq x 0 0" }) if (!em(t + q)) return false; return true; }); }
        // heavy weights, larger graphs
        for (auto& g : iso_classes(5, 2)) if (g.connected() && !stop) terms(5, 3, 4, false, [&](const std::vector<int>& f, int k) { return em(scale(g, 1ull << 32, 1).str() + " " + fixs(f) + " " + to_string(k) + " all 1 2 0") && em(scale(g, (1ull << 31) - 1, 1).str() + " " + fixs(f) + " " + to_string(k) + " all 1 0 0"); });
        for (const char* nm : { "cycle", "wheel", "ladder", "complete", "grid" }) for (int n = 8; n <= 10 && !stop; ++n) for (int v = 0; v < 3; ++v) { WG g = named(nm, n, 2); if (!g.n || !g.m()) continue; if (v) g = scale(g, v, 1); for (int a = 0; a < g.n; ++a) for (int b = a + 1; b < g.n; ++b) for (int d = b + 1; d < g.n; ++d) { std::vector<int> f(g.n, -1); f[a] = 1; f[b] = 0; f[d] = 2; for (const char* q : { "all 1 0 0", "all 1 2 0", "all x 0 0" }) if (!em(g.str() + " " + fixs(f) + " 3 " + q)) return; } }
        return; }
    if (MODE == "branch") {
        static const char* S[] = { "multi", "heavy_vertex", "heavy", "heavy_global", "connection", "distance", "random" };
        graphs(7, true, [&](const WG& g, int cls) { return terms(g.n, 2, 5, cls == 0 || th, [&](const std::vector<int>& f, int k) { if (k == g.n || (cls == 3 && k != 3 && k != 4)) return true; Str s = g.str() + " " + fixs(f) + " " + to_string(k) + " "; int i = 0; for (auto x : S) for (const char* b : { "fx", "f1", "rx", "r3" }) { if (cls && ++i % 3 && !(th && cls < 3) && x != S[0]) continue; if (x == Str("multi") && b[0] == 'r' && cls == 3) continue; if (x == Str("distance") && b[0] == 'r') continue;   // expects that no neighbour of a terminal is a leaf, as is the case after the isolating flows
            if (!em(s + x + " " + b + " " + (cls == 0 ? "1" : "0"))) return false; } return true; }); });
        for (uint64_t w : { 16384ull, 32768ull, 65536ull, 1ull << 31, 1ull << 32 }) for (auto& g : iso_classes(5, 2)) if (g.connected() && !stop) for (int d = 0; d < 2; ++d) terms(5, 2, 4, false, [&](const std::vector<int>& f, int k) { Str s = scale(g, w, d).str() + " " + fixs(f) + " " + to_string(k) + " "; for (auto x : S) for (const char* b : { "fx", "f1" }) if (!em(s + x + " " + b + " 0")) return false; return true; });
        return; }
    if (MODE == "ls") {
        graphs(6, false, [&](const WG& g, int cls) { return terms(g.n, 2, 4, cls == 0, [&](const std::vector<int>& f, int k) { if (cls == 2 && (k != 3 || g.m() < 5)) return true; int free = 0; for (int x : f) free += x < 0; int tot = 1; for (int i = 0; i < free; ++i) tot *= k; if (tot == 1) return true; if (cls == 2 && tot > 81 && !th) return true;
            for (int q = 0; q < tot; ++q) { if (cls == 2 && !th && q % 3 != g.m() % 3) continue; Str d; int y = q; for (int x : f) { if (x >= 0) d += '0' + x; else { d += '0' + y % k; y /= k; } } if (!em(g.str() + " " + fixs(f) + " " + to_string(k) + " " + (g.n <= 3 ? "2" : g.n == 4 && (th || q % 4 == 0) ? "1" : "0") + " " + d)) return false; } return true; }); });
        // seven vertices, two or three terminals: moves of one vertex make what is known of others outdated
        { int ix = 0; for (auto& g : iso_classes(7, 2)) if (g.connected() && g.m() <= (th ? 21 : 14)) for (int wt = 0; wt < 2 && !stop; ++wt) { WG h = g; int c = ++ix; if (wt) for (auto& w : h.w) if (w) w = 1 + (c++ * 5) % 4; terms(7, 2, 3, false, [&](const std::vector<int>& f, int k) { if (!th && (k == 3 ? (f[0] + f[3] + f[5] + ix) % 3 || g.m() > 10 : false)) return !stop; int tot = 1; for (int x : f) if (x < 0) tot *= k; for (int q = 0; q < tot && !stop; ++q) { Str d; int y = q; for (int x : f) { if (x >= 0) d += '0' + x; else { d += '0' + y % k; y /= k; } } em(h.str() + " " + fixs(f) + " " + to_string(k) + " 0 " + d); } return !stop; }); } }
        // several vertices per terminal
        for (auto& g : iso_classes(5, 2)) for (int x = 0; x < 243 && !stop; ++x) { std::vector<int> f; Str d; int y = x, a = 0, b = 0; for (int v = 0; v < 5; ++v, y /= 3) { int t = y % 3 - 1; f.push_back(t); a += t == 0; b += t == 1; d += t < 0 ? (x + v) % 2 ? '1' : '0' : (char)('0' + t); } if (!a || !b || a + b == 5) continue; em(g.str() + " " + fixs(f) + " 2 1 " + d); }
        return; }
    // histories of steps
    static const char* ST[] = { "f", "d", "k", "m0", "m1", "s0", "s1", "C", "e0", "e2", "x0", "x1" }; int N = 12;
    graphs(6, false, [&](const WG& g, int cls) { return terms(g.n, 2, 4, cls == 0, [&](const std::vector<int>& f, int k) { if (cls == 2 && (k == 2 || (!th && (g.m() + f[0] + f[1]) % 6))) return true; int L = g.n <= 3 ? (th ? 4 : 3) : cls == 0 ? (th ? 3 : 2) : cls == 1 ? (th ? 3 : 2) : 2; Str s = g.str() + " " + fixs(f) + " " + to_string(k); if (k == g.n) L = 1; if (g.n >= 4 && !g.connected() && !th) L = 1;
        std::vector<int> x(L, 0); while (true) { Str q = s; for (int i : x) q += Str(" ") + ST[i]; if (!em(q)) return false; int i = 0; while (i < L && ++x[i] == N) x[i++] = 0; if (i == L) break; } return true; }); });
}
int main(int c, char** v) {
    vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; for (int i = 1; i + 1 < c; ++i) { if (Str(v[i]) == "--arg") MODE = v[i + 1]; if (Str(v[i]) == "--tier") THOROUGH = Str(v[i + 1]) == "thorough"; }
    return vh::main_(c, v, enumerate, run); }
