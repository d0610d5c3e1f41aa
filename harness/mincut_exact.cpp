// Global minimum cut: reported value and reported side, every small graph x algorithm x queue x start vertex,
// large edge weights, and blow-ups big enough to reach the coarsening paths.
#include "vh.hpp"
#include "vc_build.hpp"
#include "algorithms/global_mincut/algorithms.h"
typedef std::string Str; using std::vector;
static Str MODE;   // "exact" (value), "heur" (heuristics), "side" (reported side)
struct Case { EG g; WG w; bool small = false, big_weights = false; uint64_t opt = 0; };
static Case parse(const Str& spec) {
    Case c; std::istringstream i(spec); Str t; i >> t;
    if (t == "B") { Str sk, kind; int b, perm; uint64_t heavy; i >> sk >> kind >> b >> heavy >> perm; WG s = WG::parse(sk); c.g = blow_up(s, kind, b, heavy, perm); c.opt = c.g.n <= 140 ? reference_mincut(c.g) : brute_mincut(s); c.big_weights = false; if (c.g.n > 140 && c.opt >= heavy) abort(); }
    else if (t == "L") { int top, m, b, k, a, r, cw, perm; uint64_t heavy; i >> top >> m >> b >> k >> a >> r >> cw >> heavy >> perm; c.g = many_blocks(top, m, b, k, a, r, cw, heavy, perm); c.opt = reference_mincut_sparse(c.g); }
    else { c.w = WG::parse(t); c.g = to_eg(c.w); c.small = true; c.opt = brute_mincut(c.w); for (auto x : c.w.w) c.big_weights |= x > 100000; }
    return c;
}
template <class P> Str one(const Case& k, const Str& alg, const Str& pq, bool dl, bool save, uint64_t* runs, const char* gt, size_t points) {
    Str err; 
    auto body = [&]() {
        auto c = configuration::getConfig(); reset_config(); c->pq = pq; c->disable_limiting = dl; c->save_cut = save; 
        auto G = ebuilder<P>::make(k.g);
        std::unique_ptr<minimum_cut> mc(selectMincutAlgorithm<P>(alg));
        uint64_t r = mc->perform_minimum_cut(G), opt = k.opt; vh::tick();
        bool exact = alg == "noi" || alg == "exact";
        std::ostringstream o; o << alg << " graph=" << gt << " pq=" << pq << " limit=" << !dl << " save=" << save << ": returned " << r << ", minimum cut is " << opt;
        if (MODE != "side") {
            if (exact && r != opt) { err = o.str(); return false; }
            if (r < opt) { err = o.str() + " (below the minimum)"; return false; }
            if ((alg == "vc" || alg == "inexact") && k.g.n <= 10000 && r != opt) { err = o.str(); return false; }
            if (alg == "matula" && (opt ? r > 2 * opt + 1 : r > 0)) { err = o.str() + " (above the approximation guarantee)"; return false; }
            if (k.small && !exact) { bool real = false; uint32_t full = (1u << k.w.n) - 1; for (uint32_t m = 2; m <= full && !real; m += 2) real = k.w.cut(m) == r; if (!real) { err = o.str() + " (not the weight of any cut)"; return false; } }
        }
        if (save) {
            vector<char> side(k.g.n); int in = 0; for (int i = 0; i < k.g.n; ++i) { side[i] = G->getNodeInCut(i); in += side[i]; }
            if (in == 0 || in == k.g.n) { err = o.str() + "; reported side is empty or everything"; return false; }
            uint64_t cw = eg_cut(k.g, side); if (cw != r) { err = o.str() + "; reported side has cut weight " + std::to_string(cw); return false; }
        }
        vh::outcome(r * 131 + k.g.n); return true;
    };
    bool capped = false; *runs += vrng::explore(body, 1, points, points > 6 ? 2000 : 200, &capped); if (capped) vh::count(2);
    return err;
}
static Str run(const Str& spec) {
    Case k = parse(spec); uint64_t runs = 0; Str e; bool mid = !k.small;
#ifdef PARALLEL
    vector<Str> algs = { "exact", "inexact" }; if (MODE == "exact") algs = { "exact" }; if (MODE == "heur") algs = { "inexact" };
#else
    vector<Str> algs = { "noi", "vc", "matula", "pr", "ks" }; if (MODE == "exact") algs = { "noi" }; if (MODE == "heur") algs = { "vc", "matula", "pr", "ks" };
#endif
    bool huge = k.g.n > 5000;
    for (bool save : { false, true }) { if (MODE == "side" && !save) continue; if (MODE == "heur" && save) continue; if (MODE == "exact" && save && huge) continue;
        for (auto& a : algs) {
            if (huge && a == "ks") continue;
            vector<std::pair<Str, bool> > cfgs = { { "default", false }, { "bqueue", false }, { "bstack", false }, { "heap", false }, { "bqueue", true }, { "bstack", true }, { "heap", true } };
            if (a == "ks" || a == "pr") cfgs = { { "default", false } };
            if (k.big_weights) { cfgs = { { "default", false }, { "heap", false }, { "heap", true } }; if (a == "matula" || a == "ks") cfgs.resize(2); if (a == "pr") cfgs.resize(1); }
            if (huge) cfgs.resize(1);
            for (auto& c : cfgs) {
                size_t pts = mid ? (k.g.n > 200 ? 0 : 1) : 6;
                if (a != "ks") if (!(e = one<mutableGraphPtr>(k, a, c.first, c.second, save, &runs, "mutable", pts)).empty()) break;
                if (!(e = one<graphAccessPtr>(k, a, c.first, c.second, save, &runs, "static", pts)).empty()) break;
            }
            if (!e.empty()) break;
        }
        if (!e.empty()) break;
    }
    vh::count(0, runs); vh::count(3, vrng::src().picks + runs); vrng::src().picks = 0; vh::count(1, k.opt > 0 && k.g.n > 3); return e;
}
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough"; auto f = [&](const WG& g) { return emit(g.str()); };
    for (int n = 2; n <= 4; ++n) all_labelled(n, { 0, 1, 2, 3 }, f);
    all_labelled(4, { 0, 1, 1ull << 31, (1ull << 32) + 1, 5ull << 31 }, f);
    for (auto& g : iso_classes(5, 3)) { WG h = g; const uint64_t a[3] = { 0, (1ull << 32) - 1, (1ull << 32) + 2 }; for (auto& x : h.w) x = a[x]; for (auto& p : labelings(5, 2)) if (!f(h.perm(p))) return; }
    for (auto& g : iso_classes(5, th ? 4 : 3)) for (auto& p : labelings(5, th ? 12 : 4)) if (!f(g.perm(p))) return;
    for (auto& g : iso_classes(6, 2)) for (auto& p : labelings(6, th ? 24 : 4)) if (!f(g.perm(p))) return;
    if (th) for (auto& g : iso_classes(6, 3)) for (auto& p : labelings(6, 2)) if (!f(g.perm(p))) return;
    for (auto& g : iso_classes(7, 2)) for (auto& p : labelings(7, th ? 6 : 1)) if (!f(g.perm(p))) return;
    for (int n : { 3, 4, 5 }) for (auto& g : iso_classes(n, n < 5 ? 3 : 2)) if (g.connected()) for (const char* kind : { "path", "cycle", "clique", "star", "tree" }) for (int b : { 2, 12, 26 }) for (int perm : { 0, 1 }) for (int heavy : { 2, 9 }) {
        std::ostringstream s; s << "B " << g.str() << ' ' << kind << ' ' << b << ' ' << heavy << ' ' << perm; if (b * n > 130) continue; if (!emit(s.str())) return; }
    for (auto& g : iso_classes(4, 2)) if (g.connected()) for (const char* kind : { "path", "tree", "star" }) for (int perm : { 0, 1 }) { std::ostringstream s; s << "B " << g.str() << ' ' << kind << " 2600 " << " 50 " << perm; if (!emit(s.str())) return; if (th) { s << 1; emit(s.str()); } }
    for (int top : { 0, 1, 2 }) for (int m : { 420, 870 }) for (int k : { 0, 60, m }) for (int a : { 2, 3 }) for (int r : { 1, 4 }) for (int cw : { 2, 3 }) for (int perm : { 0, 1 }) {
        if (k == 0 && (a > 2 || r > 1)) continue; if (top == 2 && (k < m || cw > 2)) continue; if (!th && perm && k == m) continue;
        std::ostringstream s; s << "L " << top << ' ' << m << ' ' << (m == 420 ? 25 : 12) << ' ' << k << ' ' << a << ' ' << r << ' ' << cw << " 50 " << perm; if (!emit(s.str())) return; }
}
int main(int c, char** v) {
    vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; vh::cnt_names()[3] = "transitions";
    for (int i = 1; i + 1 < c; ++i) if (Str(v[i]) == "--arg") MODE = v[i + 1];
    return vh::main_(c, v, enumerate, run);
}
