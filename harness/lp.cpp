// Label propagation and renumbering of clusters (C27), sequential and (-DPARALLEL, one thread) shared-memory code.
#include "vh.hpp"
#include "vc_build.hpp"
#include "tools/timer.h"
#include "algorithms/global_mincut/minimum_cut_helpers.h"
#ifdef PARALLEL
#include "parallel/coarsening/label_propagation.h"
#else
#include "coarsening/label_propagation.h"
#endif
typedef std::string Str; using std::to_string;
static WG view_of(graphAccessPtr G, Str* e) { return view(G, e); } static WG view_of(mutableGraphPtr G, Str* e) { return view(G, e); }
template <class GP> static Str remap(GP G, int n, const std::vector<NodeID>& c, bool save) {
    configuration::getConfig()->save_cut = save; auto [m, rm] = minimum_cut_helpers<GP>::remap_cluster(G, c); std::map<NodeID, NodeID> first; std::vector<int> seen(n, 0);
    if ((int)m.size() != n) return "mapping has " + to_string(m.size()) + " entries"; std::set<NodeID> ids(c.begin(), c.end()); if (rm.size() != ids.size()) return to_string(rm.size()) + " blocks for " + to_string(ids.size()) + " clusters";
    for (size_t p = 0; p < rm.size(); ++p) { if (rm[p].empty()) return "empty block"; for (NodeID v : rm[p]) { if (v >= (NodeID)n || seen[v]++) return "blocks are no partition"; if (m[v] != p) return "mapping and blocks disagree at vertex " + to_string(v); if (c[v] != c[rm[p][0]]) return "a block joins two clusters"; if (save && G->getPartitionIndex(v) != p) return "stored block of vertex " + to_string(v) + " is " + to_string(G->getPartitionIndex(v)); } }
    for (int i = 0; i < n; ++i) if (!seen[i]) return "vertex " + to_string(i) + " is in no block"; return ""; }
template <class GP> static Str labels(const WG& g, int dev) {
    Str err; bool capped = false; auto fn = [&]() -> bool { vh::count(0); vh::tick(); auto G = builder<GP>::make(g); label_propagation<GP> lp; auto c = lp.propagate_labels(G); err = [&]() -> Str {
        if ((int)c.size() != g.n) return "clustering has " + to_string(c.size()) + " entries"; for (int i = 0; i < g.n; ++i) if (c[i] >= (NodeID)g.n) return "cluster id of vertex " + to_string(i) + " is " + to_string(c[i]);
        // labels only travel along edges
        for (int i = 0; i < g.n; ++i) { std::vector<int> r(g.n, 0), st{ (int)c[i] }; r[c[i]] = 1; while (st.size()) { int v = st.back(); st.pop_back(); for (int w = 0; w < g.n; ++w) if (!r[w] && g.at(v, w)) r[w] = 1, st.push_back(w); } if (!r[i]) return "vertex " + to_string(i) + " carries the label of vertex " + to_string(c[i]) + " of another component"; }
        Str e; WG h = view_of(G, &e); if (!e.empty() || h.str() != g.str()) return "the graph was changed"; uint64_t k = std::set<NodeID>(c.begin(), c.end()).size(); if ((int)k < g.n) vh::count(1); vh::outcome(vh::hash(g.str() + to_string(k)));
        for (bool s : { false, true }) { Str x = remap<GP>(G, g.n, c, s); if (!x.empty()) return x; } return ""; }(); return err.empty(); };
    if (dev) vrng::explore(fn, dev, 40, 20000, &capped); else for (int s = 1; s <= 3 && err.empty(); ++s) { vrng::src().exploring = false; vrng::src().seed(s); fn(); }
    if (capped) vh::count(2); return err; }
static Str run(const Str& spec) {
    reset_config(); std::istringstream is(spec); Str what, gs; is >> what >> gs; WG g = WG::parse(gs);
    if (what == "remap") { std::vector<NodeID> c; int x; while (is >> x) c.push_back(x); vh::count(0, 4); for (bool s : { false, true }) { Str e = remap<graphAccessPtr>(build_static(g), g.n, c, s); if (e.empty()) e = remap<mutableGraphPtr>(build_mutable(g), g.n, c, s); if (!e.empty()) return "renumbering: " + e; } return ""; }
    int dev; Str gt; is >> gt >> dev; return gt == "static" ? labels<graphAccessPtr>(g, dev) : labels<mutableGraphPtr>(g, dev); }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", stop = false; auto em = [&](const Str& s) { if (!stop && !emit(s)) stop = true; return !stop; }; auto two = [&](const WG& g, int dev) { return em("lp " + g.str() + " static " + to_string(dev)) && em("lp " + g.str() + " mutable " + to_string(dev)); };
    for (int n = 1; n <= 3; ++n) all_labelled(n, { 0, 1, 2, 3 }, [&](const WG& g) { return two(g, 3); }); all_labelled(4, { 0, 1, 2 }, [&](const WG& g) { return two(g, th ? 3 : 2); });
    for (auto& g : iso_classes(5, 3)) for (auto& q : labelings(5, th ? 12 : 2)) two(g.perm(q), th ? 2 : 1); for (auto& g : iso_classes(6, 2)) for (auto& q : labelings(6, th ? 12 : 3)) two(g.perm(q), th ? 2 : 1); for (auto& g : iso_classes(7, 2)) for (auto& q : labelings(7, th ? 4 : 1)) two(g.perm(q), 1);
    for (Str k : { "cycle", "path", "star", "wheel", "ladder", "complete" }) for (int n : { 8, 9, 12, 20, 64, 65, 130 }) for (int w : { 1, 3 }) { WG g = named(k, n, w); if (g.n) two(g, n <= 12 ? 1 : 0); } for (uint64_t w : { (1ull << 31) - 1, 1ull << 31, 1ull << 32, (1ull << 32) + 1 }) for (auto& g : iso_classes(5, 2)) { WG h = g; for (auto& x : h.w) if (x) x *= w; two(h, th ? 1 : 0); }
    for (int n = 1; n <= (th ? 6 : 5); ++n) { WG g = named("path", n, 1); if (!g.n) g = WG(n); std::vector<int> c(n, 0); while (!stop) { Str s = "remap " + g.str(); for (int x : c) s += " " + to_string(x); em(s); int i = 0; while (i < n && ++c[i] == n) c[i++] = 0; if (i == n) break; } }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; return vh::main_(c, v, enumerate, run); }
