// Shared-memory (OpenMP) code under every schedule up to a preemption bound: reductions, contraction, label propagation, whole solvers.
#include "vh.hpp"
#include "conc.hpp"
#include "vc_build.hpp"
#include "cactus_ref.hpp"
#include "algorithms/global_mincut/algorithms.h"
#include "parallel/algorithm/parallel_cactus.h"
#include "parallel/coarsening/contract_graph.h"
#include "parallel/coarsening/contraction_tests.h"
#include "parallel/coarsening/label_propagation.h"
using std::to_string; static Str MODE; static bool THOROUGH; typedef std::vector<int> P;
static Str mask(uint32_t m, int n) { Str s = "{"; for (int i = 0; i < n; ++i) if (m >> i & 1) s += " " + to_string(i); return s + " }"; }
struct Ref { WG g; std::vector<uint64_t> w; uint64_t min, mindeg; std::set<uint32_t> cuts; };
static Ref make_ref(const WG& g) { Ref r; r.g = g; r.w.assign(1u << g.n, 0); r.min = ~0ull; for (uint32_t m = 2; m < 1u << g.n; m += 2) { r.w[m] = g.cut(m); r.min = std::min(r.min, r.w[m]); } for (uint32_t m = 2; m < 1u << g.n; m += 2) if (r.w[m] == r.min) r.cuts.insert(m); r.mindeg = ~0ull; for (int i = 0; i < g.n; ++i) r.mindeg = std::min(r.mindeg, g.deg(i)); return r; }
template <class UF> static Str blocks(UF& uf, int n, std::vector<uint32_t>* r) { std::map<unsigned, uint32_t> b; for (int i = 0; i < n; ++i) { unsigned f = uf.Find(i); if (f >= (unsigned)n) return "representative out of range"; b[f] |= 1u << i; } if (uf.n() != b.size()) return "wrong number of sets"; for (auto& x : b) if (x.second & (x.second - 1)) r->push_back(x.second); return ""; }
static bool intact(uint32_t cut, const std::vector<uint32_t>& bl) { for (uint32_t b : bl) if ((cut & b) && (cut & b) != b) return false; return true; }
static Str show(const std::vector<uint32_t>& b, int n) { Str s = " [merged"; for (uint32_t x : b) s += " " + mask(x, n); return s + "]"; }
enum Keep { LIGHTER, ONE, ALL };
template <class UF> static Str judge(const Ref& r, UF& uf, uint64_t bound, Keep k) {
    std::vector<uint32_t> b; Str e = blocks(uf, r.g.n, &b); if (!e.empty()) return e; bool some = k != ONE || r.min >= bound;
    for (uint32_t m = 2; m < 1u << r.g.n; m += 2) { bool in = intact(m, b); if (k == LIGHTER && r.w[m] < bound && !in) return "merges across the cut " + mask(m, r.g.n) + " of weight " + to_string(r.w[m]) + show(b, r.g.n); if (k == ALL && r.w[m] == r.min && !in) return "merges across the minimum cut " + mask(m, r.g.n) + show(b, r.g.n); if (k == ONE && r.w[m] == r.min && in) some = true; }
    return some ? "" : "merges across every minimum cut" + show(b, r.g.n); }
static Str go(const conc::Options& o, const std::function<Str()>& body, const Str& what) {
    auto R = conc::explore([&]() -> Str { vh::tick(); vrng::src().seed(1); vrng::src().pos = 0; vrng::src().taken.clear(); vrng::src().arity.clear(); return body(); }, o); vh::count(0, R.runs); vh::count(3, R.steps); vh::count(2, R.capped); vh::count(4, R.points); vh::count(5, R.shared); vh::count(1, R.runs > 2); vh::outcome(R.runs * 64 + R.shared); return R.err.empty() ? "" : what + ": " + R.err; }
template <class GP, class MK> static Str reductions(const Ref& r, MK mk, const conc::Options& o, const Str& gt) {
    Str e; std::set<uint64_t> one, all; uint64_t lo = std::max<uint64_t>(r.min, 1); if (lo <= r.mindeg) { one.insert(lo); one.insert(r.mindeg); if (lo + 1 <= r.mindeg) one.insert(lo + 1); } all.insert(r.min + 1); if (r.mindeg > r.min) all.insert(r.mindeg + 1);
    for (uint64_t b : one) { if (!(e = go(o, [&] { auto G = mk(); auto uf = tests::prTests12(G, b); return judge(r, uf, b, ONE); }, gt + " prTests12 with bound " + to_string(b))).empty()) return e; if (!(e = go(o, [&] { auto G = mk(); auto uf = tests::prTests34(G, b); return judge(r, uf, b, ONE); }, gt + " prTests34 with bound " + to_string(b))).empty()) return e; }
    for (uint64_t b : all) { if (!(e = go(o, [&] { auto G = mk(); auto uf = tests::prTests12(G, b, true); return judge(r, uf, b, ALL); }, gt + " prTests12 (all cuts) with bound " + to_string(b))).empty()) return e; if (!(e = go(o, [&] { auto G = mk(); auto uf = tests::prTests34(G, b, true); return judge(r, uf, b, ALL); }, gt + " prTests34 (all cuts) with bound " + to_string(b))).empty()) return e; }
    // every combination of start vertices
    auto& S = vrng::src(); S.taken.reserve(64); S.arity.reserve(64); S.max_points = 2; struct Off { ~Off() { vrng::src().exploring = false; } } off; int nn = std::min(r.g.n, 8);
    for (uint64_t b : std::set<uint64_t>{ lo, lo + 1, r.mindeg + 1 }) for (bool nb : { false, true }) for (int a0 = 0; a0 < nn; ++a0) for (int a1 = 0; a1 < nn; ++a1) { S.exploring = true; S.prefix = { (uint32_t)a0, (uint32_t)a1 }; conc::Options q = o; if (r.g.n > 3 && q.free_ws) q.free_ws = false; if (r.g.n == 4) q.bound = std::min(q.bound + !nb, 2); if (!(e = go(q, [&] { auto G = mk(); exact_parallel_minimum_cut<GP> mc; auto uf = mc.parallel_modified_capforest(G, b, nb); return judge(r, uf, b, LIGHTER); }, gt + " connectivity scan with bound " + to_string(b) + (nb ? " without blacklist" : "") + " from " + to_string(a0) + " and " + to_string(a1))).empty()) return e; }
    return ""; }
static Str heavy(const Ref& r, const conc::Options& o) {
    Str e; for (uint64_t b : std::set<uint64_t>{ r.min ? r.min - 1 : 0, r.min, r.min + 1 }) { if (!(e = go(o, [&] { auto G = build_static(r.g); union_find uf(r.g.n); tests::findHeavyEdges(G, &uf, b); return judge(r, uf, b + 1, LIGHTER); }, "findHeavyEdges with limit " + to_string(b))).empty()) return e; if (!(e = go(o, [&] { auto G = build_static(r.g); union_find uf(r.g.n); tests::findHeavyTriangles(G, &uf, b); return judge(r, uf, b + 1, LIGHTER); }, "findHeavyTriangles with limit " + to_string(b))).empty()) return e; }
    return ""; }
// ---- contraction
static WG full(const EG& e) { WG g(e.n); for (auto [u, v, w] : e.e) g.add(u, v, w); return g; }
template <class GP> static Str match(GP H, const WG& g, const std::vector<NodeID>& m, int k) {
    if ((int)H->number_of_nodes() != k) return to_string(H->number_of_nodes()) + " vertices for " + to_string(k) + " blocks"; Str e; WG h = view(H, &e); if (!e.empty()) return e; WG q(k); for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (m[i] != m[j] && g.at(i, j)) q.add(m[i], m[j], g.at(i, j));
    uint64_t cnt = 0; for (NodeID v : H->nodes()) { std::set<NodeID> ts; uint64_t d = 0; for (EdgeID x : H->edges_of(v)) { if (!ts.insert(H->getEdgeTarget(v, x)).second) return "parallel edges"; if (H->getEdgeTarget(v, x) == v) return "self loop"; ++cnt; d += H->getEdgeWeight(v, x); } if (H->getWeightedNodeDegree(v) != d) return "wrong weighted degree"; } if (cnt != H->number_of_edges()) return "wrong edge count";
    for (int a = 0; a < k; ++a) for (int b = a + 1; b < k; ++b) if (h.at(a, b) != q.at(a, b)) return "weight between blocks " + to_string(a) + " and " + to_string(b) + " is " + to_string(h.at(a, b)) + ", should be " + to_string(q.at(a, b)); return ""; }
static Str contract(const WG& g, const EG& eg, const std::vector<NodeID>& m, int k, const conc::Options& o) {
    Str e, p = " along"; for (size_t i = 0; i < m.size() && i < 12; ++i) p += " " + to_string(m[i]);
    if (!(e = go(o, [&] { auto G = build_static(eg); return match(contraction::contractGraphSparse(G, m, k), g, m, k); }, "sparse contraction (static)" + p)).empty()) return e;
    if (!(e = go(o, [&] { auto G = build_mutable(eg); return match(contraction::contractGraphSparse(G, m, k), g, m, k); }, "sparse contraction (mutable)" + p)).empty()) return e;
    if (k > 1) if (!(e = go(o, [&] { auto G = build_static(eg); return match(contraction::contractGraphFullMesh(G, m, k), g, m, k); }, "full mesh contraction" + p)).empty()) return e;
    if (!(e = go(o, [&] { auto G = build_static(eg); return match(contraction::contractGraphSparseNoHash(G, m, k), g, m, k); }, "contraction without hashing" + p)).empty()) return e;
    return ""; }
// ---- solvers
template <class GP, class MK> static Str solvers(const Ref& r, MK mk, const conc::Options& o, const Str& gt) {
    Str e; for (Str alg : { "exact", "inexact" }) for (bool save : { false, true }) { if (!save && r.g.n > 3) continue; if (alg == "inexact" && !THOROUGH) continue; e = go(o, [&]() -> Str { configuration::getConfig()->save_cut = save; auto G = mk(); std::unique_ptr<minimum_cut> mc(selectMincutAlgorithm<GP>(alg)); uint64_t v = mc->perform_minimum_cut(G); if (v != r.min) return "returned " + to_string(v) + ", minimum cut is " + to_string(r.min); if (save) { uint32_t m = 0; for (int i = 0; i < r.g.n; ++i) if (G->getNodeInCut(i)) m |= 1u << i; if (!m || m == (1u << r.g.n) - 1) return "reported side is empty or everything"; if (r.g.cut(m) != v) return "reported side has weight " + to_string(r.g.cut(m)) + ", returned " + to_string(v); } return ""; }, gt + " solver " + alg + (save ? " with the cut saved" : "")); if (!e.empty()) return e; } return ""; }
template <class GP, class MK> static Str cactus(const Ref& r, MK mk, const conc::Options& o, const Str& gt) {
    return go(o, [&]() -> Str { configuration::getConfig()->save_cut = true; auto G = mk(); parallel_cactus<GP> pc; auto [v, C, ed] = pc.findAllMincuts(G); if (v != r.min) return "returned " + to_string(v) + ", minimum cut is " + to_string(r.min); std::set<uint32_t> got; Str e = cactus_cuts(C, r.g.n, r.min, &got); if (!e.empty()) return e; if (got != r.cuts) return "cactus represents " + to_string(got.size()) + " cuts, graph has " + to_string(r.cuts.size()); return ""; }, gt + " all minimum cuts"); }
template <class GP, class MK> static Str labels(const WG& g, MK mk, const conc::Options& o, const Str& gt) {
    Str e; for (int s = 1; s <= 3; ++s) { e = go(o, [&]() -> Str { vrng::src().seed(s); auto G = mk(); label_propagation<GP> lp; auto c = lp.propagate_labels(G); if ((int)c.size() != g.n) return "clustering has " + to_string(c.size()) + " entries"; for (int i = 0; i < g.n; ++i) if (c[i] >= (NodeID)g.n) return "cluster id of vertex " + to_string(i) + " is " + to_string(c[i]);
            auto [m, rm] = minimum_cut_helpers<GP>::remap_cluster(G, c); if ((int)m.size() != g.n) return "mapping has " + to_string(m.size()) + " entries"; std::vector<int> seen(g.n, 0); for (size_t p = 0; p < rm.size(); ++p) { if (rm[p].empty()) return "empty block"; for (NodeID v : rm[p]) { if (v >= (NodeID)g.n || seen[v]++) return "blocks are no partition"; if (m[v] != p) return "mapping and blocks disagree"; if (c[v] != c[rm[p][0]]) return "a block joins two clusters"; } } for (int i = 0; i < g.n; ++i) if (!seen[i]) return "vertex " + to_string(i) + " is in no block"; for (int i = 0; i < g.n; ++i) for (int j = 0; j < i; ++j) if (c[i] == c[j] && m[i] != m[j]) return "a cluster is split"; return ""; }, gt + " label propagation, seed " + to_string(s)); if (!e.empty()) return e; } return ""; }
static Str run(const Str& spec) {
    reset_config(); std::istringstream is(spec); Str s, gt; conc::Options o; int fw; is >> s >> gt >> o.threads >> o.bound >> fw; o.free_ws = fw; o.max_steps = 200000; o.max_runs = 400000; Str e;
    if (MODE == "contract" && gt[0] == 'b') { int b, k; Str kind; is >> kind >> b >> k; EG eg = blow_up(WG::parse(s), kind, b, 3); std::vector<NodeID> m(eg.n); for (int i = 0; i < eg.n; ++i) m[i] = gt == "bs" ? i / b : i % k; int kk = 0; for (NodeID x : m) kk = std::max<int>(kk, x + 1); return contract(full(eg), eg, m, kk, o); }
    WG g = WG::parse(s); Ref r; if (MODE != "lp" && MODE != "contract") r = make_ref(g); EG eg = to_eg(g); auto ms = [&] { return build_static(eg); }; auto mm = [&] { return build_mutable(eg); }; bool stat = gt == "static";
    if (MODE == "reductions") { if (gt == "heavy") return heavy(r, o); return stat ? reductions<graphAccessPtr>(r, ms, o, gt) : reductions<mutableGraphPtr>(r, mm, o, gt); }
    if (MODE == "solve") return stat ? solvers<graphAccessPtr>(r, ms, o, gt) : solvers<mutableGraphPtr>(r, mm, o, gt);
    if (MODE == "cactus") return stat ? cactus<graphAccessPtr>(r, ms, o, gt) : cactus<mutableGraphPtr>(r, mm, o, gt);
    if (MODE == "lp") return stat ? labels<graphAccessPtr>(g, ms, o, gt) : labels<mutableGraphPtr>(g, mm, o, gt);
    // every partition
    std::vector<NodeID> p(g.n, 0); std::function<bool(int, int)> rec = [&](int i, int k) -> bool { if (i == g.n) { e = contract(g, eg, p, k, o); return e.empty(); } for (int c = 0; c <= k && c < g.n; ++c) { p[i] = c; if (!rec(i + 1, std::max(k, c + 1))) return false; } return true; }; rec(0, 0); return e; }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough"; THOROUGH = th; bool go = true; auto E = [&](const WG& g, const Str& gt, int t, int b, int f) { return go = go && emit(g.str() + " " + gt + " " + to_string(t) + " " + to_string(b) + " " + to_string(f)); };
    auto derived = [](WG h, int k, int q) { int c = 0; for (int i = 0; i < h.n; ++i) for (int j = i + 1; j < h.n; ++j) if (h.at(i, j)) h.set(i, j, 1 + (c++ * k % 13) % q); return h; };
    if (MODE == "reductions") {
        for (int n : { 2, 3 }) all_labelled(n, { 0, 1, 2, 3 }, [&](const WG& g) { return E(g, "static", 2, 2, 1) && E(g, "mutable", 2, 2, 1) && E(g, "heavy", 2, 2, 1); });
        for (auto& g : iso_classes(4, 3)) for (auto& q : labelings(4, th ? 12 : 1)) { WG h = g.perm(q); E(h, "static", 2, th ? 2 : 1, 1); E(h, "mutable", 2, 2, 0); E(h, "heavy", 2, th ? 2 : 1, 1); if (th) E(h, "static", 3, 1, 1); }
        for (auto& g : iso_classes(5, 2)) if (g.connected()) { for (auto& q : labelings(5, th ? 6 : 1)) for (int k : { 5, 3 }) { WG h = derived(g.perm(q), k, 4); E(h, "mutable", 2, 1, 1); E(h, "heavy", 2, 1, 1); } }
        for (Str k : { "cycle", "path", "star", "wheel", "clique" }) { E(named(k, 4, 1), "static", 3, 1, 1); E(named(k, 5, 2), "mutable", 3, 1, 0); E(named(k, 6, 1), "mutable", 2, 1, 0); if (th) { E(named(k, 6, 1), "mutable", 2, 2, 0); E(named(k, 7, 1), "mutable", 2, 1, 1); } } }
    if (MODE == "contract") {
        for (int n : { 2, 3 }) all_labelled(n, { 0, 1, 2 }, [&](const WG& g) { return E(g, "", 2, 2, 1); }); for (auto& g : iso_classes(4, 2)) for (auto& q : labelings(4, th ? 12 : 2)) { WG h = g.perm(q); int c = 0; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) if (h.at(i, j)) h.set(i, j, 1 << c++); E(h, "", 2, th ? 2 : 1, 1); if (th) E(h, "", 3, 1, 1); }
        for (auto& g : iso_classes(5, 2)) if (g.connected() && (th || g.m() >= 7)) { WG h = g; int c = 0; for (int i = 0; i < 5; ++i) for (int j = i + 1; j < 5; ++j) if (h.at(i, j)) h.set(i, j, 1 << c++); E(h, "", 2, 1, 0); }
        for (auto& g : iso_classes(3, 2)) if (g.connected()) for (Str kind : { "path", "star" }) for (int k : { 2, 3, 12 }) for (Str gt : { "bs", "bm" }) { if (gt == "bs" && k > 2) continue; if (gt == "bm" && !th && kind == "star") continue; go = go && emit(g.str() + " " + gt + " 2 1 0 " + kind + " 36 " + to_string(k)); } }
    if (MODE == "solve" || MODE == "cactus") {
        for (int n : { 2, 3 }) all_labelled(n, { 0, 1, 2 }, [&](const WG& g) { return MODE == "cactus" && !g.connected() ? true : E(g, "static", 2, 1, 0) && E(g, "mutable", 2, 1, 0); });
        for (auto& g : iso_classes(4, th ? 3 : 2)) if (g.connected()) for (auto& q : labelings(4, th ? 12 : 2)) { E(g.perm(q), "static", 2, 1, 0); E(g.perm(q), "mutable", 2, th ? 2 : 1, 0); }
        for (Str k : { "cycle", "path", "star", "wheel" }) { E(named(k, 5, 1), "static", 2, 1, 0); E(named(k, 5, 2), "mutable", 2, 1, 0); }
        if (th) { for (auto& g : iso_classes(5, 2)) if (g.connected()) for (auto& q : labelings(5, 4)) { E(g.perm(q), "static", 2, 1, 0); E(g.perm(q), "mutable", 2, 1, 0); E(derived(g.perm(q), 5, 4), "mutable", 2, 1, 1); E(derived(g.perm(q), 3, 5), "static", 2, 1, 1); }
            for (Str k : { "cycle", "path", "star", "wheel", "ladder" }) for (int n : { 6, 7 }) { E(named(k, n, 1), "static", 2, 1, 0); E(named(k, n, 2), "mutable", 2, 1, 0); E(named(k, n, 1), "mutable", 3, 1, 0); } } }
    if (MODE == "lp") {
        for (int n : { 1, 2, 3 }) all_labelled(n, { 0, 1, 2 }, [&](const WG& g) { return E(g, "static", 2, n < 3 || th ? 2 : 1, 0) && E(g, "mutable", 2, n < 3 || th ? 2 : 1, 1); }); for (auto& g : iso_classes(4, 2)) for (auto& q : labelings(4, th ? 12 : 1)) { E(g.perm(q), "static", 2, 1, 1); E(g.perm(q), "mutable", 2, th ? 2 : 1, 0); } for (auto& g : iso_classes(5, 2)) { E(g, "mutable", 2, 1, 0); if (th) E(g, "static", 2, 2, 0); } }
}
int main(int c, char** v) { for (int i = 1; i + 1 < c; ++i) if (Str(v[i]) == "--arg") MODE = v[i + 1]; vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; vh::cnt_names()[3] = "transitions"; vh::cnt_names()[4] = "decisions"; vh::cnt_names()[5] = "shared_bytes"; return vh::main_(c, v, enumerate, run); }
