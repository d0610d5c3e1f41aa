// Reductions (C10): whatever a reduction merges, the cuts it promises to keep are still there. Every cut of every small graph is checked.
#include "vh.hpp"
#include "vc_build.hpp"
#include "algorithms/global_mincut/noi_minimum_cut.h"
#include "algorithms/global_mincut/cactus/all_cut_local_red.h"
#ifdef PARALLEL
#include "parallel/algorithm/exact_parallel_minimum_cut.h"
#include "parallel/coarsening/contraction_tests.h"
#else
#include "coarsening/contraction_tests.h"
#endif
typedef std::string Str; using std::to_string;
struct Ref { WG g; std::vector<uint64_t> w; uint64_t min, mindeg; };   // w[mask]: weight of every cut
static Ref make_ref(const WG& g) { Ref r; r.g = g; r.w.assign(1u << g.n, 0); r.min = ~0ull; for (uint32_t m = 2; m < 1u << g.n; m += 2) { r.w[m] = g.cut(m); r.min = std::min(r.min, r.w[m]); } r.mindeg = ~0ull; for (int i = 0; i < g.n; ++i) r.mindeg = std::min(r.mindeg, g.deg(i)); return r; }
template <class UF> static std::vector<uint32_t> blocks(UF& uf, int n) { std::map<unsigned, uint32_t> b; for (int i = 0; i < n; ++i) b[uf.Find(i)] |= 1u << i; std::vector<uint32_t> r; for (auto& x : b) if (x.second & (x.second - 1)) r.push_back(x.second); return r; }
static bool intact(uint32_t cut, const std::vector<uint32_t>& bl) { for (uint32_t b : bl) if ((cut & b) && (cut & b) != b) return false; return true; }
static Str mask(uint32_t m, int n) { Str s = "{"; for (int i = 0; i < n; ++i) if (m >> i & 1) s += " " + to_string(i); return s + " }"; }
static Str show(const std::vector<uint32_t>& b, int n) { Str s = " [merged"; for (uint32_t x : b) s += " " + mask(x, n); return s + "]"; }
// connectivity based: every cut lighter than the bound is intact
template <class UF> static Str all_lighter(const Ref& r, UF& uf, uint64_t bound, const Str& what) { vh::count(3); auto b = blocks(uf, r.g.n); for (uint32_t m = 2; m < 1u << r.g.n; m += 2) if (r.w[m] < bound && !intact(m, b)) return what + " with bound " + to_string(bound) + " merges across the cut " + mask(m, r.g.n) + " of weight " + to_string(r.w[m]) + show(b, r.g.n); return ""; }
// one minimum cut is intact if the minimum is below the bound
template <class UF> static Str one_min(const Ref& r, UF& uf, uint64_t bound, const Str& what) { vh::count(3); if (r.min >= bound) return ""; auto b = blocks(uf, r.g.n); for (uint32_t m = 2; m < 1u << r.g.n; m += 2) if (r.w[m] == r.min && intact(m, b)) return ""; return what + " with bound " + to_string(bound) + " merges across every minimum cut (weight " + to_string(r.min) + ")" + show(b, r.g.n); }
// all minimum cuts are intact
template <class UF> static Str all_min(const Ref& r, UF& uf, uint64_t limit, const Str& what) { vh::count(3); auto b = blocks(uf, r.g.n); for (uint32_t m = 2; m < 1u << r.g.n; m += 2) if (r.w[m] == r.min && !intact(m, b)) return what + " with limit " + to_string(limit) + " merges across the minimum cut " + mask(m, r.g.n) + " of weight " + to_string(r.min) + show(b, r.g.n); return ""; }
static std::set<uint64_t> bounds(uint64_t lo, uint64_t hi) { std::set<uint64_t> s; if (lo > hi) return s; for (uint64_t k : { 0ull, 1ull, 2ull, 3ull, 5ull }) { if (lo + k <= hi) s.insert(lo + k); if (hi >= k && hi - k >= lo) s.insert(hi - k); } s.insert((lo + hi) / 2); s.insert((lo + hi + 1) / 2); return s; }
template <class GP, class MK> static Str reds(const Ref& r, MK mk, const Str& gt, bool multi) {
    Str e; uint64_t big = r.mindeg + 2; auto cfg = configuration::getConfig(); int n = r.g.n;
    // a bound is at most the smallest degree: cuts around one vertex are accounted for before contracting
    for (uint64_t b : bounds(std::max<uint64_t>(r.min, 1), r.mindeg)) { { auto G = mk(); auto uf = tests::prTests12(G, b); if (!(e = one_min(r, uf, b, gt + " prTests12")).empty()) return e; } { auto G = mk(); auto uf = tests::prTests34(G, b); if (!(e = one_min(r, uf, b, gt + " prTests34")).empty()) return e; } }
    for (uint64_t b : bounds(r.min + 1, r.mindeg + 1)) { { auto G = mk(); auto uf = tests::prTests12(G, b, true); if (!(e = all_min(r, uf, b, gt + " prTests12 (all cuts)")).empty()) return e; } { auto G = mk(); auto uf = tests::prTests34(G, b, true); if (!(e = all_min(r, uf, b, gt + " prTests34 (all cuts)")).empty()) return e; } }
    (void)multi; bool heavy = false; for (auto x : r.g.w) heavy |= x > 100000;
    for (uint64_t b : bounds(1, big)) for (int q = 0; q < 7; ++q) { static const char* N[7] = { "default", "bqueue", "bstack", "heap", "bqueue", "bstack", "heap" }; if (heavy && q != 0 && q != 3 && q != 6) continue; if (multi && q > 3) continue; cfg->pq = N[q]; cfg->disable_limiting = q > 3; Str err; vrng::explore([&] { auto G = mk(); noi_minimum_cut<GP> noi; auto uf = noi.modified_capforest(G, b); err = all_lighter(r, uf, b, gt + " connectivity scan, queue " + N[q] + (q > 3 ? " unlimited" : "")); return err.empty(); }, 1, 1, 100); if (!err.empty()) return err; }
    cfg->pq = "default"; cfg->disable_limiting = false;
#ifdef PARALLEL
    for (uint64_t b : bounds(1, big)) for (bool nb : { false, true }) { Str err; vrng::explore([&] { auto G = mk(); exact_parallel_minimum_cut<GP> mc; auto uf = mc.parallel_modified_capforest(G, b, nb); err = all_lighter(r, uf, b, gt + " shared-memory connectivity scan" + (nb ? " without blacklist" : "")); return err.empty(); }, 1, 1, 100); if (!err.empty()) return err; }
#endif
    return ""; }
static Str run(const Str& spec) {
    vh::count(0); reset_config(); std::istringstream is(spec); Str s; int par; is >> s >> par; Ref r = make_ref(WG::parse(s)); Str e; auto cfg = configuration::getConfig(); if (r.min > 0) vh::count(1); vh::outcome(r.min * 64 + r.mindeg);
    EG eg = to_eg(r.g); if (par) { EG h; h.n = eg.n; for (auto [u, v, w] : eg.e) { h.e.emplace_back(v, u, w > 1 ? w / 2 : w); if (w > 1) h.e.emplace_back(u, v, w - w / 2); } if (par == 2) std::reverse(h.e.begin(), h.e.end()); eg = h; }
    // the number of every vertex in the neighbour order differs between par = 0 and par = 2
    if (!(e = reds<mutableGraphPtr>(r, [&] { return build_mutable(eg); }, "mutable", par)).empty()) return e;
    for (uint64_t b : bounds(r.min, r.min + 1)) { (void)b; { auto G = build_mutable(eg); auto uf = all_cut_local_red::allCutsPrTests12(G, r.min); if (!(e = all_min(r, uf, r.min, "allCutsPrTests12")).empty()) return e; } { auto G = build_mutable(eg); auto uf = all_cut_local_red::allCutsPrTests34(G, r.min); if (!(e = all_min(r, uf, r.min, "allCutsPrTests34")).empty()) return e; } }
    if (par == 1) return "";
    if (par == 0 && !(e = reds<graphAccessPtr>(r, [&] { return build_static(r.g); }, "static", false)).empty()) return e;
    if (par == 2) return "";
    for (uint64_t b : bounds(0, r.mindeg + 1)) { { auto G = build_static(r.g); union_find uf(r.g.n); tests::findHeavyEdges(G, &uf, b); if (!(e = all_lighter(r, uf, b + 1, "findHeavyEdges")).empty()) return e; } { auto G = build_static(r.g); union_find uf(r.g.n); tests::findHeavyTriangles(G, &uf, b); if (!(e = all_lighter(r, uf, b + 1, "findHeavyTriangles")).empty()) return e; } }
    cfg->pq = "default"; return ""; }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", go = true; auto A = [&](const WG& g) { return go = go && emit(g.str() + " 0"); }; auto B = [&](const WG& g) { return go = go && emit(g.str() + " 1") && emit(g.str() + " 2"); };
    for (int n = 2; n <= 3; ++n) { all_labelled(n, { 0, 1, 2, 3, 4, 7, (1ull << 32) + 1 }, A); all_labelled(n, { 0, 1, 2, 3, 4 }, B); } all_labelled(4, { 0, 1, 2, 3 }, A); all_labelled(4, { 0, 1, 2 }, B); if (th) { all_labelled(4, { 0, 1, 2, 3, 5 }, A); all_labelled(4, { 0, 1, 2, 3 }, B); }
    for (auto& g : iso_classes(5, 3)) for (auto& p : labelings(5, th ? 24 : 6)) { A(g.perm(p)); } for (auto& g : iso_classes(5, 3)) for (auto& p : labelings(5, th ? 12 : 1)) B(g.perm(p));
    if (th) for (auto& g : iso_classes(5, 4)) for (auto& p : labelings(5, 4)) A(g.perm(p));
    // 6 and 7 vertices: 0/1 weights, and two weightings derived from them
    for (int n : { 6, 7 }) for (auto& g : iso_classes(n, 2)) if (g.connected()) for (auto& p : labelings(n, th ? 12 : n == 6 ? 6 : 1)) { WG h = g.perm(p); A(h); int c = 0; for (int q : { 3, 5, 2, 7 }) for (int k : { 5, 3, 11 }) { if (n == 7 && !th && k != 5) continue; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (h.at(i, j)) h.set(i, j, 1 + (c++ * k % 13) % q); A(h); if (n == 6 && k == 5) B(h); } }
    for (Str k : { "cycle", "path", "star", "wheel", "ladder", "clique" }) for (int n : { 8, 10 }) for (uint64_t w : { 1, 3 }) for (auto& p : labelings(n, th ? 12 : 3)) { WG h = named(k, n, w).perm(p); A(h); B(h); }
    if (th) for (auto& g : iso_classes(6, 3)) for (auto& p : labelings(6, 2)) A(g.perm(p));
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[3] = "transitions"; return vh::main_(c, v, enumerate, run); }
