// Coarsening by sampled edges, random matchings and removal of heavy vertices (C30), sequential and (-DPARALLEL) shared-memory versions.
#include "vh.hpp"
#include "vc_build.hpp"
namespace vrng { static uint64_t K = 8; static uint64_t calls = 0, step = 1; static uint64_t draw() { return (src().pick(K) + calls++) % K * step; } }   // one draw: every residue modulo K; default choice: round robin
namespace std {
struct verif_mt64 { typedef uint64_t result_type; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } verif_mt64() { } template <class T> explicit verif_mt64(const T&) { } template <class T> void seed(const T&) { } uint64_t operator () () { return vrng::draw(); } };
template <class T> struct verif_geo { explicit verif_geo(double p) { if (!(p > 0 && p < 1)) { fprintf(stderr, "geometric distribution with p = %f\n", p); abort(); } } template <class G> T operator () (G&) { return (T)vrng::src().pick(vrng::K); } };
}
#include "tools/random_functions.h"
#define mt19937_64 verif_mt64
#define geometric_distribution verif_geo
#include "tools/timer.h"
#ifdef PARALLEL
#include "parallel/coarsening/sparsify.h"
#else
#include "coarsening/sparsify.h"
#endif
typedef std::string Str; using std::to_string;
static WG quotient(const WG& g, const std::vector<int>& p, int k) { WG h(k); for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (p[i] != p[j] && g.at(i, j)) h.set(p[i], p[j], h.at(p[i], p[j]) + g.at(i, j)); return h; }
// canonical forms of all contractions of g with connected blocks of at most mx vertices
static std::set<Str> contractions(const WG& g, int mx) {
    std::set<Str> r; std::vector<int> p(g.n, 0); std::function<void(int, int)> rec = [&](int i, int k) { if (i == g.n) {
            for (int b = 0; b < k; ++b) { std::vector<int> in; for (int v = 0; v < g.n; ++v) if (p[v] == b) in.push_back(v); if ((int)in.size() > mx) return; std::vector<int> seen(g.n, 0), st{ in[0] }; seen[in[0]] = 1; size_t c = 0; while (st.size()) { int v = st.back(); st.pop_back(); ++c; for (int u : in) if (!seen[u] && g.at(u, v)) seen[u] = 1, st.push_back(u); } if (c != in.size()) return; }
            r.insert(canon(quotient(g, p, k))); return; }
        for (int c = 0; c <= k && c < g.n; ++c) { p[i] = c; rec(i + 1, std::max(k, c + 1)); } }; rec(0, 0); return r; }
static const std::set<Str>& cached(const WG& g, int mx) { static Str key; static std::set<Str> val; Str k = g.str() + "/" + to_string(mx); if (k != key) key = k, val = contractions(g, mx); return val; }
// findTrivialCuts on one partition: single vertices may be split off their blocks, everything else stays; mapping, block lists and partition indices agree
template <class P> static Str trivial_one(const WG& g, const std::vector<int>& part, int blocks, uint64_t target, bool* moved) {
    reset_config(); configuration::getConfig()->save_cut = true; auto G = builder<P>::make(g); std::vector<NodeID> m(g.n); std::vector<std::vector<NodeID> > rm(blocks);
    for (int v = 0; v < g.n; ++v) { m[v] = part[v]; rm[part[v]].push_back(v); G->setPartitionIndex(v, part[v]); }
    contraction::findTrivialCuts(G, &m, &rm, target); std::vector<int> seen(g.n, 0); if ((int)rm.size() < blocks) return "blocks disappeared"; *moved |= (int)rm.size() > blocks;
    for (size_t b = 0; b < rm.size(); ++b) { if (rm[b].empty()) return "block " + to_string(b) + " is empty"; if ((int)b >= blocks && rm[b].size() != 1) return "a new block has several vertices";
        for (auto v : rm[b]) { if ((int)v >= g.n || seen[v]++) return "vertex " + to_string(v) + " is listed twice"; if (m[v] != b) return "vertex " + to_string(v) + " is listed in block " + to_string(b) + " but mapped to " + to_string(m[v]);
            if (G->getPartitionIndex(v) != b) return "vertex " + to_string(v) + " of block " + to_string(b) + " has partition index " + to_string(G->getPartitionIndex(v)); if ((int)b < blocks && part[v] != (int)b) return "vertex " + to_string(v) + " moved to another block"; } }
    for (int v = 0; v < g.n; ++v) if (!seen[v]) return "vertex " + to_string(v) + " is in no block"; return ""; }
static Str trivial(const WG& g) { std::vector<int> p(g.n, 0); Str err; bool moved = false; uint64_t tot = 0; for (auto x : g.w) tot += x; std::function<bool(int, int)> rec = [&](int i, int k) { if (i == g.n) { for (uint64_t t : { uint64_t(2), uint64_t(4), 2 * tot + 1 }) { vh::count(0); err = trivial_one<graphAccessPtr>(g, p, k, t, &moved); if (err.empty()) err = trivial_one<mutableGraphPtr>(g, p, k, t, &moved); if (!err.empty()) { err += " [partition"; for (int x : p) err += " " + to_string(x); err += ", target " + to_string(t) + "]"; return false; } } return true; }
        for (int c = 0; c <= k && c < g.n; ++c) { int in = 0; for (int v = 0; v < i; ++v) in += p[v] == c; if (g.n > 6 && (in >= 3 || (c == k && k > 4))) continue; p[i] = c; if (!rec(i + 1, std::max(k, c + 1))) return false; } return true; }; rec(0, 0); if (moved) vh::count(1); return err; }
static Str run(const Str& spec) {
    std::istringstream is(spec); Str gs, how; double f; int dev; is >> gs >> how >> f >> dev; WG g = WG::parse(gs); if (how == "trivial") return trivial(g); auto cfg = configuration::getConfig(); uint64_t tot = 0, m = 0; for (auto w : g.w) tot += 2 * w, m += w ? 2 : 0;
    int comp = 0; { std::vector<int> s(g.n, 0); for (int i = 0; i < g.n; ++i) if (!s[i]) { ++comp; std::vector<int> st{ i }; s[i] = 1; while (st.size()) { int v = st.back(); st.pop_back(); for (int u = 0; u < g.n; ++u) if (!s[u] && g.at(u, v)) s[u] = 1, st.push_back(u); } } }
    if (how == "heavy") { reset_config(); vh::count(0); auto G = build_static(g); std::vector<NodeID> p; sparsify sf; auto H = sf.remove_heavy_vertices(G, f, &p); std::vector<uint64_t> deg(g.n, 0); for (int v = 0; v < g.n; ++v) for (int u = 0; u < g.n; ++u) deg[v] += g.at(u, v);
        auto s = deg; std::sort(s.begin(), s.end()); uint64_t bound = s[std::min<size_t>(s.size() - 1, (size_t)(g.n * f))]; std::vector<int> keep; if ((int)p.size() != g.n) return "mapping has " + to_string(p.size()) + " entries";
        for (int v = 0; v < g.n; ++v) { if (deg[v] < bound) { if (p[v] != keep.size()) return "vertex " + to_string(v) + " is mapped to " + to_string(p[v]); keep.push_back(v); } else if (p[v] != (NodeID)g.n) return "heavy vertex " + to_string(v) + " is mapped to " + to_string(p[v]); }
        if (keep.size() > 1 && (int)keep.size() < g.n) vh::count(1); Str e; WG h = view(H, &e); if (!e.empty()) return e; if (h.n != (int)keep.size()) return "graph has " + to_string(h.n) + " vertices"; uint64_t em = 0; for (size_t a = 0; a < keep.size(); ++a) for (size_t b = a + 1; b < keep.size(); ++b) { em += g.at(keep[a], keep[b]) ? 2 : 0; if (h.at(a, b) != g.at(keep[a], keep[b])) return "edge between " + to_string(keep[a]) + " and " + to_string(keep[b]) + " has weight " + to_string(h.at(a, b)); }
        return em == H->number_of_edges() ? "" : "graph has " + to_string(H->number_of_edges()) + " edges, expected " + to_string(em); }
    bool matching = how == "matching"; auto& ok = cached(g, matching ? 2 : g.n); Str err; bool capped = false; vrng::K = how == "weighted" || how == "seq" ? std::max<uint64_t>(1, tot) : std::max<uint64_t>(m, 1); if (how == "geometric") vrng::K = m + 1;
    vrng::step = 1; if (vrng::K > 4000) vrng::step = vrng::K / 40 + 1, vrng::K = 40; if (matching) vrng::K = 60;
    auto once = [&]() -> Str { vh::count(0); vh::tick(); vrng::calls = 0; reset_config(); cfg->contraction_factor = f; cfg->sampling_type = how; cfg->threads = 1; auto G = build_static(g); sparsify sf; auto H = matching ? sf.random_matching(G) : sf.one_ks(G);
        { Str e; WG h = view(G, &e); if (!e.empty() || h.str() != g.str()) return "the input graph was changed"; }
        Str e; WG h = view(H, &e); if (!e.empty()) return e; if (h.n > g.n) return "more vertices than before"; if (!ok.count(canon(h))) return "result " + h.str() + " is no contraction of the input" + (matching ? " along a matching" : ""); if (h.n < g.n) vh::count(1); vh::outcome(vh::hash(h.str()));
        int red = std::min((int)(g.n * f), std::max(0, g.n - 2)); if (how == "seq" && h.n != g.n - std::min(red, g.n - comp)) return to_string(h.n) + " vertices left of " + to_string(g.n) + " with factor " + to_string(f);
        if (!matching && how != "geometric" && f > 0 && h.n < g.n - (int)(g.n * f)) return to_string(h.n) + " vertices left of " + to_string(g.n) + " with factor " + to_string(f); if (f == 0 && !matching && h.n != g.n) return "contracted although the factor is 0"; return ""; };
    vrng::explore([&]() { err = once(); return err.empty(); }, dev, 24, 30000, &capped); if (capped) vh::count(2); return err; }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", stop = false; auto em = [&](const Str& s) { if (!stop && !emit(s)) stop = true; return !stop; };
#ifdef PARALLEL
    std::vector<Str> kinds = { "geometric", "random", "separate", "weighted", "matching" };
#else
    std::vector<Str> kinds = { "seq", "matching" };
#endif
    auto all = [&](const WG& g, int dev) { for (Str k : kinds) for (Str f : { "0", "0.3", "0.5", "0.75", "0.9" }) { if (k == "matching" && f != "0") continue; em(g.str() + " " + k + " " + f + " " + to_string(dev)); } for (Str f : { "0", "0.25", "0.5", "0.67", "0.8", "0.9", "0.99", "1" }) em(g.str() + " heavy " + f + " 0"); return !stop; };
    for (int n = 2; n <= 3; ++n) all_labelled(n, { 0, 1, 2, 3 }, [&](const WG& g) { return all(g, 2); }); all_labelled(4, { 0, 1, 2 }, [&](const WG& g) { return all(g, th ? 3 : 1); });
    for (auto& g : iso_classes(5, 2)) for (auto& q : labelings(5, th ? 12 : 3)) if (!all(g.perm(q), th ? 2 : 1)) return; for (auto& g : iso_classes(5, 2)) { WG h = g; int i = 0; for (auto& w : h.w) if (w) w = 1 + (i++ * 3) % 5; if (!all(h, 1)) return; }
    for (auto& g : iso_classes(6, 2)) for (auto& q : labelings(6, th ? 6 : 1)) { if (!all(g.perm(q), 1)) return; } { WG g(4); g.set(0, 1, 4294967297ull); g.set(1, 2, 4294967296ull); g.set(2, 3, 2147483648ull); g.set(0, 3, 4294967295ull); all(g, 1); }
    auto triv = [&](const WG& g) { return em(g.str() + " trivial 0 0"); };
    for (int n = 2; n <= 4; ++n) all_labelled(n, { 0, 1, 3 }, triv); for (auto& g : iso_classes(5, 3)) for (auto& q : labelings(5, th ? 12 : 3)) if (!triv(g.perm(q))) return; for (auto& g : iso_classes(6, 2)) { WG h = g; int i = 0; for (auto& w : h.w) w *= 1 + i++ % 3; for (auto& q : labelings(6, th ? 12 : 2)) if (!triv(h.perm(q))) return; }
    for (const char* k : { "cycle", "clique", "wheel", "ladder", "star" }) { WG g = named(k, 9, 1); for (int d = 0; d < 3; ++d) { WG h = g; int i = 0; for (auto& w : h.w) if (w) w = 1 + (i++ * (d + 1)) % 4; triv(h); } }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; return vh::main_(c, v, enumerate, run); }
