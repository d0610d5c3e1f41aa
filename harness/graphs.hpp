// Small weighted graphs: representation, brute-force reference answers, finite families, builders.
#pragma once
#include <queue>
#include <map>
#include <algorithm>
#include <array>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
struct WG {
    int n = 0; std::vector<uint64_t> w;  // upper triangle, row major; 0 = no edge
    explicit WG(int nn = 0) : n(nn), w(nn * (nn - 1) / 2, 0) { }
    static int id(int n, int i, int j) { if (i > j) std::swap(i, j); return i * n - i * (i + 1) / 2 + (j - i - 1); }
    uint64_t at(int i, int j) const { return i == j ? 0 : w[id(n, i, j)]; }
    void set(int i, int j, uint64_t v) { w[id(n, i, j)] = v; }
    void add(int i, int j, uint64_t v) { if (i != j) w[id(n, i, j)] += v; }
    uint64_t deg(int i) const { uint64_t s = 0; for (int j = 0; j < n; ++j) s += at(i, j); return s; }
    int m() const { int c = 0; for (auto x : w) c += x > 0; return c; }
    std::string str() const { std::ostringstream o; o << n << ':'; bool f = true; for (auto x : w) { if (!f) o << ','; f = false; o << x; } return o.str(); }
    static WG parse(const std::string& s) {
        size_t c = s.find(':'); WG g(atoi(s.substr(0, c).c_str())); std::istringstream i(s.substr(c + 1)); std::string t; size_t k = 0;
        while (std::getline(i, t, ',') && k < g.w.size()) g.w[k++] = strtoull(t.c_str(), 0, 10); return g;
    }
    WG perm(const std::vector<int>& p) const { WG g(n); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) g.set(p[i], p[j], at(i, j)); return g; }
    uint64_t cut(uint32_t mask) const { uint64_t s = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (((mask >> i) ^ (mask >> j)) & 1) s += at(i, j); return s; }
    bool connected() const { if (n == 0) return true; uint32_t seen = 1, fr = 1; while (fr) { uint32_t nx = 0; for (int i = 0; i < n; ++i) if (fr >> i & 1) for (int j = 0; j < n; ++j) if (at(i, j)) nx |= 1u << j; fr = nx & ~seen; seen |= nx; } return seen == (1u << n) - 1; }
};
// All global minimum cuts: masks not containing vertex n-1 ... normalised to exclude vertex 0.
inline uint64_t brute_mincut(const WG& g, std::vector<uint32_t>* all = nullptr) {
    uint64_t best = ~0ull, c = 0; const int n = g.n; std::vector<uint64_t> W(n * n, 0), deg(n, 0); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { uint64_t w = g.at(i, j); W[i * n + j] = W[j * n + i] = w; deg[i] += w; deg[j] += w; }
    uint32_t side = 0; for (uint32_t k = 1; k < 1u << (n - 1); ++k) {   // Gray code over the sides without vertex 0
        int v = __builtin_ctz(k) + 1; uint64_t x = 0; for (uint32_t r = side & ~(1u << v); r; r &= r - 1) x += W[v * n + __builtin_ctz(r)]; if (side >> v & 1) c += 2 * x - deg[v]; else c += deg[v] - 2 * x; side ^= 1u << v;
        if (c < best) { best = c; if (all) all->clear(); } if (all && c == best) all->push_back(side); }
    if (all) std::sort(all->begin(), all->end()); return best;
}
// s-t min cut by enumeration (multi-terminal sinks: masks containing src and none of sinks).
inline uint64_t brute_stcut(const WG& g, uint32_t src, uint32_t sinks, std::vector<uint32_t>* all = nullptr) {
    uint64_t best = ~0ull; uint32_t full = (1u << g.n) - 1;
    for (uint32_t m = 1; m <= full; ++m) if ((m & src) == src && !(m & sinks)) { uint64_t c = g.cut(m); if (c < best) { best = c; if (all) all->clear(); } if (all && c == best) all->push_back(m); }
    return best;
}
inline bool next_weights(std::vector<uint64_t>& idx, size_t k) { for (auto& x : idx) { if (++x < k) return true; x = 0; } return false; }
// every labelled graph on n vertices with edge weights in alphabet
template <class F> void all_labelled(int n, const std::vector<uint64_t>& alpha, F f) {
    WG g(n); std::vector<uint64_t> idx(g.w.size(), 0);
    do { for (size_t i = 0; i < idx.size(); ++i) g.w[i] = alpha[idx[i]]; if (!f(g)) return; } while (next_weights(idx, alpha.size()));
}
// Isomorphism classes with weights 0..k-1, extended vertex by vertex; canonical form by refinement + search.
inline std::string canon(const WG& g) {
    int n = g.n; std::vector<uint64_t> inv(n);
    auto mix = [](uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); };
    for (int i = 0; i < n; ++i) inv[i] = 1;
    for (int r = 0; r < 3; ++r) { std::vector<uint64_t> nv(n); for (int i = 0; i < n; ++i) { uint64_t s = 0, q = 0; for (int j = 0; j < n; ++j) if (j != i) { uint64_t x = mix(mix(7, g.at(i, j)), inv[j]); s += x; q ^= x * x; } nv[i] = mix(mix(inv[i], s), q); } inv = nv; }
    std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { return inv[a] < inv[b]; });
    std::string best; std::vector<int> pos(n, -1); std::vector<char> used(n, 0); std::string cur;
    std::function<void(int)> rec = [&](int d) {
        if (d == n) { if (best.empty() || cur < best) best = cur; return; }
        for (int k = 0; k < n; ++k) { int v = ord[k]; if (used[v] || inv[v] != inv[ord[d]]) continue;
            size_t l = cur.size(); for (int e = 0; e < d; ++e) cur += (char)('0' + g.at(pos[e], v));
            if (best.empty() || cur.compare(0, cur.size(), best, 0, cur.size()) <= 0) { used[v] = 1; pos[d] = v; rec(d + 1); used[v] = 0; }
            cur.resize(l); }
    };
    rec(0); return best;
}
inline const std::vector<WG>& iso_classes(int n, int k) {
    static std::map<std::pair<int, int>, std::vector<WG> > memo; auto key = std::make_pair(n, k); auto it = memo.find(key); if (it != memo.end()) return it->second;
    std::vector<WG> out; if (n <= 1) { out.push_back(WG(n)); return memo[key] = out; }
    const auto base = iso_classes(n - 1, k); std::set<std::string> seen; std::vector<uint64_t> idx(n - 1);
    for (auto& b : base) { std::fill(idx.begin(), idx.end(), 0); do { WG g(n); for (int i = 0; i < n - 1; ++i) for (int j = i + 1; j < n - 1; ++j) g.set(i, j, b.at(i, j)); for (int i = 0; i < n - 1; ++i) g.set(i, n - 1, idx[i]); if (seen.insert(canon(g)).second) out.push_back(g); } while (next_weights(idx, k)); }
    return memo[key] = out;
}
// a fixed set of labellings of n vertices: identity, reverse, rotations, interleavings...
inline std::vector<std::vector<int> > labelings(int n, int count) {
    std::vector<std::vector<int> > r; std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.push_back(p);
    if (count > 1) { std::reverse(p.begin(), p.end()); r.push_back(p); }
    uint64_t s = 88172645463325252ull;
    while ((int)r.size() < count) { for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; std::swap(p[i], p[(s >> 20) % (i + 1)]); } r.push_back(p); }
    return r;
}
// structured larger graphs, described by name
inline WG named(const std::string& kind, int n, uint64_t w = 1) {
    WG g(n);
    if (kind == "cycle") for (int i = 0; i < n; ++i) g.add(i, (i + 1) % n, w);
    else if (kind == "path") for (int i = 0; i + 1 < n; ++i) g.add(i, i + 1, w);
    else if (kind == "clique") for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) g.set(i, j, w);
    else if (kind == "star") for (int i = 1; i < n; ++i) g.set(0, i, w);
    else if (kind == "wheel") { for (int i = 1; i < n; ++i) { g.set(0, i, w); g.add(i, i + 1 < n ? i + 1 : 1, w); } }
    else if (kind == "ladder") { for (int i = 0; i + 2 < n; ++i) g.set(i, i + 2, w); for (int i = 0; i + 1 < n; i += 2) g.set(i, i + 1, w); }
    return g;
}
// Larger graphs as edge lists, with an independent reference (Stoer-Wagner on a matrix).
struct EG { int n = 0; std::vector<std::tuple<int, int, uint64_t> > e; };
inline EG to_eg(const WG& g) { EG r; r.n = g.n; for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (g.at(i, j)) r.e.emplace_back(i, j, g.at(i, j)); return r; }
inline uint64_t reference_mincut(const EG& g) {
    int n = g.n; std::vector<std::vector<uint64_t> > w(n, std::vector<uint64_t>(n, 0)); for (auto& t : g.e) { w[std::get<0>(t)][std::get<1>(t)] += std::get<2>(t); w[std::get<1>(t)][std::get<0>(t)] += std::get<2>(t); }
    std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; uint64_t best = ~0ull;
    while (v.size() > 1) {
        std::vector<uint64_t> a(n, 0); std::vector<char> in(n, 0); int prev = -1, last = -1;
        for (size_t k = 0; k < v.size(); ++k) { int s = -1; for (int x : v) if (!in[x] && (s < 0 || a[x] > a[s])) s = x; in[s] = 1; prev = last; last = s; for (int x : v) if (!in[x]) a[x] += w[s][x]; }
        best = std::min(best, a[last]);
        for (int x : v) if (x != last && x != prev) { w[prev][x] += w[last][x]; w[x][prev] = w[prev][x]; }
        v.erase(std::find(v.begin(), v.end(), last));
    }
    return best;
}
inline uint64_t eg_cut(const EG& g, const std::vector<char>& side) { uint64_t s = 0; for (auto& t : g.e) if (side[std::get<0>(t)] != side[std::get<1>(t)]) s += std::get<2>(t); return s; }
// Exact minimum cut of a large sparse graph: edges that weigh at least the smallest degree found so far separate no better cut and
// are merged, the rest is solved by Stoer-Wagner on adjacency maps.
inline uint64_t reference_mincut_sparse(const EG& g) {
    std::vector<int> id(g.n); for (int i = 0; i < g.n; ++i) id[i] = i; std::vector<std::map<int, uint64_t> > a(g.n); std::vector<char> alive(g.n, 1); int left = g.n; uint64_t best = ~0ull;
    for (auto& t : g.e) { a[std::get<0>(t)][std::get<1>(t)] += std::get<2>(t); a[std::get<1>(t)][std::get<0>(t)] += std::get<2>(t); }
    auto deg = [&](int v) { uint64_t d = 0; for (auto& q : a[v]) d += q.second; return d; };
    auto merge = [&](int u, int v) { for (auto& q : a[v]) { a[q.first].erase(v); if (q.first != u) { a[u][q.first] += q.second; a[q.first][u] += q.second; } } a[v].clear(); alive[v] = 0; --left; };
    for (int i = 0; i < g.n; ++i) best = std::min(best, deg(i));
    for (bool again = true; again && left > 1; ) { again = false;
        for (int u = 0; u < g.n; ++u) if (alive[u]) for (bool more = true; more && left > 1; ) { more = false; for (auto& q : a[u]) if (q.second >= best) { merge(u, q.first); again = more = true; break; } if (more && left > 1) best = std::min(best, deg(u)); } }
    while (left > 1) {
        std::vector<uint64_t> key(g.n, 0); std::vector<char> in(g.n, 0); std::priority_queue<std::pair<uint64_t, int> > q; int prev = -1, last = -1;
        for (int u = 0; u < g.n; ++u) if (alive[u]) q.push({ 0, u });
        while (!q.empty()) { auto [k, u] = q.top(); q.pop(); if (in[u] || k != key[u]) continue; in[u] = 1; prev = last; last = u; for (auto& t : a[u]) if (!in[t.first]) { key[t.first] += t.second; q.push({ key[t.first], t.first }); } }
        best = std::min(best, key[last]); merge(prev, last);
    }
    return best;
}
// Many small blocks (stars of b vertices, heavy edges) plus single vertices tied to several of them. top 0: the blocks lie on a cycle with
// weights 1 and cw; top 1: two halves, in each of them the blocks form a circulant of degree 4, joined by cw edges;
// top 2: a cycle of weight 1, the single vertices are tied to the first blocks.
inline EG many_blocks(int top, int m, int b, int k, int a, int r, int cw, uint64_t heavy, int perm) {
    EG g; g.n = m * b + k; std::vector<int> p(g.n); for (int i = 0; i < g.n; ++i) p[i] = i;
    if (perm) { uint64_t x = 88172645463325252ull * perm; for (int i = g.n - 1; i > 0; --i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; std::swap(p[i], p[(x >> 20) % (i + 1)]); } }
    auto add = [&](int u, int v, uint64_t w) { g.e.emplace_back(p[u], p[v], w); }; auto at = [&](int c, int i) { return c * b + i % b; };
    for (int c = 0; c < m; ++c) for (int i = 1; i < b; ++i) add(at(c, 0), at(c, i), heavy);
    if (top != 1) for (int c = 0; c < m; ++c) add(at(c, 1), at((c + 1) % m, 2), top == 2 || c % 5 < 2 ? 1 : cw);
    else { int h = m / 2; for (int s = 0; s < 2; ++s) { int n = s ? m - h : h; for (int c = 0; c < n; ++c) { add(at(s * h + c, 1), at(s * h + (c + 1) % n, 2), 1); add(at(s * h + c, 3), at(s * h + (c + 7) % n, 4), 1); } } for (int i = 0; i < cw; ++i) add(at(i * 3, 5), at(h + i * 5, 5), 1); }
    for (int i = 0; i < k; ++i) { int x = m * b + i, c = (int)((long)i * 7 % m); add(x, at(c, 6), a); for (int j = 0; j < r; ++j) add(x, top == 2 ? at(j == c ? r : j, 7 + i) : at((c + (j + 1) * m / (r + 2)) % m, 7 + j), 1); }
    return g;
}
// Blow-up: every vertex of the skeleton becomes b vertices joined by heavy edges (path / cycle / clique / tree);
// skeleton edges attach to varying members. perm > 0 shuffles the vertex numbers.
inline EG blow_up(const WG& s, const std::string& kind, int b, uint64_t heavy, int perm = 0) {
    EG g; g.n = s.n * b; std::vector<int> p(g.n); for (int i = 0; i < g.n; ++i) p[i] = i;
    if (perm) { uint64_t x = 88172645463325252ull * perm; for (int i = g.n - 1; i > 0; --i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; std::swap(p[i], p[(x >> 20) % (i + 1)]); } }
    auto add = [&](int u, int v, uint64_t w) { if (u != v) g.e.emplace_back(p[u], p[v], w); };
    for (int c = 0; c < s.n; ++c) { int o = c * b;
        if (kind == "path") for (int i = 0; i + 1 < b; ++i) add(o + i, o + i + 1, heavy);
        else if (kind == "cycle") for (int i = 0; i < b; ++i) { if (b > 2 || i + 1 < b) add(o + i, o + (i + 1) % b, heavy); }
        else if (kind == "clique") { for (int i = 0; i < b; ++i) for (int j = i + 1; j < b; ++j) add(o + i, o + j, heavy); }
        else if (kind == "star") for (int i = 1; i < b; ++i) add(o, o + i, heavy);
        else if (kind == "tree") for (int i = 1; i < b; ++i) add(o + (i - 1) / 2, o + i, heavy); }
    for (int i = 0; i < s.n; ++i) for (int j = i + 1; j < s.n; ++j) if (s.at(i, j)) add(i * b + (j * 7) % b, j * b + (i * 5 + 3) % b, s.at(i, j));
    return g;
}
