// Sequential union-find: every sequence of union/find calls up to a depth against a partition kept as a label array.
#include "vh.hpp"
#include "data_structure/union_find.h"
typedef std::string Str;
struct Ref { std::vector<int> l; explicit Ref(int n) : l(n) { for (int i = 0; i < n; ++i) l[i] = i; }
    bool uni(int a, int b) { int x = l[a], y = l[b]; if (x == y) return false; for (int& v : l) if (v == y) v = x; return true; }
    int sets() const { return std::set<int>(l.begin(), l.end()).size(); } };
static Str check(const union_find& uf, const Ref& r) {
    union_find a = uf; int n = r.l.size(); if ((int)a.n() != r.sets()) return "n() is " + std::to_string(a.n()) + ", there are " + std::to_string(r.sets()) + " sets";
    std::vector<unsigned> rep(n); for (int i = 0; i < n; ++i) { rep[i] = a.Find(i); if (rep[i] >= (unsigned)n) return "Find(" + std::to_string(i) + ") out of range"; if (r.l[rep[i]] != r.l[i]) return "the representative of " + std::to_string(i) + " is in another set"; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if ((rep[i] == rep[j]) != (r.l[i] == r.l[j])) return "Find(" + std::to_string(i) + ") and Find(" + std::to_string(j) + ") disagree with the unions";
    for (int i = n; i-- > 0; ) if (a.Find(i) != rep[i]) return "representative of " + std::to_string(i) + " changed without a union";
    if ((int)a.n() != r.sets()) return "Find changed the number of sets"; return "";
}
static uint64_t steps = 0;
static Str dfs(const union_find& uf, const Ref& r, int depth, bool finds, const Str& path) {
    int n = r.l.size(); if (!depth) { vh::outcome(vh::hash(std::to_string(r.sets()) + path.substr(0, 6))); return ""; }
    for (int a = 0; a < n; ++a) {
        for (int b = 0; b < n; ++b) { union_find u = uf; Ref q = r; bool want = q.uni(a, b), got = u.Union(a, b); ++steps; Str p = path + " U" + std::to_string(a) + "," + std::to_string(b);
            if (want != got) return "after" + p + ": union reported " + (got ? "a merge" : "no merge"); Str e = check(u, q); if (!e.empty()) return "after" + p + ": " + e; e = dfs(u, q, depth - 1, finds, p); if (!e.empty()) return e; }
        if (finds) { union_find u = uf; unsigned x = u.Find(a); ++steps; Str p = path + " F" + std::to_string(a); if (x >= (unsigned)n || r.l[x] != r.l[a]) return "after" + p + ": wrong representative"; Str e = check(u, r); if (!e.empty()) return "after" + p + ": " + e; e = dfs(u, r, depth - 1, finds, p); if (!e.empty()) return e; }
    }
    return "";
}
// spec: n depth finds | ops
static Str run(const Str& spec) {
    std::istringstream is(spec); int n, d, f; Str t; is >> n >> d >> f >> t; union_find u(n); Ref r(n); Str path, e = check(u, r); if (!e.empty()) return "initially: " + e; steps = 0;
    while (is >> t) { int a, b; if (t[0] == 'U') { sscanf(t.c_str() + 1, "%d,%d", &a, &b); bool w = r.uni(a, b), g = u.Union(a, b); path += " " + t; if (w != g) return "after" + path + ": wrong union result"; } else { a = atoi(t.c_str() + 1); u.Find(a); path += " " + t; } ++steps; e = check(u, r); if (!e.empty()) return "after" + path + ": " + e; }
    e = dfs(u, r, d, f, path); vh::count(0, 1); vh::count(3, steps); if (n > 2) vh::count(1); return e;
}
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough"; auto two = [&](int n, int d, int f) { for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) for (int e = 0; e < n; ++e) { std::ostringstream s; s << n << ' ' << d << ' ' << f << " | U" << a << ',' << b << " U" << c << ',' << e; if (!emit(s.str())) return false; } return true; };
    for (int n = 1; n < 4; ++n) if (!emit(std::to_string(n) + (n == 3 ? " 5 1 |" : " 7 1 |"))) return;
    if (!two(4, th ? 4 : 3, 1) || !two(5, th ? 4 : 2, 1) || !two(6, th ? 3 : 2, 0)) return;
    // deep trees: all ways to pair up equal-rank trees on 8 and 16 elements, then every two further calls
    for (int m = 0; m < (th ? 4096 : 512); ++m) for (int n : { 8, 16 }) { std::ostringstream s; s << n << (th && n == 8 ? " 2 1 |" : " 1 1 |"); int bit = 0; for (int w = 1; w < n; w *= 2) for (int i = 0; i + w < n; i += 2 * w) { int a = i + (m >> (bit % 9) & 1 ? w - 1 : 0), b = i + w + (m >> ((bit + 4) % 9) & 1 ? w - 1 : 0); if (m >> ((bit++ + 2) % 9) & 1) std::swap(a, b); s << " U" << a << ',' << b; } if (!emit(s.str())) return; }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[3] = "transitions"; return vh::main_(c, v, enumerate, run); }
