// Shared-memory union-find: every schedule (up to the preemption bound) of every small concurrent program.
#include <thread>
#include "vh.hpp"
#include "conc.hpp"
#include "parallel/data_structure/union_find.h"
typedef std::string Str; using std::to_string;
struct Op { char k; int a, b; };                      // U a b | F a | S a b
struct Rec { Op op; int th; uint64_t inv, ret; unsigned res; };
static std::vector<std::vector<Op> > parse(const Str& s, int* n, int* bound, std::vector<Op>* pre) {
    std::istringstream is(s); Str t; is >> *n >> *bound; std::vector<std::vector<Op> > r; bool p = true; while (is >> t) { if (t == "|") { r.push_back({}); p = false; continue; } Op o{ t[0], 0, 0 }; sscanf(t.c_str() + 1, "%d,%d", &o.a, &o.b); if (p) pre->push_back(o); else r.back().push_back(o); } return r; }
struct Part { std::vector<int> p; Part(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; } int f(int x) const { return p[x]; } void u(int a, int b) { int x = p[a], y = p[b]; if (x != y) for (auto& v : p) if (v == y) v = x; } };
static Str show(const std::vector<Rec>& h) { Str s; for (auto& r : h) { s += " T" + to_string(r.th) + ":" + r.op.k + to_string(r.op.a) + (r.op.k != 'F' ? "," + to_string(r.op.b) : "") + "[" + to_string(r.inv) + "," + to_string(r.ret) + "]=" + to_string(r.res); } return s; }
// is there an order of the calls, compatible with real time, in which the partition explains every result?
static bool linearizable(const std::vector<Rec>& h, uint32_t done, const Part& st) {
    if (done == (1u << h.size()) - 1) return true; uint64_t minret = ~0ull; for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); ++i) { if (done >> i & 1 || h[i].inv > minret) continue; const Op& o = h[i].op; Part q = st; bool ok = true; if (o.k == 'U') { ok = h[i].res == (unsigned)(st.f(o.a) != st.f(o.b)); q.u(o.a, o.b); } else if (o.k == 'S') ok = h[i].res == (unsigned)(st.f(o.a) == st.f(o.b)); else ok = h[i].res < st.p.size() && st.f(h[i].res) == st.f(o.a); if (ok && linearizable(h, done | 1u << i, q)) return true; }
    return false; }
static Str run(const Str& spec) {
    int n, bound; std::vector<Op> pre; auto T = parse(spec, &n, &bound, &pre); conc::Options o; o.bound = bound; o.max_steps = 3000; vh::count(1);
    auto body = [&]() -> Str { vh::tick();
        union_find uf(n); Part st(n); for (auto& p : pre) { uf.Union(p.a, p.b); st.u(p.a, p.b); } std::vector<std::vector<Rec> > rec(T.size()); std::vector<std::thread> th;
        auto work = [&](size_t t) { for (auto& op : T[t]) { Rec r{ op, (int)t, conc::now(), 0, 0 }; r.res = op.k == 'U' ? uf.Union(op.a, op.b) : op.k == 'S' ? uf.SameSet(op.a, op.b) : uf.Find(op.a); r.ret = conc::now(); rec[t].push_back(r); } };
        for (auto& r : rec) r.reserve(8); for (size_t t = 0; t < T.size(); ++t) th.emplace_back(work, t); for (auto& x : th) x.join();
        std::vector<Rec> h; for (auto& r : rec) h.insert(h.end(), r.begin(), r.end()); Part fin = st; for (auto& r : h) if (r.op.k == 'U') fin.u(r.op.a, r.op.b);
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { bool s = fin.f(i) == fin.f(j); if ((uf.Find(i) == uf.Find(j)) != s) return Str("finally ") + to_string(i) + " and " + to_string(j) + " are " + (s ? "separate although united" : "united although no union connects them") + ":" + show(h); if (uf.SameSet(i, j) != s) return "SameSet is wrong after all threads finished:" + show(h); }
        std::set<int> b(fin.p.begin(), fin.p.end()); if (uf.n() != b.size()) return "n() reports " + to_string(uf.n()) + " sets, there are " + to_string(b.size()) + ":" + show(h);
        if (!linearizable(h, 0, st)) return "no order of the calls explains their results:" + show(h); return ""; };
    auto R = conc::explore(body, o); vh::count(0, R.runs); vh::count(3, R.steps); vh::count(2, R.capped); vh::count(4, R.points); vh::count(5, R.shared); vh::outcome(R.runs); return R.err;
}
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", go = true; auto E = [&](const Str& s) { return go = go && emit(s); };
    auto S = [](const Op& o) { return Str(1, o.k) + to_string(o.a) + "," + to_string(o.b); };
    for (int n : { 2, 3 }) {
        std::vector<Op> U, all; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) { U.push_back({ 'U', a, b }); all.push_back({ 'U', a, b }); if (a < b) all.push_back({ 'S', a, b }); } for (int a = 0; a < n; ++a) all.push_back({ 'F', a, a });
        // prior unions give trees of rank 1
        std::vector<Str> pres = { "" }; if (n == 3) { pres.push_back(" U0,1"); pres.push_back(" U2,1"); }
        for (auto& pre : pres) { Str h = to_string(n) + " 3" + pre; 
            for (auto& x : all) for (auto& y : all) { E(h + " | " + S(x) + " | " + S(y)); if (x.k == 'F' && y.k == 'F') continue; }
            for (auto& x : all) for (auto& y : U) for (auto& z : U) { E(h + " | " + S(x) + " | " + S(y) + " " + S(z)); if (n == 2 || th) E(to_string(n) + " 2" + pre + " | " + S(x) + " | " + S(y) + " | " + S(z)); } }
        for (auto& x : U) for (auto& y : all) for (auto& z : U) for (auto& w : all) { if (n == 3 && !th && x.a > x.b) continue; E(to_string(n) + " 2 | " + S(x) + " " + S(y) + " | " + S(z) + " " + S(w)); }
        if (n == 3) for (auto& x : U) for (auto& y : U) for (auto& z : U) if (x.a < x.b || th) E("3 2 | " + S(x) + " | " + S(y) + " | " + S(z));
    }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[2] = "capped_choice_trees"; vh::cnt_names()[3] = "transitions"; vh::cnt_names()[4] = "decisions"; vh::cnt_names()[5] = "shared_bytes"; return vh::main_(c, v, enumerate, run); }
