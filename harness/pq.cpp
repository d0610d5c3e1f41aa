// Priority queues: every operation sequence up to a depth against a reference map with insertion order.
#include "vh.hpp"
#include "data_structure/priority_queues/bucket_pq.h"
#include "data_structure/priority_queues/fifo_node_bucket_pq.h"
#include "data_structure/priority_queues/maxNodeHeap.h"
#include "data_structure/priority_queues/node_bucket_pq.h"
#include "data_structure/priority_queues/vecMaxNodeHeap.h"
typedef std::string Str; using std::to_string;
struct Ref { std::map<NodeID, Gain> key; std::map<NodeID, int> when; int t = 0; bool ordered = true;   // ordered: only inserts and delete-max so far
    Gain max() const { Gain g = 0; for (auto& p : key) g = std::max(g, p.second); return g; } };
enum { HEAP, LIFO, FIFO };
template <class Q> struct Traits; template <> struct Traits<bucket_pq> { enum { o = LIFO }; }; template <> struct Traits<node_bucket_pq> { enum { o = LIFO }; }; template <> struct Traits<fifo_node_bucket_pq> { enum { o = FIFO }; };
template <> struct Traits<maxNodeHeap> { enum { o = HEAP }; }; template <> struct Traits<vecMaxNodeHeap> { enum { o = HEAP }; };
static uint64_t steps = 0; static int N; static std::vector<Gain> KEYS; static bool GAIN = true;
template <class Q> auto gain_of(Q& q, NodeID v, int) -> decltype(q.gain(v), Gain()) { return q.gain(v); }
template <class Q> Gain gain_of(Q& q, NodeID v, long) { return q.contains(v) ? q.getKey(v) : 0; }
template <class Q> Str check(Q& q, const Ref& r) {
    if (q.size() != r.key.size()) return "size " + to_string(q.size()) + ", expected " + to_string(r.key.size());
    if (q.empty() != r.key.empty()) return "empty() is wrong";
    for (NodeID v = 0; v < (NodeID)N; ++v) { auto it = r.key.find(v); bool in = it != r.key.end(); if (q.contains(v) != in) return "contains(" + to_string(v) + ") is wrong"; if (in && q.getKey(v) != it->second) return "key of " + to_string(v) + " is " + to_string(q.getKey(v)); if (gain_of(q, v, 0) != (in ? it->second : 0)) return "gain of " + to_string(v) + " is wrong"; }
    if (r.key.empty()) return ""; if (q.maxValue() != r.max()) return "maxValue is " + to_string(q.maxValue()) + ", expected " + to_string(r.max());
    NodeID m = q.maxElement(); auto it = r.key.find(m); if (it == r.key.end() || it->second != r.max()) return "maxElement " + to_string(m) + " does not have the maximum key"; return "";
}
// op: 'i' insert, 'c' changeKey, 'u'/'d' increase/decreaseKey, 'x' delete, 'm' deleteMax
template <class Q> Str apply(Q& q, Ref& r, char op, NodeID v, Gain k, int order) {
    ++steps;
    if (op == 'i') { q.insert(v, k); r.key[v] = k; r.when[v] = ++r.t; }
    else if (op == 'c') { q.changeKey(v, k); r.key[v] = k; r.ordered = false; }
    else if (op == 'u') { q.increaseKey(v, k); r.key[v] = k; r.ordered = false; }
    else if (op == 'd') { q.decreaseKey(v, k); r.key[v] = k; r.ordered = false; }
    else if (op == 'x') { q.deleteNode(v); r.key.erase(v); r.ordered = false; }
    else { NodeID e = q.maxElement(), m = q.deleteMax(); auto it = r.key.find(m); if (it == r.key.end()) return "deleteMax returned " + to_string(m) + " which is not contained"; if (it->second != r.max()) return "deleteMax returned " + to_string(m) + " with key " + to_string(it->second) + ", the maximum is " + to_string(r.max());
        if (e != m) return "maxElement and deleteMax disagree"; 
        if (r.ordered && order != HEAP) for (auto& p : r.key) if (p.second == it->second && p.first != m && (order == FIFO ? r.when[p.first] < r.when[m] : r.when[p.first] > r.when[m])) return "deleteMax returned " + to_string(m) + " before " + to_string(p.first) + (order == FIFO ? " (first in first out)" : " (last in first out)");
        r.key.erase(m); }
    return check(q, r);
}
template <class Q> Str drain(Q q, Ref r, const Str& path) { int k = 0; while (!r.key.empty()) { Str e = apply(q, r, 'm', 0, 0, Traits<Q>::o); ++k; if (!e.empty()) return "after" + path + " and " + to_string(k) + " deleteMax: " + e; } return ""; }
template <class Q> Str dfs(const Q& q, const Ref& r, int depth, const Str& path) {
    if (!depth) { vh::outcome(vh::hash(to_string(r.key.size()) + ":" + to_string(r.max()) + path.substr(0, 5))); return drain(q, r, path); }
    auto go = [&](char op, NodeID v, Gain k) -> Str { Q c = q; Ref s = r; Str p = path + " " + op + (op == 'm' ? "" : to_string(v) + (op == 'x' ? "" : "," + to_string(k))); Str e = apply(c, s, op, v, k, Traits<Q>::o); if (!e.empty()) return "after" + p + ": " + e; return dfs(c, s, depth - 1, p); };
    Str e; if (!r.key.empty()) { e = go('m', 0, 0); if (!e.empty()) return e; }
    for (NodeID v = 0; v < (NodeID)N; ++v) { auto it = r.key.find(v);
        if (it == r.key.end()) { for (Gain k : KEYS) if (!(e = go('i', v, k)).empty()) return e; }
        else { if (!(e = go('x', v, 0)).empty()) return e; for (Gain k : KEYS) { if (!(e = go(k > it->second ? 'u' : k < it->second ? 'd' : 'c', v, k)).empty()) return e; if (k != it->second && depth <= 2 && !(e = go('c', v, k)).empty()) return e; } } }
    return "";
}
template <class Q> Str start(Gain span, int depth, std::istringstream& is) {
    Q q(N, span); Ref r; Str t, path, e = check(q, r); if (!e.empty()) return "initially: " + e; steps = 0;
    while (is >> t) { unsigned v = 0; unsigned long long k = 0; sscanf(t.c_str() + 1, "%u,%llu", &v, &k); path += " " + t; e = apply(q, r, t[0], v, k, Traits<Q>::o); if (!e.empty()) return "after" + path + ": " + e; }
    return dfs(q, r, depth, path);
}
// spec: type n span depth k1,k2,.. | ops
static Str run(const Str& spec) {
    std::istringstream is(spec); Str ty, ks, t, e; unsigned long long span; int d; is >> ty >> N >> span >> d >> ks >> t; KEYS.clear(); { std::istringstream k(ks); unsigned long long x; char c; while (k >> x) { KEYS.push_back(x); k >> c; } }
    if (ty == "bucket") e = start<bucket_pq>(span, d, is); else if (ty == "lifo") e = start<node_bucket_pq>(span, d, is); else if (ty == "fifo") e = start<fifo_node_bucket_pq>(span, d, is); else if (ty == "heap") e = start<maxNodeHeap>(span, d, is); else e = start<vecMaxNodeHeap>(span, d, is);
    vh::count(0, 1); vh::count(3, steps); if (N > 2) vh::count(1); return e;
}
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough"; const char* T[] = { "bucket", "lifo", "fifo", "heap", "vecheap" };
    for (Str ty : T) {
        bool heap = ty.find("heap") != Str::npos; Str big = heap ? "0,4294967297,18446744073709551615" : "0,1,3";
        auto pre = [&](int n, Str span, int d, const Str& ks) { return ty + " " + to_string(n) + " " + span + " " + to_string(d) + " " + ks + " |"; };
        if (!emit(pre(1, "3", 6, "0,1,2,3")) || !emit(pre(2, "2", th ? 7 : 6, "0,1,2"))) return;
        // three and four elements: prefixes of two insertions, all continuations
        std::vector<Str> kk = { "0", "1", "3" }; auto pfx = [&](int n, int d, const Str& ks, const std::vector<Str>& k) { for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (auto& x : k) for (auto& y : k) { Str s = pre(n, "3", d, ks); s += " i" + to_string(a) + "," + x; s += b == a ? " m" : " i" + to_string(b) + "," + y; if (!emit(s)) return false; } return true; };
        if (!pfx(3, th ? 6 : 4, "0,1,3", kk) || !pfx(4, th ? 5 : 4, "0,1", { "0", "1" }) || !pfx(3, 4, big, heap ? std::vector<Str>{ "0", "4294967297", "18446744073709551615" } : kk)) return;
        // larger queues: all insertion orders of distinct keys, and all keys from {0,1,2}, then every one or two further operations
        for (int n : { 6, 7 }) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; do { Str s = pre(n, to_string(n), n == 6 ? (th ? 3 : 2) : (th ? 2 : 1), Str("0,1,2,3,4,5,6").substr(0, 2 * n - 1)); for (int i = 0; i < n; ++i) s += " i" + to_string(i) + "," + to_string(p[i]); if (!emit(s)) return; } while (std::next_permutation(p.begin(), p.end())); }
        { int n = 8, c = 1; for (int i = 0; i < n; ++i) c *= 3; for (int x = 0; x < c; ++x) { Str s = pre(n, "3", 1, "0,1,3"); int y = x; for (int i = 0; i < n; ++i, y /= 3) s += " i" + to_string((i * 3) % n) + "," + kk[y % 3]; if (!emit(s)) return; } }
        // long queues: a deep heap with one or two operations on every element
        for (int n : { 31, 40 }) for (int st : { 1, 3, 7, 11, 13 }) { Str s = pre(n, "64", th ? 2 : 1, "0,10,33,64"); for (int i = 0; i < n; ++i) s += " i" + to_string(i) + "," + to_string((i * st) % 41); if (!emit(s)) return; }
    }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[3] = "transitions"; return vh::main_(c, v, enumerate, run); }
