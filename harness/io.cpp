// Readers and writers of graph_io.h against an independent description of the formats. Files live in memory (memfd).
#include "vh.hpp"
#include "vc_build.hpp"
#include "io/graph_io.h"
typedef std::string Str; using std::to_string;
static int FD = -1; static Str path() { return "/proc/self/fd/" + to_string(FD); }
static void setfile(const Str& s) { if (FD < 0) FD = memfd_create("io", 0); if (ftruncate(FD, 0)) abort(); if (pwrite(FD, s.data(), s.size(), 0) != (ssize_t)s.size()) abort(); }
static Str getfile() { Str r; char b[4096]; ssize_t n; off_t o = 0; while ((n = pread(FD, b, sizeof b, o)) > 0) { r.append(b, n); o += n; } return r; }
static Str show(const Str& s) { Str r; for (char c : s.substr(0, 400)) if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else r += c; return "'" + r + "'"; }
static void nostderr() { static bool d = false; if (!d && !getenv("VH_LOUD")) { d = true; freopen("/dev/null", "w", stderr); } }
template <class GP> static Str same(GP G, const WG& g, bool order) { if ((int)G->number_of_nodes() != g.n) return "read " + to_string(G->number_of_nodes()) + " vertices, the file has " + to_string(g.n); if (G->number_of_edges() != (EdgeID)(2 * g.m())) return "read " + to_string(G->number_of_edges()) + " edges, the file has " + to_string(2 * g.m()); Str err; WG h = view(G, &err); if (!err.empty()) return err; if (h.w != g.w) return "read other edges: " + h.str() + " instead of " + g.str();
    for (int v = 0; v < g.n; ++v) { uint64_t d = 0; for (int u = 0; u < g.n; ++u) d += g.at(u, v); if (G->getWeightedNodeDegree(v) != d) return "weighted degree of " + to_string(v) + " is " + to_string(G->getWeightedNodeDegree(v)); if (G->getPartitionIndex(v)) return "partition index is not 0"; if (order) { int last = -1; for (EdgeID e : G->edges_of(v)) { int t = G->getEdgeTarget(v, e); if (t <= last) return "edges are not in the order of the file"; last = t; } } } return ""; }
// One METIS file: fmt (- = header without format), comment placement, blanks, end of line, self loops.
static Str metis(const WG& g, const Str& fmt, int com, const Str& lead, const Str& sep, const Str& trail, bool nl, int loops) {
    bool ew = fmt == "1" || fmt == "11" || fmt == "001" || fmt == "011", nw = fmt == "10" || fmt == "11" || fmt == "011"; Str s; auto C = [&](int bit) { if (com & bit) s += "% 1 2 3\n"; }; C(1); if (com & 1) s += "%\n"; s += lead + to_string(g.n) + sep + to_string(g.m()) + (fmt == "-" ? "" : sep + fmt) + trail + "\n"; C(2);
    for (int v = 0; v < g.n; ++v) { Str l; auto W = [&](uint64_t x) { l += (l.empty() ? lead : sep) + to_string(x); }; if (nw) W(7 + v); if (loops == 1) { W(v + 1); if (ew) W(2); } for (int u = 0; u < g.n; ++u) { if (g.at(u, v)) { W(u + 1); if (ew) W(g.at(u, v)); } if (loops == 2 && u == v) { W(v + 1); if (ew) W(3); } } bool last = v == g.n - 1 && !(com & 8); s += l + trail; if (!last || nl || (l + trail).empty()) s += "\n"; if (v + 1 < g.n) C(4); } if (com & 8) { s += "% end"; if (nl) s += "\n"; } return s; }
static Str run_metis(std::istringstream& is) {
    Str gs, type, fmt; is >> gs >> type >> fmt; WG g = WG::parse(gs); bool ew = fmt == "1" || fmt == "11" || fmt == "001" || fmt == "011"; WG want = g; if (!ew) for (auto& x : want.w) if (x) x = 1;
    for (int com = 0; com < 16; ++com) for (Str lead : { "", " ", "  ", "\t" }) for (Str sep : { " ", "  ", "\t", " \t " }) for (Str trail : { "", " ", "  ", "\t", "\r", " \r" }) for (int nl = 0; nl < 2; ++nl) for (int loops = 0; loops < 3; ++loops) {
        if (com && com != 15 && (lead != "") + (sep != " ") + (trail != "") + (loops > 0) > 1) continue;
        Str f = metis(g, fmt, com, lead, sep, trail, nl, loops); setfile(f); Str e; vh::count(3);
        if (type == "s") e = same(graph_io::readGraphWeighted<graph_access>(path()), want, true); else e = same(graph_io::readGraphWeighted<mutable_graph>(path()), want, false);
        if (!e.empty()) return e + " for the file " + show(f); }
    return ""; }
static Str run_write(std::istringstream& is) {
    Str gs; is >> gs; WG g = WG::parse(gs); WG one = g; for (auto& x : one.w) if (x) x = 1; auto S = build_static(g); auto M = build_mutable(g); Str e; vh::count(3, 8);
    auto check = [&](const Str& what, const WG& want) -> Str { Str f = getfile(); Str e = same(graph_io::readGraphWeighted<graph_access>(path()), want, false); if (e.empty()) e = same(graph_io::readGraphWeighted<mutable_graph>(path()), want, false); return e.empty() ? e : what + ": " + e + ", file " + show(f); };
    setfile(""); graph_io::writeGraphWeighted(S, path()); if (!(e = check("writeGraphWeighted", g)).empty()) return e; { Str a = getfile(), b = metis(g, "1", 0, "", " ", g.n ? " " : "", true, 0); std::istringstream x(a), y(b); Str p, q; while (y >> q) if (!(x >> p) || p != q) return "writeGraphWeighted wrote " + show(a); }
    setfile(""); graph_io::writeGraphWeighted(M, path()); if (!(e = check("writeGraphWeighted (mutable)", g)).empty()) return e; setfile(""); graph_io::writeGraph(S, path()); if (!(e = check("writeGraph", one)).empty()) return e;
    setfile(""); graph_io::writeGraphDimacsKS(S, path(), "mc"); { std::istringstream f(getfile()); Str p, t; int n = -1, m = -1; f >> p >> t >> n >> m; WG h(g.n); Str a; int u, v, c = 0; uint64_t w; if (p != "p" || t != "mc" || n != g.n || m != g.m()) return "writeGraphDimacsKS: header " + show(getfile()); while (f >> a >> u >> v >> w) { if (a != "a" || u < 1 || u > g.n || v < 1 || v > g.n || u == v) return "writeGraphDimacsKS: " + show(getfile()); h.add(u - 1, v - 1, w); ++c; } if (c != m || h.w != g.w) return "writeGraphDimacsKS: " + show(getfile()); }
    for (int c = 0; c < 1 << g.n; c += g.n > 6 ? (1 << g.n) / 37 + 1 : 1) { for (int v = 0; v < g.n; ++v) { S->setNodeInCut(v, c >> v & 1); M->setNodeInCut(v, c >> v & 1); } for (int k = 0; k < 2; ++k) { setfile(""); if (k) graph_io::writeCut(M, path()); else graph_io::writeCut(S, path()); auto v = graph_io::readVector<NodeID>(path()); if ((int)v.size() != g.n) return "writeCut wrote " + to_string(v.size()) + " lines"; for (int i = 0; i < g.n; ++i) if (v[i] != (NodeID)(c >> i & 1)) return "writeCut wrote another cut"; } }
    { auto F = graph_io::createFlowGraph(S); if ((int)F->number_of_nodes() != g.n || F->number_of_edges() != (EdgeID)(4 * g.m())) return "flow graph has other counts"; WG h(g.n); std::vector<std::vector<uint64_t> > cap(g.n, std::vector<uint64_t>(g.n, 0)); for (NodeID v : F->nodes()) { uint64_t s = 0; for (EdgeID x : F->edges_of(v)) { NodeID t = F->getEdgeTarget(v, x); cap[v][t] += F->getEdgeCapacity(v, x); s += F->getEdgeCapacity(v, x); EdgeID r = F->getReverseEdge(v, x); if (F->getEdgeTarget(t, r) != v || F->getReverseEdge(t, r) != x || F->getEdgeFlow(v, x)) return "flow graph: reverse edge"; } if ((uint64_t)F->getCapacity(v) != s) return "flow graph: capacity of vertex " + to_string(v); } for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (i != j && cap[i][j] != g.at(i, j)) return "flow graph has other capacities"; }
    return ""; }
// temporal files: lines "s,t,w,ts" with column style per file
static Str run_temporal(std::istringstream& is) {
    Str style; is >> style; std::vector<std::tuple<int, int, int64_t, uint64_t> > L; Str t; while (is >> t) { int a, b; long long w; unsigned long long ts; sscanf(t.c_str(), "%d,%d,%lld,%llu", &a, &b, &w, &ts); L.push_back({ a, b, w, ts }); }
    std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > want; NodeID n = 0; for (auto& [a, b, w, ts] : L) { want.push_back({ a - 1, b - 1, style == "3" ? 1 : w, ts }); n = std::max<NodeID>(n, std::max(a, b)); } std::stable_sort(want.begin(), want.end(), [](auto& x, auto& y) { return std::get<3>(x) < std::get<3>(y); });
    for (int com = 0; com < 8; ++com) for (Str lead : { "", " ", "  " }) for (Str sep : { " ", "  ", "\t", "\t " }) for (Str trail : { "", " ", "\r" }) for (int nl = 0; nl < 2; ++nl) { Str s; if (com & 1) s += "% sym 1 2 3 4\n"; size_t i = 0; for (auto& [a, b, w, ts] : L) { s += lead + to_string(a) + sep + to_string(b) + sep; if (style == "4") s += to_string(w) + sep; if (style == "s") s += (w < 0 ? "" : "+") + to_string(w) + sep; s += to_string(ts) + trail; if (++i < L.size() || nl || (com & 4)) s += "\n"; if ((com & 2) && i < L.size()) s += "%\n"; } if (com & 4) s += "% end"; setfile(s); vh::count(3);
        auto [k, e] = graph_io::readTemporalGraph(path()); if (k != n) return "temporal reader found " + to_string(k) + " vertices instead of " + to_string(n) + " in " + show(s); if (e != want) { std::ostringstream o; for (auto& [a, b, w, x] : e) o << a << ',' << b << ',' << w << ',' << x << ' '; return "temporal reader returned " + o.str() + "(0-based) for " + show(s); } }
    return ""; }
static Str run_dimacs(std::istringstream& is) {
    Str gs; is >> gs; WG g = WG::parse(gs); std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > want; for (int nl = 0; nl < 2; ++nl) for (int ord = 0; ord < 2; ++ord) for (int only = 0; only < 2; ++only) { Str s = "p " + to_string(g.n) + " " + to_string(g.m()); want.clear(); int c = 0; for (int i = 0; i < g.n; ++i) for (int q = 0; q < g.n; ++q) { int j = ord ? g.n - 1 - q : q; if (!g.at(i, j) || (only && j < i)) continue; s += "\na " + to_string(i + 1) + " " + to_string(j + 1); if (j > i) want.push_back({ i, j, 1, ++c }); } if (nl) s += "\n"; setfile(s); vh::count(3, 2); for (int k = 0; k < 2; ++k) { auto [n, e] = k ? graph_io::readTemporalGraph(path()) : graph_io::readDimacs(path()); if ((int)n != g.n || e != want) return "DIMACS reader returned other edges for " + show(s); } } return ""; }
static Str run_vector(std::istringstream& is) {
    std::vector<NodeID> v; Str t; while (is >> t) v.push_back(strtoul(t.c_str(), 0, 10)); for (int com = 0; com < 8; ++com) for (Str trail : { "", " ", "\r" }) for (int nl = 0; nl < 2; ++nl) { Str s; if (com & 1) s += "%\n"; for (size_t i = 0; i < v.size(); ++i) { s += to_string(v[i]) + trail; if (i + 1 < v.size() || nl || (com & 4)) s += "\n"; if ((com & 2) && i + 1 < v.size()) s += "% x\n"; } if (com & 4) s += "% 17"; setfile(s); vh::count(3); if (graph_io::readVector<NodeID>(path()) != v) return "readVector returned something else for " + show(s); } setfile(""); graph_io().writeVector(v, path()); if (graph_io::readVector<NodeID>(path()) != v) return "writeVector / readVector changed the vector"; return ""; }
static Str run(const Str& spec) { vh::count(0); nostderr(); std::istringstream is(spec); Str k; is >> k; if (spec.find_first_of("123456789") != Str::npos) vh::count(1); vh::outcome(vh::hash(spec.substr(0, 9))); return k == "m" ? run_metis(is) : k == "w" ? run_write(is) : k == "t" ? run_temporal(is) : k == "d" ? run_dimacs(is) : run_vector(is); }
static void enumerate(vh::Emitter& emit, const vh::Options& o) {
    bool th = o.tier == "thorough", go = true; auto M = [&](const WG& g) { for (Str ty : { "s", "m" }) for (Str f : { "-", "0", "1", "10", "11", "001", "011" }) if (go) go = emit("m " + g.str() + " " + ty + " " + f); return go; }; auto W = [&](const WG& g) { return go = emit("w " + g.str()) && emit("d " + g.str()); };
    for (int n = 1; n <= 3; ++n) { all_labelled(n, { 0, 1, 12, 4294967305ull }, M); all_labelled(n, { 0, 1, 12, 4294967305ull }, W); } all_labelled(4, { 0, 1, 10 }, W); all_labelled(4, { 0, 3 }, M); if (th) all_labelled(4, { 0, 1, 10 }, M); all_labelled(5, { 0, 1 }, W);
    for (Str k : { "cycle", "path", "star", "clique" }) for (int n : { 9, 10, 11, 12, 20 }) { W(named(k, n, 1)); if (n < 13) { WG g = named(k, n, 7); g.n = n; M(g); } } { WG e(12); M(e); W(e); e.set(0, 11, 5); M(e); W(e); e.set(9, 10, 18446744073709551ull); M(e); W(e); }
    for (Str st : { "3", "4", "s" }) { std::vector<Str> L; for (auto p : { "1,2", "2,1", "1,3", "12,5", "1,1" }) for (Str w : { "1", "20", "-1" }) for (Str ts : { "0", "5", "1234567890123" }) { if (w != "1" && st == "3") continue; if (w == "-1" && st != "s") continue; L.push_back(Str(p) + "," + w + "," + ts); } go = emit("t " + st); for (auto& a : L) { emit("t " + st + " " + a); for (auto& b : L) { go = go && emit("t " + st + " " + a + " " + b); } }
      std::vector<Str> S; for (size_t i = 0; i < L.size(); i += (L.size() > 20 ? 3 : 2)) S.push_back(L[i]); for (auto& a : S) for (auto& b : S) for (auto& c : S) go = go && emit("t " + st + " " + a + " " + b + " " + c); 
      { Str s = "t " + st; for (int i = 0; i < 40; ++i) s += " " + to_string(1 + i % 7) + "," + to_string(2 + i % 5) + ",1," + to_string(i * 7 % 3); emit(s); } }
    emit("v"); for (Str a : { "0", "1", "10", "4294967295" }) { emit("v " + a); for (Str b : { "0", "2", "16777217" }) { emit("v " + a + " " + b); emit("v " + a + " " + b + " 3"); } }
}
int main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; vh::cnt_names()[3] = "transitions"; return vh::main_(c, v, enumerate, run); }
