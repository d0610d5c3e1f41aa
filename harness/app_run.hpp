// Runs a command line program (its main) in a child process with a scratch directory.
#pragma once
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "vc_build.hpp"
#include "cactus_ref.hpp"
#include "tools/random_functions.h"
using std::to_string; typedef std::vector<Str> Strs; static Str TOP;
#ifdef PARALLEL
static const bool PAR = true;
#else
static const bool PAR = false;
#endif
static Str slurp(const Str& f, bool* ok = nullptr) { std::ifstream i(f); if (ok) *ok = (bool)i; std::stringstream s; s << i.rdbuf(); return s.str(); }
static Str cwd() { return TOP + "/w" + to_string(getpid()); }
static void clean() { Str d = cwd(); if (TOP.size() < 9 || TOP.substr(0, 8) != "/tmp/vc3") abort(); if (DIR* D = opendir(d.c_str())) { while (dirent* e = readdir(D)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(D); } else mkdir(d.c_str(), 0700); }
struct Out { int code; Str text; std::vector<std::map<Str, Str> > results; };
// Runs the program in the scratch directory.
// The random decisions of the child are reported back, so that vrng::explore can branch over them.
struct Trace { int seed; uint32_t n, taken[256], arity[256]; };
static Trace* trace() { static Trace* t = (Trace*)mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return t; }
static void dump_trace() { auto& s = vrng::src(); Trace* t = trace(); t->seed = random_functions::getSeed(); t->n = std::min<size_t>(256, s.taken.size()); for (uint32_t i = 0; i < t->n; ++i) t->taken[i] = s.taken[i], t->arity[i] = s.arity[i]; }
static Out launch(const Strs& args) { trace()->n = 0;
    static int fd = memfd_create("out", 0); if (ftruncate(fd, 0)) abort(); lseek(fd, 0, SEEK_SET); vh::tick(); Str wd = cwd(); pid_t p = fork();
    if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); SIM_RESET; setenv("VERIF_LOG", "1", 1); if (chdir(wd.c_str())) _exit(99); dup2(fd, 1); if (!getenv("VH_LOUD")) dup2(fd, 2); std::vector<char*> a{ (char*)"prog" }; for (auto& s : args) a.push_back((char*)s.c_str()); a.push_back(nullptr); atexit(dump_trace); int r = main(a.size() - 1, a.data()); std::cout.flush(); fflush(nullptr); dump_trace(); _exit(r & 255); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } if (vrng::src().exploring) { auto& s = vrng::src(); Trace* t = trace(); s.taken.assign(t->taken, t->taken + t->n); s.arity.assign(t->arity, t->arity + t->n); } Out o; o.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); char b[4096]; ssize_t n; off_t q = 0; while ((n = pread(fd, b, sizeof b, q)) > 0) o.text.append(b, n), q += n;
    std::istringstream is(o.text); Str l; while (std::getline(is, l)) if (l.substr(0, 6) == "RESULT") { std::map<Str, Str> m; std::istringstream ls(l); Str t; while (ls >> t) { auto e = t.find('='); if (e != Str::npos) m[t.substr(0, e)] = t.substr(e + 1); } o.results.push_back(m); } return o; }
static void write_graph(const WG& g, const Str& name, bool weights = true) { std::ofstream f(cwd() + "/" + name); int m = 0; for (auto w : g.w) m += w != 0; f << g.n << " " << m << (weights ? " 1" : "") << "\n"; for (int v = 0; v < g.n; ++v) { for (int u = 0; u < g.n; ++u) if (g.at(u, v)) { f << u + 1 << " "; if (weights) f << g.at(u, v) << " "; } f << "\n"; } }
static Str tail(const Str& s) { Str r = s.size() > 200 ? s.substr(s.size() - 200) : s; for (char& c : r) if (c == '\n') c = '|'; return r; }
static Str died(const Out& o) { return o.code >= 1000 ? "killed by signal " + to_string(o.code - 1000) : o.code ? "exit code " + to_string(o.code) : ""; }
static uint64_t side_weight(const WG& g, const std::vector<int>& s) { uint64_t w = 0; for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (s[i] != s[j]) w += g.at(i, j); return w; }
static Str read_side(const Str& f, int n, std::vector<int>* s) { bool ok; std::istringstream is(slurp(cwd() + "/" + f, &ok)); if (!ok) return "no file " + f; Str l; while (std::getline(is, l)) { if (l != "0" && l != "1") return "line '" + l + "' in " + f; s->push_back(l == "1"); } if ((int)s->size() != n) return f + " has " + to_string(s->size()) + " lines for " + to_string(n) + " vertices"; int c = std::count(s->begin(), s->end(), 1); return c && c < n ? "" : f + " puts all vertices on one side"; }
static bool has(const Strs& a, const Str& x) { return std::find(a.begin(), a.end(), x) != a.end(); }
static Str after(const Strs& a, const Str& x, const Str& d = "") { auto i = std::find(a.begin(), a.end(), x); return i == a.end() || i + 1 == a.end() ? d : *(i + 1); }
static std::vector<uint64_t> degrees(const WG& g) { std::vector<uint64_t> d(g.n, 0); for (int v = 0; v < g.n; ++v) for (int u = 0; u < g.n; ++u) d[v] += g.at(u, v); return d; }
