// Exhaustive-enumeration runner: shards a finite case space over forked workers, isolates crashes and
// hangs, confirms every failure in a fresh process, writes a machine-readable result file.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
namespace vh {
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const int MAXW = 64, SPEC = 6000, NCNT = 24;
struct Slot {
    std::atomic<uint64_t> idx;       // index of the current case
    std::atomic<uint64_t> busy;      // 1 while a case runs
    std::atomic<uint64_t> tick;      // changes whenever progress is made
    std::atomic<uint64_t> cases;     // finished cases
    std::atomic<uint64_t> cnt[NCNT]; // free counters
    std::atomic<uint64_t> done;      // shard finished
    char spec[SPEC];                 // current case
    char fail[SPEC];                 // failure text written by the worker
    uint64_t hashes;                 // distinct outcomes (lower bound: per worker)
};
struct Failure { std::string spec, what; };
struct Options {
    int workers = 8; double case_timeout = 30; double budget = 0; int max_fail = 40; std::string out, replay, known; std::string tier = "quick";
    bool verbose = false; std::string arg;
};
// A case: runs the real code, returns "" if the property held, else a description.
typedef std::function<std::string(const std::string& spec)> RunFn;
struct Emitter {
    // returns false when enumeration should stop
    std::function<bool(const std::string&)> emit;
    bool operator () (const std::string& s) { return emit(s); }
};
typedef std::function<void(Emitter&, const Options&)> EnumFn;
inline Slot* slots() { static Slot* s = nullptr; if (!s) { s = (Slot*)mmap(0, sizeof(Slot) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } return s; }
inline int& me() { static int m = 0; return m; }
inline void count(int i, uint64_t d = 1) { slots()[me()].cnt[i] += d; }
inline void tick() { slots()[me()].tick++; }
inline std::vector<std::string>& cnt_names() { static std::vector<std::string> v(NCNT); return v; }
inline std::unordered_set<uint64_t>& outcomes() { static std::unordered_set<uint64_t> s; return s; }
inline void outcome(uint64_t h) { if (outcomes().size() < 2000000) outcomes().insert(h); }
inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline std::string jesc(const std::string& s) {
    std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
inline void put(char* d, const std::string& s) { size_t n = std::min<size_t>(s.size(), SPEC - 1); memcpy(d, s.data(), n); d[n] = 0; }
// Run one case in a fresh process; "" if fine.
inline void quiet(int errfd = -1) { if (getenv("VH_LOUD")) return; int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(errfd >= 0 ? errfd : n, 2); }
inline std::string run_isolated(const RunFn& run, const std::string& spec, double timeout, bool* hung = nullptr) {
    Slot* s = &slots()[MAXW - 1]; put(s->spec, spec); s->fail[0] = 0; int om = me();
    fflush(0); int ef = memfd_create("vh", 0);
    pid_t p = fork();
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); quiet(ef); me() = MAXW - 1; std::string r = run(spec); if (!r.empty()) { put(s->fail, r); _exit(99); } _exit(98); }
    me() = om; double t0 = now(); struct Cl { int f; ~Cl() { close(f); } } cl{ ef };
    while (true) {
        int st; pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) {
            kill(-p, SIGKILL);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 98) return "";
            if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return s->fail;
            std::ostringstream o; if (WIFEXITED(st)) o << "process exited with code " << WEXITSTATUS(st); else o << "process killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
            std::string e(20000, 0); ssize_t n = pread(ef, &e[0], e.size(), 0); e.resize(n > 0 ? n : 0); std::istringstream is(e); std::string l; int c = 0;
            while (std::getline(is, l) && c < 3) if (l.find("ERROR: ") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("ssertion") != std::string::npos || l.find("what()") != std::string::npos || l.find("    #") == 0) { o << " | " << l.substr(0, 200); ++c; }
            return o.str();
        }
        if (now() - t0 > timeout) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); if (hung) *hung = true; return "did not terminate within " + std::to_string((int)timeout) + " s"; }
        usleep(2000);
    }
}
inline int main_(int argc, char** argv, EnumFn en, RunFn run) {
    Options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--workers") o.workers = atoi(nx().c_str()); else if (a == "--out") o.out = nx(); else if (a == "--replay") o.replay = nx();
        else if (a == "--tier") o.tier = nx(); else if (a == "--timeout") o.case_timeout = atof(nx().c_str()); else if (a == "--budget") o.budget = atof(nx().c_str());
        else if (a == "--known") o.known = nx(); else if (a == "-v") o.verbose = true; else if (a == "--arg") o.arg = nx(); else if (a == "--max-fail") o.max_fail = atoi(nx().c_str());
    }
    if (!o.replay.empty()) {
        std::ifstream f(o.replay); std::string spec, l; if (f) { while (std::getline(f, l)) if (l.rfind("spec: ", 0) == 0) spec = l.substr(6); } else spec = o.replay;
        if (spec.empty()) spec = o.replay;
        std::cout << "replaying: " << spec << std::endl;
        std::string r = o.verbose ? run(spec) : run_isolated(run, spec, 300);
        std::cout << (r.empty() ? "HELD" : "FAILED: " + r) << std::endl; return r.empty() ? 0 : 1;
    }
    // known findings: exact specs which are expected to fail
    std::set<std::string> known; if (!o.known.empty()) { std::ifstream f(o.known); std::string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') known.insert(l); }
    int W = std::min(o.workers, MAXW - 2); Slot* S = slots(); double t0 = now();
    std::vector<pid_t> pid(W, 0); std::vector<uint64_t> start(W, 0); std::vector<bool> fin(W, false);
    std::vector<Failure> fails; std::vector<double> lastchg(W, now()); std::vector<uint64_t> lasttick(W, ~0ull);
    bool stop = false, capped = false; std::string tmpd = o.out + ".d"; 
    auto spawn = [&](int w) {
        fflush(0); pid_t p = fork();
        if (p) { pid[w] = p; lastchg[w] = now(); lasttick[w] = ~0ull; return; }
        prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); quiet(); me() = w; Slot& s = S[w]; uint64_t i = 0; double deadline = o.budget > 0 ? t0 + o.budget : 0; bool cap = false;
        Emitter e; e.emit = [&](const std::string& spec) {
            uint64_t k = i++; if (k % W != (uint64_t)w || k < start[w]) return true;
            s.idx = k; if (known.count(spec)) return true;
            if (deadline && now() > deadline) { cap = true; return false; }
            put(s.spec, spec); s.busy = 1; s.tick++;
            std::string r = run(spec);
            if (!r.empty()) { put(s.fail, r); _exit(99); }
            s.busy = 0; s.cases++; s.tick++; return true;
        };
        en(e, o);
        s.hashes = outcomes().size(); s.done = cap ? 2 : 1; _exit(0);
    };
    for (int w = 0; w < W; ++w) { S[w].fail[0] = 0; spawn(w); }
    int live = W;
    while (live > 0) {
        int st; pid_t p;
        while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
            int w = -1; for (int k = 0; k < W; ++k) if (pid[k] == p) w = k; if (w < 0) continue; kill(-p, SIGKILL);
            pid[w] = 0;
            if (S[w].done) { if (S[w].done == 2) capped = true; fin[w] = true; --live; continue; }
            Failure f; f.spec = S[w].spec; 
            if (WIFEXITED(st) && WEXITSTATUS(st) == 99) f.what = S[w].fail;
            else { std::ostringstream q; if (WIFEXITED(st)) q << "process exited with code " << WEXITSTATUS(st); else q << "process killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")"; f.what = q.str(); }
            fails.push_back(f); S[w].busy = 0;
            if ((int)fails.size() >= o.max_fail || stop) { stop = true; fin[w] = true; --live; continue; }
            start[w] = S[w].idx + 1; spawn(w);
        }
        if (stop) { for (int w = 0; w < W; ++w) if (pid[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; --live; } break; }
        for (int w = 0; w < W; ++w) if (pid[w]) {
            uint64_t t = S[w].tick; if (t != lasttick[w] || !S[w].busy) { lasttick[w] = t; lastchg[w] = now(); }
            else if (now() - lastchg[w] > o.case_timeout) {
                Failure f; f.spec = S[w].spec; f.what = "HANG"; kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; S[w].busy = 0;
                fails.push_back(f);
                int hangs = 0; for (auto& q : fails) hangs += q.what == "HANG";
                if ((int)fails.size() >= o.max_fail || hangs >= 2) { stop = true; --live; } else { start[w] = S[w].idx + 1; spawn(w); }
            }
        }
        if (stop) continue;
        usleep(5000);
    }
    // confirm: each failure must repeat when run alone (hangs get 4x the limit)
    std::vector<Failure> conf; int unconfirmed = 0;
    for (auto& f : fails) {
        if (conf.size() >= 12) { break; }
        bool h = false; std::string r = run_isolated(run, f.spec, o.case_timeout * (f.what == "HANG" ? 4 : 2), &h);
        if (r.empty()) { ++unconfirmed; std::cerr << "unconfirmed: " << f.spec << " : " << f.what << std::endl; } else { f.what = r; conf.push_back(f); }
    }
    std::vector<std::pair<std::string, std::string> > kres;
    for (auto& k : known) { std::string r = run_isolated(run, k, o.case_timeout * 2); if (!r.empty()) kres.push_back({ k, r }); }
    uint64_t cases = 0, oc = 0; std::vector<uint64_t> c(NCNT, 0);
    for (int w = 0; w < W; ++w) { cases += S[w].cases; oc = std::max(oc, S[w].hashes); for (int k = 0; k < NCNT; ++k) c[k] += S[w].cnt[k]; }
    std::ostringstream j; j << "{\"cases\":" << cases << ",\"distinct_outcomes\":" << oc << ",\"capped\":" << (capped ? "true" : "false") << ",\"stopped\":" << (stop ? "true" : "false") << ",\"unconfirmed\":" << unconfirmed << ",\"raw_failures\":" << fails.size() << ",\"wall\":" << now() - t0 << ",\"counters\":{";
    bool first = true; for (int k = 0; k < NCNT; ++k) if (!cnt_names()[k].empty()) { if (!first) j << ','; first = false; j << '"' << cnt_names()[k] << "\":" << c[k]; }
    j << "},\"failures\":["; first = true; for (auto& f : conf) { if (!first) j << ','; first = false; j << "{\"spec\":\"" << jesc(f.spec) << "\",\"what\":\"" << jesc(f.what) << "\"}"; }
    j << "],\"known\":["; first = true; for (auto& f : kres) { if (!first) j << ','; first = false; j << "{\"spec\":\"" << jesc(f.first) << "\",\"what\":\"" << jesc(f.second) << "\"}"; }
    j << "],\"last_specs\":["; first = true; for (int w = 0; w < W && w < 4; ++w) { if (!first) j << ','; first = false; j << '"' << jesc(S[w].spec) << '"'; }
    j << "]}\n";
    if (!o.out.empty()) { std::ofstream f(o.out); f << j.str(); } else std::cout << j.str();
    return conf.empty() ? 0 : 1;
}
}
