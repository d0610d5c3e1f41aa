// Runtime of the controlled scheduler. Compiled WITHOUT -fsanitize=thread; the code under test is compiled with it,
// so that the compiler reports every memory access to the functions below (libtsan itself is not linked).

#include "conc.hpp"
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/single_threaded.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <chrono>
#include <algorithm>
#include <map>
#include <new>
#include <unordered_map>
#include <unordered_set>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
namespace {
const int MAXF = 16; const size_t STACK = 512 << 10, HEAP = 24 << 20, PER = STACK + HEAP; // per fiber: stack and bump heap
char* region = nullptr;                     // MAXF * PER bytes at a fixed address
struct Shadow { u32 epoch, wclk; u8 wt, flag, pad, pad1; u32 pad2; u32 r[MAXF]; }; // per word: last write and last read of every thread (vector clocks)
// shadow memory in pages so that only touched parts cost anything
Shadow* shadow = nullptr; u32 epoch = 0;
std::unordered_map<u64, Shadow>* gshadow = nullptr;    // addresses outside the region
std::vector<u64>* flagged = nullptr;                   // conflicting addresses found so far
enum St { FREE, RUN, BLOCKED, TIMED, DONE };
struct Team; struct Ws { long next, end, incr; bool init; int arrived; };
struct VC { u32 c[MAXF] = {}; void join(const VC& o) { for (int i = 0; i < MAXF; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Team { int n; int arrived; u64 gen; std::vector<Ws> ws; int left; int owner; VC in, out; };
struct Fiber { void* sp; St st; const void* on; u64 ongen; bool timed_out, signaled; void* (*fn)(void*); void* arg; void* ret; bool detached; Team* team; int tid; int wsk; int curws; size_t bump; void (*ofn)(void*); int joiner; int tag; bool gone; VC vc; char tls[64]; };
Fiber F[MAXF]; int cur = 0, nf = 0, live = 0; void* host_sp = nullptr;
bool act = false, arena = false; int internal = 0;
struct Dec { u32 chosen; std::vector<u8> cost; };
std::vector<Dec> decs; size_t dpos = 0; int used = 0; bool grew = false, diverged = false; u64 steps = 0, streak = 0, points = 0, vclock = 0; u64 max_steps; int bound, othreads = 2;
const char* failure = nullptr; const std::function<std::string()>* body_ = nullptr; std::string* out = nullptr;
const int TBASE = 100;
extern "C" void conc_switch(void** from, void* to);
asm(R"(
.text
.globl conc_switch
.type conc_switch,@function
conc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
}
// thread-local state of libstdc++ that belongs to a logical thread
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals(); }
namespace {
void tls_save(Fiber& f) { memcpy(f.tls, &std::__once_callable, 8); memcpy(f.tls + 8, &std::__once_call, 8); memcpy(f.tls + 16, __cxxabiv1::__cxa_get_globals(), 16); int e = errno; memcpy(f.tls + 32, &e, 4); }
void tls_load(Fiber& f) { memcpy(&std::__once_callable, f.tls, 8); memcpy(&std::__once_call, f.tls + 8, 8); memcpy(__cxxabiv1::__cxa_get_globals(), f.tls + 16, 16); int e; memcpy(&e, f.tls + 32, 4); errno = e; }
void to_fiber(int i) { if (i == cur) return; int o = cur; tls_save(F[o]); cur = i; streak = 0; conc_switch(&F[o].sp, F[i].sp); tls_load(F[cur]); }
[[noreturn]] void abandon(const char* why) { failure = why; void* d; conc_switch(&d, host_sp); abort(); }
// one decision: returns the index of the option taken
static bool dbg = getenv("CONC_DECIDE");
u32 decide(const std::vector<u8>& cost) {
    if (bound < 0) return 0;   // only the default schedule
    std::vector<u8> c; for (u8 x : cost) { if (x && used + x > bound) { c.push_back(255); } else c.push_back(x); }
    int avail = 0; for (u8 x : c) avail += x != 255;
    if (avail <= 1) return 0;
    ++points; u32 k = 0; if (dbg) { fprintf(stderr, "[%lu T%d:", (unsigned long)steps, cur); for (int i = 0; i < nf; ++i) fprintf(stderr, " %d/%lx", F[i].st, (long)F[i].on & 0xffffff); fprintf(stderr, "] "); }
    if (dpos < decs.size()) { k = decs[dpos].chosen; if (k >= c.size() || c[k] == 255) { diverged = true; abandon("schedule replay diverged (the code under test is not deterministic)"); } decs[dpos].cost = c; }
    else decs.push_back({ 0, c });
    ++dpos; used += c[k]; return k;
}
bool delay = false;
// the current fiber cannot continue (or gives up its turn): free choice among the others
void switch_away(bool can_continue, bool fair = false) {
    std::vector<int> opt; std::vector<u8> cost; int n = nf;
    for (int k = 1; k <= n; ++k) { int i = (cur + k) % n; if (i == cur) continue; if (F[i].st == RUN) { opt.push_back(i); cost.push_back(0); } }
    if (opt.empty() && can_continue && !fair) return;
    bool idle = opt.empty(); for (int k = 0; k < n; ++k) if (F[k].st == TIMED) { opt.push_back(k); cost.push_back(idle ? 0 : 1); }
    if (opt.empty() && can_continue) return;
    if (opt.empty()) { abandon("deadlock: every thread is blocked"); }
    if (delay) for (size_t k = 0; k < cost.size(); ++k) cost[k] = std::min<size_t>(k, 200);
    int i = opt[decide(cost)]; if (F[i].st == TIMED) { F[i].st = RUN; F[i].timed_out = true; }
    if (i != cur) to_fiber(i);
}
bool free_ws = false;
void sched_point(bool free = false) {
    if (++steps > max_steps) abandon("no progress: the step limit was reached (livelock or infinite loop)");
    if (++streak > 500) { streak = 0; switch_away(true, true); return; }   // fairness for busy waiting; waits with a time limit run out, too
    if (bound < 0) return;
    std::vector<int> opt{ cur }; std::vector<u8> cost{ 0 };
    for (int k = 1; k < nf; ++k) { int i = (cur + k) % nf; if (F[i].st == RUN || F[i].st == TIMED) { opt.push_back(i); cost.push_back(free && F[i].st == RUN ? 0 : 1); } }
    if (opt.size() == 1) return;
    if (delay) for (size_t k = 0; k < cost.size(); ++k) cost[k] = std::min<size_t>(k, 200);
    int i = opt[decide(cost)]; if (i == cur) return; if (F[i].st == TIMED) { F[i].st = RUN; F[i].timed_out = true; } to_fiber(i);
}
void block(const void* on, St s = BLOCKED) { F[cur].st = s; F[cur].on = on; F[cur].timed_out = false; F[cur].signaled = false; switch_away(false); F[cur].on = nullptr; }
void wake(const void* on, int max = 1 << 30) { for (int i = 0; i < nf && max > 0; ++i) if ((F[i].st == BLOCKED || F[i].st == TIMED) && F[i].on == on) { F[i].st = RUN; F[i].signaled = true; --max; } }
std::unordered_map<u64, VC>* syncs = nullptr; int hb_live = 1; u32 slotclk[MAXF];
inline Shadow& sh(u64 wd) { u64 o = wd - ((u64)region >> 2); if (o < MAXF * PER / 4) return shadow[o]; return (*gshadow)[wd]; }
// true if the address was ever used by two threads without an order between the uses that synchronisation enforces
inline bool touch(u64 a, size_t n, bool w) {
    bool f = false; const VC& v = F[cur].vc;
    for (u64 wd = a >> 2; wd <= (a + n - 1) >> 2; ++wd) {
        Shadow& s = sh(wd); if (s.epoch != epoch) { s.epoch = epoch; s.wclk = 0; memset(s.r, 0, sizeof s.r); }
        if (!s.flag) { bool race = s.wclk && s.wt != cur && v.c[s.wt] < s.wclk; if (w && !race) { for (int i = 0; i < MAXF; ++i) race |= i != cur && s.r[i] > v.c[i]; } if (race) { s.flag = 1; grew = true; flagged->push_back(wd); } }
        if (w) { s.wt = cur; s.wclk = v.c[cur]; } else s.r[cur] = v.c[cur];
        f |= s.flag; }
    return f;
}
inline void acquire(const void* p) { auto it = syncs->find((u64)p); if (it != syncs->end()) F[cur].vc.join(it->second); }
inline void release(const void* p) { (*syncs)[(u64)p].join(F[cur].vc); ++F[cur].vc.c[cur]; }
static bool tracing = getenv("CONC_TRACE");
__attribute__((always_inline)) inline void access(const void* p, size_t n, bool w) { if (!act || internal || hb_live < 2) return; if (bound < 0) { ++internal; sched_point(); --internal; return; } u64 a = (u64)p; if (a >= (u64)&std::__once_callable - 4096 && a < (u64)&std::__once_callable + 4096) return; ++internal; bool f = touch(a, n, w); --internal; if (f) { ++internal; if (dbg) fprintf(stderr, "PC %lx\n", (long)__builtin_return_address(0)); sched_point(); --internal; } if (tracing) { ++internal; fprintf(stderr, "T%d %s %zu %lx =%lx\n", cur, w ? "W" : "R", n, (long)a & 0xffff, n == 8 ? *(long*)p : (long)*(int*)p); --internal; } }
struct In { In() { ++internal; } ~In() { --internal; } };
int new_fiber();
void entry();
void fiber_exit() { F[cur].st = DONE; slotclk[cur] = F[cur].vc.c[cur]; --live; wake(&F[cur]); switch_away(false); abort(); }
void main_entry() { internal = 0; std::string r = (*body_)(); ++internal; arena = false; out->assign(r.data(), r.size()); void* d; conc_switch(&d, host_sp); abort(); }
void entry() { internal = 0; Fiber& f = F[cur]; tls_load(f); if (f.ofn) f.ofn(f.arg); else f.ret = f.fn(f.arg); ++internal; fiber_exit(); }
void prep(int i, void (*e)()) { char* top = region + i * PER + STACK; memset(top - 4096, 0, 4096); u64* s = (u64*)(top - 64); *--s = 0; *--s = (u64)e; for (int k = 0; k < 6; ++k) *--s = 0; F[i].sp = s; }
int new_fiber() { int i = 1; while (i < nf && !F[i].gone) ++i; if (i == nf) { if (nf >= MAXF) abandon("too many threads"); ++nf; } Fiber& f = F[i]; size_t b = f.bump; f = Fiber(); f.bump = b; f.tag = F[cur].tag; f.st = RUN; f.vc = F[cur].vc; f.vc.c[i] = std::max(slotclk[i], f.vc.c[i]) + 1; ++F[cur].vc.c[cur]; prep(i, entry); ++live; ++hb_live; return i; }
void reap(int i) { if (F[i].gone) return; F[i].gone = true; --hb_live; F[cur].vc.join(F[i].vc); }
}
namespace conc {
bool active() { return act; } int self() { return cur; } u64 now() { return steps; } int tag() { return F[cur].tag; } void set_tag(int t) { F[cur].tag = t; }
void point() { if (act && live > 1) { In g; sched_point(); } }
void atomic_begin() { if (act && live > 1) { In g; sched_point(); } ++internal; } void atomic_end() { --internal; }
static double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void once(bool use_arena) {
    nf = 1; live = 1; cur = 0; F[0] = Fiber(); F[0].st = RUN; F[0].vc.c[0] = 1; memset(slotclk, 0, sizeof slotclk); hb_live = 1; syncs->clear(); for (int i = 0; i < MAXF; ++i) F[i].bump = 0; prep(0, main_entry);
    dpos = 0; used = 0; steps = streak = 0; vclock = 0; failure = nullptr; ++epoch; if (!epoch) epoch = 1; std::string res; out = &res; tls_save(F[0]); char keep[64]; memcpy(keep, F[0].tls, 64);
    std::string* keepout = new std::string; out = keepout; arena = use_arena; internal = 1; act = true; conc_switch(&host_sp, F[0].sp); act = false; arena = false; internal = 0; memcpy(F[0].tls, keep, 64); tls_load(F[0]);
}
Result explore(const std::function<std::string()>& body, const Options& o) {
    Result R; double t0 = wall();
    if (!region) { region = (char*)mmap((void*)0x510000000000ull, MAXF * PER, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); shadow = (Shadow*)mmap(0, MAXF * PER * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (region == MAP_FAILED || shadow == MAP_FAILED) abort(); gshadow = new std::unordered_map<u64, Shadow>; flagged = new std::vector<u64>; syncs = new std::unordered_map<u64, VC>; }
    for (u64 a : *flagged) sh(a).flag = 0; flagged->clear(); gshadow->clear();
    __libc_single_threaded = 0;   // reference counts have to be atomic, as there are several logical threads
    body_ = &body; bound = o.bound; max_steps = o.max_steps; othreads = o.threads; free_ws = o.free_ws; delay = o.delay; diverged = false;
    auto fail = [&](const std::string& e) { R.err = e + " [schedule:"; size_t k = 0, last = 0; for (auto& d : decs) if (k++ < dpos && d.chosen) { R.err += " " + std::to_string(k - 1) + ":" + std::to_string(d.chosen); last = k; } if (!last) R.err += " default"; R.err += "]"; };
    decs.clear(); once(false); ++R.runs; if (failure || !out->empty()) { fail(failure ? failure : *out); delete out; return R; } delete out; grew = false;  // also initialises function-local statics
    decs.clear();
    while (true) {
        once(true); ++R.runs; R.steps += steps; std::string r = failure ? failure : *out; delete out;
        if (!r.empty()) { if (diverged && grew) { } fail(r); break; }
        if (grew) { grew = false; decs.clear(); ++R.restarts; if (R.restarts > 3000) { R.capped = true; break; } continue; }
        decs.resize(dpos);
        // next schedule: last decision with an untried option
        bool more = false;
        while (!decs.empty()) { Dec& d = decs.back(); u32 k = d.chosen + 1; while (k < d.cost.size() && d.cost[k] == 255) ++k; if (k < d.cost.size()) { d.chosen = k; more = true; break; } decs.pop_back(); }
        if (!more) break;
        if (R.runs >= o.max_runs || (o.seconds > 0 && (R.runs & 63) == 0 && wall() - t0 > o.seconds)) { R.capped = true; break; }
    }
    R.points = points; points = 0; R.shared = flagged->size(); return R;
}
}
// ---- memory -----------------------------------------------------------------------------------------------------
static void* arena_alloc(size_t n, size_t al) { Fiber& f = F[cur]; char* base = region + cur * PER + STACK; size_t b = (f.bump + al - 1) & ~(al - 1); if (b + n + 16 > HEAP) abandon("memory of one execution exhausted"); f.bump = b + n + 16; memset(base + b, 0xA5, n); return base + b; }
static inline bool in_region(void* p) { return (u64)p - (u64)region < MAXF * PER && region; }
static void* get(size_t n, size_t al) { if (act && arena && !internal) return arena_alloc(n, al < 16 ? 16 : al); void* p = nullptr; if (al <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, al, n)) p = nullptr; if (!p) abort(); return p; }
static void put(void* p) { if (p && !in_region(p)) free(p); }
void* operator new(size_t n) { return get(n, 16); } void* operator new[](size_t n) { return get(n, 16); } void* operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a); } void* operator new[](size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 16); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 16); }
void operator delete(void* p) noexcept { put(p); } void operator delete[](void* p) noexcept { put(p); } void operator delete(void* p, size_t n) noexcept { if (act && !internal && in_region(p) && n) access(p, n, true); if (in_region(p) && act) memset(p, 0xDD, n); put(p); } void operator delete[](void* p, size_t n) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); } void operator delete[](void* p, std::align_val_t) noexcept { put(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
// ---- instrumentation ----------------------------------------------------------------------------------------------
namespace __gnu_cxx {
int __exchange_and_add(volatile int* p, int v) throw() { bool on = act && !internal && hb_live > 1; if (on) { In g; acquire((void*)p); } int o = *p; *p = o + v; if (on) { In g; release((void*)p); } return o; }
void __atomic_add(volatile int* p, int v) throw() { __exchange_and_add(p, v); }
}
extern "C" {
void __tsan_init() { } void __tsan_func_entry(void*) { } void __tsan_func_exit() { }
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } void __tsan_read##n##_pc(void* p, void*) { access(p, n, false); } void __tsan_write##n##_pc(void* p, void*) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); } void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true); } void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_atomic_thread_fence(int) { } void __tsan_atomic_signal_fence(int) { }
struct Rmw { void* p; Rmw(volatile void* q, size_t n) : p((void*)q) { access(p, n, true); hb(); } void hb() { if (act && !internal && hb_live > 1) { In g; acquire(p); } } ~Rmw() { if (act && !internal && hb_live > 1) { In g; release(p); } } };
struct Ld { Ld(const volatile void* q, size_t n) { access((void*)q, n, false); if (act && !internal && hb_live > 1) { In g; acquire((void*)q); } } };
struct Stx { void* p; Stx(volatile void* q, size_t n) : p((void*)q) { access(p, n, true); } ~Stx() { if (act && !internal && hb_live > 1) { In g; release(p); } } };
#define FETCH(b, T, nm, e) T __tsan_atomic##b##_##nm(volatile T* p, T v, int) { Rmw g(p, sizeof(T)); T o = *p; *p = (e); return o; }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T* p, int) { Ld g(p, sizeof(T)); return *p; } void __tsan_atomic##b##_store(volatile T* p, T v, int) { Stx g(p, sizeof(T)); *p = v; } \
 FETCH(b, T, exchange, v) FETCH(b, T, fetch_add, o + v) FETCH(b, T, fetch_sub, o - v) FETCH(b, T, fetch_and, o & v) FETCH(b, T, fetch_or, o | v) FETCH(b, T, fetch_xor, o ^ v) FETCH(b, T, fetch_nand, ~(o & v)) \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { Rmw g(p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { Rmw g(p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { Rmw g(p, sizeof(T)); T o = *p; if (o == e) *p = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
// ---- threads ------------------------------------------------------------------------------------------------------
typedef int (*pc_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { if (!act) { fprintf(stderr, "pthread_create outside of an exploration\n"); abort(); } In g; int i = new_fiber(); F[i].fn = fn; F[i].arg = arg; *t = TBASE + i; sched_point(); return 0; }
int pthread_join(pthread_t t, void** r) { In g; int i = (int)t - TBASE; while (F[i].st != DONE) block(&F[i]); if (r) *r = F[i].ret; reap(i); return 0; }
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return TBASE + (act ? cur : 0); }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
static int& owner(pthread_mutex_t* m) { return *(int*)m; }
static bool vis(const void* p) { return act && hb_live > 1 && (bound < 0 || touch((u64)p, 1, true)); }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!act) { owner(m) = 1000; return 0; } In g; if (vis(m)) sched_point(); while (owner(m)) { if (owner(m) == cur + 1) abandon("deadlock: a thread locks a mutex it already holds"); block(m); } owner(m) = cur + 1; acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!act) { owner(m) = 1000; return 0; } In g; if (vis(m)) sched_point(); if (owner(m)) return EBUSY; owner(m) = cur + 1; acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!act) { owner(m) = 0; return 0; } In g; if (owner(m) != cur + 1) abandon("a mutex is unlocked by a thread that does not hold it"); vis(m); release(m); owner(m) = 0; wake(m); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof *m); return 0; } int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; } int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) { In g; vis(c); if (owner(m) != cur + 1) abandon("condition variable wait without holding the mutex"); release(m); owner(m) = 0; wake(m); block(c, timed ? TIMED : BLOCKED); bool to = F[cur].timed_out; while (owner(m)) block(m); owner(m) = cur + 1; acquire(m); return to ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return cwait(c, m, true); } int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { return cwait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { if (!act) return 0; In g; if (vis(c)) sched_point(); wake(c, 1); return 0; } int pthread_cond_broadcast(pthread_cond_t* c) { if (!act) return 0; In g; if (vis(c)) sched_point(); wake(c); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { int* s = (int*)o; if (*s == 2) { if (act) { In g; acquire(o); } return 0; } if (!act) { *s = 2; f(); return 0; } { In g; while (*s == 1) block(o); if (*s == 2) { acquire(o); return 0; } *s = 1; } f(); In g; *s = 2; release(o); wake(o); return 0; }
static void yield() { if (!act) return; In g; if (++steps > max_steps) abandon("no progress: the step limit was reached (livelock or infinite loop)"); switch_away(true, true); }
int nanosleep(const timespec* t, timespec* r) { if (!act) return syscall(SYS_nanosleep, t, r); yield(); return 0; } int clock_nanosleep(clockid_t c, int f, const timespec* t, timespec* r) { if (!act) return syscall(SYS_clock_nanosleep, c, f, t, r); yield(); return 0; } int usleep(useconds_t u) { if (!act) { timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return syscall(SYS_nanosleep, &t, nullptr); } yield(); return 0; } int sched_yield() { if (!act) return syscall(SYS_sched_yield); yield(); return 0; }
int clock_gettime(clockid_t c, timespec* t) { if (!act) return syscall(SYS_clock_gettime, c, t); vclock += 100; t->tv_sec = 1000000 + vclock / 1000000000; t->tv_nsec = vclock % 1000000000; return 0; } int gettimeofday(timeval* t, void*) { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; } time_t time(time_t* p) { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
// std::future
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, u32* a, u32 v, bool timed, long, long) { In g; if (vis(a)) sched_point(); if (*a != v) return true; block(a, timed ? TIMED : BLOCKED); return !F[cur].timed_out; }
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, u32* a, u32 v, bool timed, long, long) { In g; if (vis(a)) sched_point(); if (*a != v) return true; block(a, timed ? TIMED : BLOCKED); return !F[cur].timed_out; }
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(u32* a) { In g; if (vis(a)) sched_point(); wake(a); }
// ---- OpenMP -------------------------------------------------------------------------------------------------------
static Ws& ws_get(Team* t, int k) { while ((int)t->ws.size() <= k) t->ws.push_back(Ws{ 0, 0, 1, false, 0 }); return t->ws[k]; }
static Team solo = { 1, 0, 0, {}, 0, 0, {}, {} };
int omp_get_thread_num() { return act && F[cur].team ? F[cur].tid : 0; } int omp_get_num_threads() { return act && F[cur].team ? F[cur].team->n : 1; } int omp_get_max_threads() { return act ? othreads : 1; } void omp_set_num_threads(int) { } int omp_in_parallel() { return act && F[cur].team && F[cur].team->n > 1; } int omp_get_num_procs() { return othreads; } double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; } int omp_get_level() { return omp_in_parallel(); } void omp_set_dynamic(int) { } void omp_set_nested(int) { }
static void team_run(void (*fn)(void*), void* data, unsigned nt, bool preset, long s, long e, long inc) {
    Fiber& me = F[cur]; int mi = cur; Team* old = me.team; int otid = me.tid, ok = me.wsk, oc = me.curws; int n = act && !(old && old->n > 1) ? (nt ? (int)nt : othreads) : 1;
    Team* t; { In g; bool a = arena; arena = false; t = new Team{ n, 0, 0, {}, 0, cur, {}, {} }; if (preset) { Ws& w = ws_get(t, 0); w.next = s; w.end = e; w.incr = inc; w.init = true; } arena = a; }
    std::vector<int> ids; bool a = arena; arena = false; ids.reserve(16); arena = a;
    me.team = t; me.tid = 0; me.wsk = preset ? 1 : 0; me.curws = 0;
    { In g; for (int i = 1; i < n; ++i) { int k = new_fiber(); F[k].ofn = fn; F[k].arg = data; F[k].team = t; F[k].tid = i; F[k].wsk = preset ? 1 : 0; F[k].curws = 0; ids.push_back(k); } if (n > 1) sched_point(); }
    fn(data);
    { In g; for (int k : ids) { while (F[k].st != DONE) block(&F[k]); reap(k); } F[mi].team = old; F[mi].tid = otid; F[mi].wsk = ok; F[mi].curws = oc; a = arena; arena = false; delete t; std::vector<int>().swap(ids); arena = a; if (cur == 0 && !old) { int k = nf; while (k > 1 && F[k - 1].st == DONE && F[k - 1].ofn) --k; if (live == 1) nf = k; } }
}
// iterations are handed out one at a time: every distribution of iterations over threads is considered
static bool ws_next(long* is, long* ie) { Fiber& f = F[cur]; Team* t = f.team ? f.team : &solo; In g; if (act && live > 1 && t->n > 1) sched_point(free_ws); Ws& w = t->ws[F[cur].curws]; if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false; *is = w.next; w.next += w.incr; *ie = w.next; return true; }
static bool ws_start(long s, long e, long inc, long* is, long* ie) { Fiber& f = F[cur]; if (!f.team) { solo.ws.clear(); f.wsk = 0; } Team* t = f.team ? f.team : &solo; { In g; bool a = arena; arena = false; int k = f.team ? f.wsk++ : 0; f.curws = k; Ws& w = ws_get(t, k); if (!w.init) { w.next = s; w.end = e; w.incr = inc; w.init = true; } arena = a; } return ws_next(is, ie); }
void GOMP_barrier() { if (!act || !F[cur].team || F[cur].team->n == 1) return; In g; sched_point(); Team* t = F[cur].team; u64 gn = t->gen; t->in.join(F[cur].vc); if (++t->arrived == t->n) { t->arrived = 0; ++t->gen; t->out = t->in; wake(t); } else while (t->gen == gn) block(t); F[cur].vc.join(t->out); ++F[cur].vc.c[cur]; }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { team_run(fn, d, nt, false, 0, 0, 1); }
#define LOOP(k) bool GOMP_loop_##k##_start(long s, long e, long i, long, long* a, long* b) { return ws_start(s, e, i, a, b); } bool GOMP_loop_##k##_next(long* a, long* b) { return ws_next(a, b); } void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long, unsigned) { team_run(fn, d, nt, true, s, e, i); } bool GOMP_loop_ull_##k##_start(bool up, u64 s, u64 e, u64 i, u64, u64* a, u64* b) { (void)up; return ws_start(s, e, i, (long*)a, (long*)b); } bool GOMP_loop_ull_##k##_next(u64* a, u64* b) { return ws_next((long*)a, (long*)b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
void GOMP_loop_end() { GOMP_barrier(); } void GOMP_loop_end_nowait() { }
bool GOMP_single_start() { if (!act || !F[cur].team) return true; In g; if (F[cur].team->n > 1) sched_point(); bool a = arena; arena = false; Ws& w = ws_get(F[cur].team, F[cur].wsk++); bool first = !w.init; w.init = true; arena = a; return first; }
static pthread_mutex_t crit, atom; static std::map<void*, int>* dummy;
void GOMP_critical_start() { pthread_mutex_lock(&crit); } void GOMP_critical_end() { pthread_mutex_unlock(&crit); } void GOMP_critical_name_start(void** p) { pthread_mutex_lock((pthread_mutex_t*)p); } void GOMP_critical_name_end(void** p) { pthread_mutex_unlock((pthread_mutex_t*)p); } void GOMP_atomic_start() { pthread_mutex_lock(&atom); } void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
}
