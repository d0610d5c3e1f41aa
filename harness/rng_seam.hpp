// Force-included before everything else (-include rng_seam.hpp).
// Every random decision of the library becomes a choice point owned by the explorer.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <string>
#include <variant>
#include <vector>
#include <omp.h>
#ifdef VERIF_CONC
#define VRNG_NS __attribute__((no_sanitize_thread, noinline))
#else
#define VRNG_NS
#endif
namespace vrng {
// Source of decisions. By default: a deterministic stream of the case's seed.
struct Source {
    bool exploring = false;              // DFS over choices
    uint64_t state = 0x9E3779B97F4A7C15ull;
    std::vector<uint32_t> prefix;        // choices to replay
    std::vector<uint32_t> taken, arity;  // what this run did
    uint64_t picks = 0;                  // decisions taken so far
    bool lenient = false;                // draws may come in another order when the schedule of the threads changes
    uint32_t calls = 0;                  // raw draws of this run
    size_t pos = 0, max_points = 64;     // points beyond max_points take choice 0
    VRNG_NS uint64_t next() { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state * 0x2545F4914F6CDD1Dull; }
    void seed(uint64_t s) { state = s * 0x9E3779B97F4A7C15ull + 0x1234567ull; if (!state) state = 1; next(); next(); }
    VRNG_NS uint64_t pick(uint64_t n) {          // a value in [0,n)
        if (n <= 1) return 0;
        ++picks;
        if (exploring && n > 0xfffffff0u) return next() % n;   // drawn as an id: no choice, and no collision
        if (!exploring) return (next() >> 11) % n;
        if (pos >= max_points) { ++pos; return (next() >> 11) % n; }
        if (n > 0xffff) n = 0xffff;
        uint32_t c = 0;
        if (pos < prefix.size()) { c = prefix[pos]; if (c >= n && lenient) c %= n; if (c >= n) { fprintf(stderr, "vrng: replay diverged\n"); abort(); } }
        taken.push_back(c); arity.push_back((uint32_t)n); ++pos;
        return c;
    }
};
VRNG_NS inline Source& src() { static Source s; return s; }
// Which spread values a raw engine draw may take while exploring.
VRNG_NS inline uint32_t raw() {
    if (!src().exploring) return (uint32_t)(src().next() >> 32);
    // distinct values (they also serve as ids) that equal the choice modulo every number up to 8
    static const uint32_t K = 8; uint64_t c = src().pick(K);
    return (uint32_t)(c * 504000001ull + (++src().calls % 99999) * 5040ull);
}
}
namespace std {
struct verif_mt19937 {
    typedef uint_fast32_t result_type;
    static constexpr size_t default_seed = 5489u;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    verif_mt19937() { }
    template <class T> explicit verif_mt19937(const T&) { }
    template <class T> void seed(const T&) { }
    void seed() { }
    result_type operator () () { return vrng::raw(); }
    void discard(unsigned long long) { }
};
template <class T = int>
struct verif_uid {
    typedef T result_type; T a_, b_;
    struct param_type { T a, b; param_type(T x = 0, T y = 0) : a(x), b(y) { } };
    explicit verif_uid(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) { }
    template <class G> T operator () (G&) {
        uint64_t span = (uint64_t)b_ - (uint64_t)a_ + 1;
        return (T)((uint64_t)a_ + (span ? vrng::src().pick(span) : vrng::src().next()));
    }
    template <class G> T operator () (G& g, const param_type& p) { verif_uid u(p.a, p.b); return u(g); }
    T a() const { return a_; } T b() const { return b_; } T min() const { return a_; } T max() const { return b_; }
    void reset() { }
};
}
#define mt19937 verif_mt19937
#define uniform_int_distribution verif_uid
namespace vrng {
// Stateless DFS over every choice sequence of fn() with at most max_dev non-default choices,
// at most max_points branching points per run. fn must be a deterministic function of the choices.
// Returns number of executions; stops early when fn returns false.
template <class F>
size_t explore(F fn, size_t max_dev, size_t max_points, size_t max_runs, bool* capped = nullptr) {
    Source& s = src(); size_t runs = 0;
    std::vector<std::vector<uint32_t> > stack{ {} };
    while (!stack.empty()) {
        if (runs >= max_runs) { if (capped) *capped = true; break; }
        auto pre = stack.back(); stack.pop_back();
        s.exploring = true; s.prefix = pre; s.taken.clear(); s.arity.clear(); s.pos = 0; s.calls = 0; s.max_points = max_points; s.seed(0);
        bool ok = fn();
        s.exploring = false; ++runs;
        if (!ok) return runs;
        size_t dev = 0; for (auto c : pre) dev += c != 0;
        auto tk = s.taken; auto ar = s.arity;
        if (dev < max_dev)
            for (size_t i = pre.size(); i < tk.size(); ++i)
                for (uint32_t c = 1; c < ar[i]; ++c) {
                    std::vector<uint32_t> np(tk.begin(), tk.begin() + i); np.push_back(c); stack.push_back(np);
                }
    }
    return runs;
}
}
