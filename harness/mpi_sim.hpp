// Message passing between logical processes inside this process. Sends are buffered, messages between two processes with one tag arrive in order.
// Without the explorer there is one process, which can send to itself.
#pragma once
#include "mpi.h"
#include <condition_variable>
#include <cstring>
#include <deque>
#include <mutex>
#include <vector>
#ifdef VERIF_CONC
#include "conc.hpp"
#define MPI_NS __attribute__((no_sanitize_thread, noinline))
#else
#define MPI_NS
#endif
namespace mpisim {
struct Msg { int src, tag; std::vector<char> data; };
struct Coll { int joined = 0; std::vector<char> value; };
struct World { int size = 1; std::vector<std::deque<Msg> > box; std::vector<Coll> colls; std::vector<size_t> at; std::vector<int> bar; uint64_t sent = 0; };
inline World*& world() { static World* w = nullptr; return w; }
inline std::mutex& mx() { static std::mutex m; return m; } inline std::condition_variable& cv() { static std::condition_variable c; return c; }
// Call at the start of every execution.
MPI_NS inline void reset(int size) { auto* w = new World(); w->size = size; w->box.resize(size); w->at.resize(size, 0); w->bar.resize(size, 0); world() = w; }
MPI_NS inline int rank() {
#ifdef VERIF_CONC
    return conc::tag();
#else
    return 0;
#endif
}
MPI_NS inline int find(int src, int tag) { auto& b = world()->box[rank()]; for (size_t i = 0; i < b.size(); ++i) if ((src == MPI_ANY_SOURCE || b[i].src == src) && b[i].tag == tag) return i; return -1; }
MPI_NS inline void push(const void* p, size_t bytes, int tgt, int tag) { world()->box[tgt].push_back({ rank(), tag, std::vector<char>((const char*)p, (const char*)p + bytes) }); ++world()->sent; }
MPI_NS inline void take(int i, void* p, size_t cap, MPI_Status* st) {
    auto& b = world()->box[rank()]; Msg m = b[i]; b.erase(b.begin() + i); if (m.data.size() > cap) { fprintf(stderr, "message truncated\n"); abort(); } memcpy(p, m.data.data(), m.data.size());
    if (st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->count = m.data.size(); } }
// Collective operations: every process takes part in the same order; the k-th call of each belongs together.
MPI_NS inline Coll& coll() { auto* w = world(); size_t k = w->at[rank()]++; if (w->colls.size() <= k) w->colls.resize(k + 8); return w->colls[k]; }
}
extern "C" {
MPI_NS inline int MPI_Init(int*, char***) { return 0; } MPI_NS inline int MPI_Finalize() { return 0; }
MPI_NS inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = mpisim::rank(); return 0; }
MPI_NS inline int MPI_Comm_size(MPI_Comm, int* s) { *s = mpisim::world() ? mpisim::world()->size : 1; return 0; }
MPI_NS inline int MPI_Send(const void* p, int n, MPI_Datatype d, int tgt, int tag, MPI_Comm) { std::unique_lock<std::mutex> l(mpisim::mx()); mpisim::push(p, (size_t)n * d, tgt, tag); mpisim::cv().notify_all(); return 0; }
MPI_NS inline int MPI_Isend(const void* p, int n, MPI_Datatype d, int tgt, int tag, MPI_Comm c, MPI_Request* r) { *r = 0; return MPI_Send(p, n, d, tgt, tag, c); }
MPI_NS inline int MPI_Recv(void* p, int n, MPI_Datatype d, int src, int tag, MPI_Comm, MPI_Status* st) {
    std::unique_lock<std::mutex> l(mpisim::mx()); int i; while ((i = mpisim::find(src, tag)) < 0) { if (mpisim::world()->size == 1) { fprintf(stderr, "receive without message\n"); abort(); } mpisim::cv().wait(l); } mpisim::take(i, p, (size_t)n * d, st); return 0; }
MPI_NS inline int MPI_Iprobe(int src, int tag, MPI_Comm, int* flag, MPI_Status* st) {
    std::unique_lock<std::mutex> l(mpisim::mx()); int i = mpisim::find(src, tag); *flag = i >= 0; if (i >= 0 && st) { auto& m = mpisim::world()->box[mpisim::rank()][i]; st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; } return 0; }
MPI_NS inline int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype d, MPI_Op, MPI_Comm) {   // minimum of signed numbers, which is all that is used
    std::unique_lock<std::mutex> l(mpisim::mx()); auto* w = mpisim::world(); size_t bytes = (size_t)n * d; if (!w || w->size == 1) { memcpy(b, a, bytes); return 0; }
    auto& c = mpisim::coll(); size_t k = &c - &w->colls[0]; if (c.value.empty()) c.value.assign((const char*)a, (const char*)a + bytes); else if (d == 8) { long x, y; memcpy(&x, a, 8); memcpy(&y, c.value.data(), 8); if (x < y) memcpy(c.value.data(), &x, 8); } else abort();
    ++c.joined; mpisim::cv().notify_all(); while (w->colls[k].joined < w->size) mpisim::cv().wait(l); memcpy(b, w->colls[k].value.data(), bytes); return 0; }
MPI_NS inline int MPI_Bcast(void* p, int n, MPI_Datatype d, int root, MPI_Comm) {
    std::unique_lock<std::mutex> l(mpisim::mx()); auto* w = mpisim::world(); if (!w || w->size == 1) return 0; auto& c = mpisim::coll(); size_t k = &c - &w->colls[0];
    if (mpisim::rank() == root) { c.value.assign((const char*)p, (const char*)p + (size_t)n * d); c.joined = 1; mpisim::cv().notify_all(); } else { while (!w->colls[k].joined) mpisim::cv().wait(l); memcpy(p, w->colls[k].value.data(), std::min((size_t)n * d, w->colls[k].value.size())); } return 0; }
MPI_NS inline int MPI_Ibarrier(MPI_Comm, MPI_Request* r) { std::unique_lock<std::mutex> l(mpisim::mx()); auto* w = mpisim::world(); if (!w || w->size == 1) { *r = -1; return 0; } auto& c = mpisim::coll(); *r = &c - &w->colls[0]; ++c.joined; mpisim::cv().notify_all(); return 0; }
MPI_NS inline int MPI_Test(MPI_Request* r, int* f, MPI_Status*) { std::unique_lock<std::mutex> l(mpisim::mx()); auto* w = mpisim::world(); *f = *r < 0 || w->colls[*r].joined >= w->size; if (!*f) { mpisim::cv().wait_for(l, std::chrono::milliseconds(1)); *f = w->colls[*r].joined >= w->size; } return 0; }
}
