// Stand-in for growt's concurrent hash table (extlib/growt is not available offline):
// a mutex-protected map with the same atomic insert_or_update / find contract.
#pragma once
#include <cstddef>
#include <cstdint>
#include <mutex>
#include <unordered_map>
#include <utility>
#ifdef VERIF_CONC
namespace conc { void atomic_begin(); void atomic_end(); }
#endif
namespace growt {
#ifdef VERIF_CONC
// under the controlled scheduler every table operation is one indivisible step
struct op_guard { explicit op_guard(std::mutex&) { conc::atomic_begin(); } ~op_guard() { conc::atomic_end(); } };
#else
typedef std::lock_guard<std::mutex> op_guard;
#endif
template <class Hash>
class uaGrow {
 public:
    using key_type = uint64_t; using mapped_type = size_t;
    explicit uaGrow(size_t) { }
    class Handle {
     public:
        explicit Handle(uaGrow* t) : t_(t) { }
        struct iterator {
            std::pair<key_type, mapped_type> v; bool end = true;
            std::pair<key_type, mapped_type> operator * () const { return v; }
            const std::pair<key_type, mapped_type>* operator -> () const { return &v; }
            bool operator == (const iterator& o) const { return end == o.end && (end || v.first == o.v.first); }
            bool operator != (const iterator& o) const { return !(*this == o); }
        };
        template <class F, class ... A>
        std::pair<iterator, bool> insert_or_update(key_type k, mapped_type d, F f, A... a) {
            op_guard g(t_->mx);
            auto r = t_->m.emplace(k, d);
            if (!r.second) f(r.first->second, a...);
            return { iterator{ { k, r.first->second }, false }, r.second };
        }
        std::pair<iterator, bool> insert(key_type k, mapped_type d) {
            op_guard g(t_->mx);
            auto r = t_->m.emplace(k, d);
            return { iterator{ { k, r.first->second }, false }, r.second };
        }
        iterator find(key_type k) {
            op_guard g(t_->mx);
            auto i = t_->m.find(k);
            if (i == t_->m.end()) return iterator{};
            return iterator{ { i->first, i->second }, false };
        }
        iterator end() { return iterator{}; }
     private:
        uaGrow* t_;
    };
    Handle get_handle() { return Handle(this); }
 private:
    std::mutex mx; std::unordered_map<key_type, mapped_type> m;
    friend class Handle;
};
template <class H> using uaGrowT = uaGrow<H>;
}
