// Minimal stand-in for tlx's logger (extlib/tlx is not available offline).
// Silent unless verif_log_on is set (VERIF_LOG=1).
#pragma once
#include <cstdlib>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace verif_log {
inline bool on() { static bool v = std::getenv("VERIF_LOG") != nullptr; return v; }
template <class A, class B> void put(std::ostream& o, const std::pair<A, B>& p);
template <class T, class A> void put(std::ostream& o, const std::vector<T, A>& v);
template <class T> void put(std::ostream& o, const std::set<T>& v);
template <class T> void put(std::ostream& o, const T& t) { o << t; }
template <class A, class B> void put(std::ostream& o, const std::pair<A, B>& p) {
    o << '('; put(o, p.first); o << ','; put(o, p.second); o << ')';
}
template <class T, class A> void put(std::ostream& o, const std::vector<T, A>& v) {
    o << '['; for (size_t i = 0; i < v.size(); ++i) { if (i) o << ','; T t = v[i]; put(o, t); } o << ']';
}
template <class T> void put(std::ostream& o, const std::set<T>& v) {
    o << '{'; for (auto& x : v) { put(o, x); o << ' '; } o << '}';
}
struct L {
    std::ostringstream s; bool sp;
    explicit L(bool spaced = false) : sp(spaced) { }
    template <class T> L& operator << (const T& t) { put(s, t); if (sp) s << ' '; return *this; }
    ~L() { std::cerr << s.str() << std::endl; }
};
}
#define VERIF_LOGC(c, sp) !((c) && verif_log::on()) ? (void)0 : verif_log_void() & verif_log::L(sp)
struct verif_log_void { void operator & (const verif_log::L&) const { } };
#define LOGC(c) VERIF_LOGC(c, false)
#define sLOGC(c) VERIF_LOGC(c, true)
#define LOG LOGC(debug)
#define LOG0 LOGC(false)
#define LOG1 LOGC(true)
#define sLOG sLOGC(debug)
#define sLOG0 sLOGC(false)
#define sLOG1 sLOGC(true)
