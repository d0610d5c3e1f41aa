#pragma once
namespace tlx {
template <typename A, typename B>
static inline constexpr auto div_ceil(const A& n, const B& k) -> decltype(n + k) { return (n + k - 1) / k; }
}
