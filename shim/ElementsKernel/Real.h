#pragma once
#include <cmath>
#include <limits>
#include <algorithm>
#include <cstdint>
#include <cstring>
namespace Elements {
constexpr std::size_t FLT_DEFAULT_MAX_ULPS{4};
constexpr std::size_t DBL_DEFAULT_MAX_ULPS{10};
namespace detail {
inline std::uint64_t biased(double v) { std::uint64_t u; std::memcpy(&u, &v, 8); const std::uint64_t s = 1ull << 63; return (u & s) ? ~u + 1 : s | u; }
inline std::uint64_t biased(float v) { std::uint32_t u; std::memcpy(&u, &v, 4); const std::uint32_t s = 1u << 31; return (u & s) ? std::uint32_t(~u + 1) : s | u; }
}
template <typename T> bool isEqual(T a, T b, std::size_t ulps = sizeof(T) == 4 ? FLT_DEFAULT_MAX_ULPS : DBL_DEFAULT_MAX_ULPS) {
  if (std::isnan(a) || std::isnan(b)) return false;
  auto x = detail::biased(a), y = detail::biased(b); return (x > y ? x - y : y - x) <= ulps;
}
template <typename T> bool isNotEqual(T a, T b) { return !isEqual(a, b); }
}
