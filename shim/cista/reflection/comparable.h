#pragma once
// In cista this macro generates member-wise comparisons via reflection;
// defaulted comparisons are equivalent.
#include <compare>
#include <tuple>
#include <utility>
#define CISTA_COMPARABLE()                                        \
  template <typename CistaSelfT>                                  \
  bool operator==(CistaSelfT const& cista_o) const {              \
    return ::cista::shim::eq(*this, cista_o);                     \
  }                                                               \
  template <typename CistaSelfT>                                  \
  bool operator!=(CistaSelfT const& cista_o) const {              \
    return !::cista::shim::eq(*this, cista_o);                    \
  }                                                               \
  template <typename CistaSelfT>                                  \
  bool operator<(CistaSelfT const& cista_o) const {               \
    return ::cista::shim::lt(*this, cista_o);                     \
  }
namespace cista::shim {
template <typename T, typename = void>
struct tie_of;
struct any_t { template <typename T> operator T() const; };
template <typename T, std::size_t... I>
constexpr bool ctor_n(std::index_sequence<I...>) {
  return requires { T{(static_cast<void>(I), any_t{})...}; };
}
template <typename T, std::size_t N = 12>
constexpr std::size_t arity() {
  if constexpr (N == 0) return 0;
  else if constexpr (ctor_n<T>(std::make_index_sequence<N>{})) return N;
  else return arity<T, N - 1>();
}
template <typename T>
auto tie(T const& t) {
  constexpr auto n = arity<T>();
  if constexpr (n == 1) { auto const& [m0] = t; return std::tie(m0); }
  else if constexpr (n == 2) { auto const& [m0, m1] = t; return std::tie(m0, m1); }
  else if constexpr (n == 3) { auto const& [m0, m1, m2] = t; return std::tie(m0, m1, m2); }
  else if constexpr (n == 4) { auto const& [m0, m1, m2, m3] = t; return std::tie(m0, m1, m2, m3); }
  else if constexpr (n == 5) { auto const& [m0, m1, m2, m3, m4] = t; return std::tie(m0, m1, m2, m3, m4); }
  else if constexpr (n == 6) { auto const& [m0, m1, m2, m3, m4, m5] = t; return std::tie(m0, m1, m2, m3, m4, m5); }
  else if constexpr (n == 7) { auto const& [m0, m1, m2, m3, m4, m5, m6] = t; return std::tie(m0, m1, m2, m3, m4, m5, m6); }
  else if constexpr (n == 8) { auto const& [m0, m1, m2, m3, m4, m5, m6, m7] = t; return std::tie(m0, m1, m2, m3, m4, m5, m6, m7); }
  else if constexpr (n == 9) { auto const& [m0, m1, m2, m3, m4, m5, m6, m7, m8] = t; return std::tie(m0, m1, m2, m3, m4, m5, m6, m7, m8); }
  else if constexpr (n == 10) { auto const& [m0, m1, m2, m3, m4, m5, m6, m7, m8, m9] = t; return std::tie(m0, m1, m2, m3, m4, m5, m6, m7, m8, m9); }
  else if constexpr (n == 11) { auto const& [m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10] = t; return std::tie(m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10); }
  else if constexpr (n == 12) { auto const& [m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11] = t; return std::tie(m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11); }
  else static_assert(n == 1, "arity");
}
template <typename T> bool eq(T const& a, T const& b) { return tie(a) == tie(b); }
template <typename T> bool lt(T const& a, T const& b) { return tie(a) < tie(b); }
}
