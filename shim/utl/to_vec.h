#pragma once
#include <iterator>
#include <type_traits>
#include <utility>
#include <vector>
namespace utl {
template <typename C, typename F>
auto to_vec(C&& c, F&& f) {
  using T = std::decay_t<decltype(f(*std::begin(c)))>;
  std::vector<T> v;
  if constexpr (requires { std::size(c); }) {
    v.reserve(static_cast<std::size_t>(std::size(c)));
  }
  for (auto&& e : c) {
    v.emplace_back(f(std::forward<decltype(e)>(e)));
  }
  return v;
}
template <typename It, typename F>
auto to_vec(It b, It e, F&& f)
    -> std::vector<std::decay_t<decltype(f(*b))>> {
  std::vector<std::decay_t<decltype(f(*b))>> v;
  for (; b != e; ++b) {
    v.emplace_back(f(*b));
  }
  return v;
}
template <typename C>
auto to_vec(C&& c) {
  using T = std::decay_t<decltype(*std::begin(c))>;
  std::vector<T> v;
  for (auto&& e : c) {
    v.emplace_back(e);
  }
  return v;
}
}  // namespace utl
