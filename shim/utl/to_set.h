#pragma once
#include <iterator>
#include <set>
#include <type_traits>
namespace utl {
template <typename C, typename F>
auto to_set(C&& c, F&& f) {
  std::set<std::decay_t<decltype(f(*std::begin(c)))>> s;
  for (auto&& e : c) {
    s.emplace(f(e));
  }
  return s;
}
template <typename C>
auto to_set(C&& c) {
  std::set<std::decay_t<decltype(*std::begin(c))>> s;
  for (auto&& e : c) {
    s.emplace(e);
  }
  return s;
}
}  // namespace utl
