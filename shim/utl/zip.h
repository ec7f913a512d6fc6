#pragma once
#include <iterator>
#include <tuple>
#include <utility>
#include "utl/verify.h"
namespace utl {
template <typename... Cs>
struct zip_range {
  template <typename... Its>
  struct iterator {
    bool operator!=(iterator const& o) const {
      return std::get<0>(its_) != std::get<0>(o.its_);
    }
    bool operator==(iterator const& o) const {
      return std::get<0>(its_) == std::get<0>(o.its_);
    }
    iterator& operator++() {
      std::apply([](auto&... it) { (++it, ...); }, its_);
      return *this;
    }
    auto operator*() const {
      return std::apply(
          [](auto const&... it) { return std::tuple<decltype(*it)...>{*it...}; },
          its_);
    }
    std::tuple<Its...> its_;
  };
  template <typename... Its>
  static auto make(Its... its) {
    return iterator<Its...>{std::tuple<Its...>{its...}};
  }
  auto begin() {
    return std::apply([](auto&... c) { return make(std::begin(c)...); }, cs_);
  }
  auto end() {
    return std::apply([](auto&... c) { return make(std::end(c)...); }, cs_);
  }
  std::tuple<Cs...> cs_;
};
template <typename C0, typename... Cs>
auto zip(C0&& c0, Cs&&... cs) {
  auto const n = std::size(c0);
  verify(((std::size(cs) == n) && ... && true), "zip container size mismatch");
  return zip_range<C0, Cs...>{
      std::tuple<C0, Cs...>{std::forward<C0>(c0), std::forward<Cs>(cs)...}};
}
}  // namespace utl
