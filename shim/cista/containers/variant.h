#pragma once
#include <utility>
#include <variant>
#include "cista/base.h"
namespace cista {
template <typename... Ts>
struct variant {
  using base_t = std::variant<Ts...>;
  using index_t = std::uint8_t;
  static constexpr auto NO_VALUE = static_cast<index_t>(-1);
  variant() = default;
  template <typename Arg>
    requires(std::disjunction_v<std::is_same<std::remove_cvref_t<Arg>, Ts>...>)
  variant(Arg&& a)  // NOLINT
      : v_{std::in_place_type<std::remove_cvref_t<Arg>>, std::forward<Arg>(a)} {}
  template <typename Arg>
    requires(std::disjunction_v<std::is_same<std::remove_cvref_t<Arg>, Ts>...>)
  variant& operator=(Arg&& a) {
    v_.template emplace<std::remove_cvref_t<Arg>>(std::forward<Arg>(a));
    return *this;
  }
  template <typename T, typename... A>
  T& emplace(A&&... a) {
    return v_.template emplace<T>(std::forward<A>(a)...);
  }
  template <typename T>
  T& as() {
    return *std::get_if<T>(&v_);
  }
  template <typename T>
  T const& as() const {
    return *std::get_if<T>(&v_);
  }
  template <typename F>
  auto apply(F&& f) {
    return std::visit(std::forward<F>(f), v_);
  }
  template <typename F>
  auto apply(F&& f) const {
    return std::visit(std::forward<F>(f), v_);
  }
  index_t index() const { return static_cast<index_t>(v_.index()); }
  bool valid() const { return !v_.valueless_by_exception(); }
  bool operator==(variant const& o) const { return v_ == o.v_; }
  base_t v_;
};
template <typename T, typename... Ts>
bool holds_alternative(variant<Ts...> const& v) {
  return std::holds_alternative<T>(v.v_);
}
template <typename T, typename... Ts>
T const& get(variant<Ts...> const& v) { return std::get<T>(v.v_); }
template <typename T, typename... Ts>
T& get(variant<Ts...>& v) { return std::get<T>(v.v_); }
namespace raw { using cista::variant; }
namespace offset { using cista::variant; }
}  // namespace cista
namespace std {
template <typename T, typename... Ts>
T const& get(::cista::variant<Ts...> const& v) { return std::get<T>(v.v_); }
template <typename T, typename... Ts>
T& get(::cista::variant<Ts...>& v) { return std::get<T>(v.v_); }
}
