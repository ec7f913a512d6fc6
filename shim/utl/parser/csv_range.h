#pragma once
#include <algorithm>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>
#include "utl/parser/line_range.h"
namespace utl {
template <std::size_t N>
struct fixed_name {
  constexpr fixed_name(char const (&s)[N]) { std::copy_n(s, N, v_); }
  char v_[N];
};
#define UTL_NAME(x) ::utl::fixed_name{x}

template <typename T, fixed_name Name>
struct csv_col {
  static constexpr auto name() { return std::string_view{Name.v_}; }
  T const& val() const { return v_; }
  T const& operator*() const { return v_; }
  T const* operator->() const { return &v_; }
  T v_{};
};

namespace detail {
struct any_conv {
  template <typename T>
  operator T() const;
};
template <typename T, std::size_t... I>
constexpr bool constructible_n(std::index_sequence<I...>) {
  return requires { T{(static_cast<void>(I), any_conv{})...}; };
}
template <typename T, std::size_t N = 12>
constexpr std::size_t arity() {
  if constexpr (constructible_n<T>(std::make_index_sequence<N>{})) {
    return N;
  } else {
    return arity<T, N - 1>();
  }
}
template <typename T, typename F>
void each_field(T& t, F&& f) {
  constexpr auto n = arity<T>();
  if constexpr (n == 1) { auto& [a] = t; f(a); }
  else if constexpr (n == 2) { auto& [a, b] = t; f(a); f(b); }
  else if constexpr (n == 3) { auto& [a, b, c] = t; f(a); f(b); f(c); }
  else if constexpr (n == 4) { auto& [a, b, c, d] = t; f(a); f(b); f(c); f(d); }
  else if constexpr (n == 5) { auto& [a, b, c, d, e] = t; f(a); f(b); f(c); f(d); f(e); }
  else if constexpr (n == 6) { auto& [a, b, c, d, e, g] = t; f(a); f(b); f(c); f(d); f(e); f(g); }
  else static_assert(n == 1, "csv row with too many columns");
}
inline std::vector<std::string_view> split_csv(std::string_view l) {
  std::vector<std::string_view> r;
  for (;;) {
    if (!l.empty() && l.front() == '"') {
      auto const q = l.find('"', 1);
      if (q == std::string_view::npos) { r.push_back(l.substr(1)); return r; }
      r.push_back(l.substr(1, q - 1));
      l = l.substr(q + 1);
      if (l.empty()) return r;
      l = l.substr(1);
    } else {
      auto const p = l.find(',');
      r.push_back(l.substr(0, p));
      if (p == std::string_view::npos) return r;
      l = l.substr(p + 1);
    }
  }
}
}  // namespace detail

template <typename Row>
struct csv_t {};

template <typename Src, typename Row>
struct csv_src {
  template <typename F>
  void run(F&& f) const {
    std::optional<std::vector<std::string>> header;
    src_.run([&](cstr line) {
      auto const cells = detail::split_csv(line.view());
      if (!header) {
        header.emplace();
        for (auto const c : cells) header->emplace_back(c);
        if (!(*header)[0].empty() && (*header)[0].starts_with("\xEF\xBB\xBF")) {
          (*header)[0] = (*header)[0].substr(3);
        }
        return true;
      }
      Row r{};
      detail::each_field(r, [&](auto& col) {
        for (std::size_t i = 0; i < header->size() && i < cells.size(); ++i) {
          if ((*header)[i] == col.name()) {
            col.v_ = cstr{cells[i]};
          }
        }
      });
      return f(r);
    });
  }
  Src src_;
};
template <typename Row>
csv_t<Row> csv() {
  return {};
}
template <typename Src, typename Row>
auto operator|(Src&& s, csv_t<Row>) {
  return csv_src<std::remove_cvref_t<Src>, Row>{std::forward<Src>(s)};
}
}  // namespace utl
