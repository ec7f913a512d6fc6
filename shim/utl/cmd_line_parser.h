#pragma once
// Stand-in for motis-project/utl's command line flags: flags of the form
// "--name value" or "--name=value", and the values themselves.
#include <algorithm>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

#define UTL_LONG(x) \
  utl::flag_name { x }
#define UTL_SHORT(x) 0
#define UTL_DESC(x) 0
namespace utl {
enum required_t { required };
template <std::size_t N>
struct flag_name {
  constexpr flag_name(char const (&s)[N]) { std::copy_n(s, N, name_); }
  char name_[N]{};
};

template <auto V>
struct flag_param {
  static constexpr bool required_ = false;
  static std::string name() { return ""; }
};
template <>
struct flag_param<required> {
  static constexpr bool required_ = true;
  static std::string name() { return ""; }
};
template <std::size_t N, flag_name<N> V>
struct flag_param<V> {
  static constexpr bool required_ = false;
  static std::string name() { return V.name_; }
};

template <typename T, auto... Params>
struct cmd_line_flag {
  cmd_line_flag() = default;
  cmd_line_flag(T v) : val_(std::move(v)) {}
  template <typename V>
    requires std::is_constructible_v<T, V>
  cmd_line_flag(V&& v) : val_(std::forward<V>(v)) {}
  T const& val() const { return val_; }
  T& val() { return val_; }
  static std::string name() { return (std::string() + ... + flag_param<Params>::name()); }
  static constexpr bool is_required() { return (false || ... || flag_param<Params>::required_); }
  T val_{};
};

// structures of two flags of strings
template <typename C>
C parse(int argc, char const** argv) {
  C c{};
  auto& [a, b] = c;
  bool has_a = false, has_b = false;
  auto const take = [](auto& flag, bool& has, std::string const& n, std::string const& v) {
    if (flag.name() != n) return false;
    if (has) throw std::runtime_error("flag given twice");
    flag.val_ = v;
    return has = true;
  };
  for (int i = 1; i < argc; ++i) {
    std::string n = argv[i], v;
    if (auto const e = n.find('='); e != std::string::npos) {
      v = n.substr(e + 1);
      n = n.substr(0, e);
    } else {
      if (++i == argc) throw std::runtime_error("flag without a value");
      v = argv[i];
    }
    if (!take(a, has_a, n, v) && !take(b, has_b, n, v)) throw std::runtime_error("no such flag");
  }
  if ((a.is_required() && !has_a) || (b.is_required() && !has_b)) throw std::runtime_error("flag missing");
  return c;
}
template <typename C>
std::string description() {
  return "";
}
}  // namespace utl
