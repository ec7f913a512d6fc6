#pragma once
// Stand-in for motis-project/utl (not installable offline).
#include <filesystem>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>

#include "fmt/core.h"
#include "fmt/format.h"
#include "fmt/ostream.h"

namespace utl {
namespace detail {
template <typename T>
concept ostreamable = requires(std::ostream& os, T const& t) { os << t; };

template <typename T>
std::string to_str(T const& t) {
  if constexpr (ostreamable<T>) {
    std::ostringstream ss;
    ss << t;
    return ss.str();
  } else if constexpr (fmt::is_formattable<T>::value) {
    return fmt::format("{}", t);
  } else {
    return "?";
  }
}

inline void format_rec(std::string& out, std::string_view f) { out += f; }

template <typename A, typename... As>
void format_rec(std::string& out, std::string_view f, A const& a,
                As const&... as) {
  auto const b = f.find('{');
  if (b == std::string_view::npos) {
    out += f;
    return;
  }
  auto const e = f.find('}', b);
  out += f.substr(0, b);
  out += to_str(a);
  if (e != std::string_view::npos) {
    format_rec(out, f.substr(e + 1), as...);
  }
}

template <typename... As>
std::string format(std::string_view f, As const&... as) {
  std::string out;
  format_rec(out, f, as...);
  return out;
}
}  // namespace detail

template <typename Msg, typename... Args>
std::runtime_error fail(Msg const& msg, Args&&... args) {
  return std::runtime_error(detail::format(msg, args...));
}

template <typename Msg, typename... Args>
void verify(bool const b, Msg const& msg, Args&&... args) {
  if (!b) [[unlikely]] {
    throw fail(msg, args...);
  }
}

template <typename Pred, typename Msg, typename... Args>
void verify_silent(Pred const b, Msg const& msg, Args&&... args) {
  verify(static_cast<bool>(b), msg, args...);
}

template <typename Ex, typename Msg, typename... Args>
void verify_ex(bool const b, Ex&& ex, Msg const&, Args&&...) {
  if (!b) throw ex;
}
}  // namespace utl
