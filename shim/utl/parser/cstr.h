#pragma once
#include <cstring>
#include <string>
#include <string_view>
namespace utl {
struct cstr {
  cstr() = default;
  cstr(std::string_view s) : str{s.data()}, len{s.size()} {}
  cstr(char const* s) : str{s}, len{std::strlen(s)} {}
  cstr(char const* s, std::size_t l) : str{s}, len{l} {}
  std::string to_str() const { return std::string(str, len); }
  std::string_view view() const { return {str, len}; }
  char const* begin() const { return str; }
  char const* end() const { return str + len; }
  bool empty() const { return len == 0; }
  std::size_t length() const { return len; }
  explicit operator bool() const { return len != 0; }
  char const* str{nullptr};
  std::size_t len{0};
};
}  // namespace utl
