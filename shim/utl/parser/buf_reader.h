#pragma once
#include "utl/parser/cstr.h"
namespace utl {
struct buf_reader {
  explicit buf_reader(std::string_view s) : s_{s} {}
  explicit buf_reader(std::string const& s) : s_{s} {}
  cstr s_;
};
}  // namespace utl
