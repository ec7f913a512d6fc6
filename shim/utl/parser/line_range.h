#pragma once
#include "utl/parser/buf_reader.h"
#include "utl/pipes/pipes_impl.h"
namespace utl {
struct line_range {
  explicit line_range(buf_reader r) : r_{r} {}
  template <typename F>
  void run(F&& f) const {
    auto s = r_.s_.view();
    while (!s.empty()) {
      auto const nl = s.find('\n');
      auto line = s.substr(0, nl);
      s = nl == std::string_view::npos ? std::string_view{} : s.substr(nl + 1);
      if (!line.empty() && line.back() == '\r') {
        line.remove_suffix(1);
      }
      if (!f(cstr{line})) return;
    }
  }
  buf_reader r_;
};
}  // namespace utl
