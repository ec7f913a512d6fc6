#pragma once
#include <iterator>
namespace utl {
template <typename Dst, typename... Src>
Dst& concat(Dst& dst, Src const&... src) {
  (dst.insert(std::end(dst), std::begin(src), std::end(src)), ...);
  return dst;
}
}  // namespace utl
