#pragma once
#include <utility>
namespace utl {
template <typename M, typename K, typename F>
auto get_or_create(M& m, K const& k, F&& f) -> typename M::mapped_type& {
  auto const it = m.find(k);
  if (it != m.end()) {
    return it->second;
  }
  return m[k] = f();
}
}  // namespace utl
