#pragma once
#include <algorithm>
#include <numeric>
#include <utility>
namespace utl {
#define VERIF_UTL_ALGORITHM(name)                                  \
  template <typename C, typename... A>                             \
  auto name(C&& c, A&&... a) {                                     \
    using std::begin;                                              \
    using std::end;                                                \
    return std::name(begin(c), end(c), std::forward<A>(a)...);     \
  }
VERIF_UTL_ALGORITHM(all_of)
VERIF_UTL_ALGORITHM(any_of)
VERIF_UTL_ALGORITHM(none_of)
VERIF_UTL_ALGORITHM(find_if)
VERIF_UTL_ALGORITHM(count_if)
VERIF_UTL_ALGORITHM(max_element)
VERIF_UTL_ALGORITHM(min_element)
VERIF_UTL_ALGORITHM(is_sorted)
VERIF_UTL_ALGORITHM(accumulate)
#undef VERIF_UTL_ALGORITHM
template <typename C, typename T>
auto find(C&& c, T const& t) {
  using std::begin;
  using std::end;
  return std::find(begin(c), end(c), t);
}
template <typename C, typename... A>
void sort(C& c, A&&... a) {
  using std::begin;
  using std::end;
  std::sort(begin(c), end(c), std::forward<A>(a)...);
}
template <typename C, typename F>
void for_each(C&& c, F&& f) {
  for (auto&& e : c) f(std::forward<decltype(e)>(e));
}
}  // namespace utl
