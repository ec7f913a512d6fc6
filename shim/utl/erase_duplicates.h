#pragma once
#include <algorithm>
#include <functional>
namespace utl {
template <typename C>
void erase_duplicates(C& c) {
  std::sort(std::begin(c), std::end(c));
  c.erase(std::unique(std::begin(c), std::end(c)), std::end(c));
}
template <typename C, typename Less>
void erase_duplicates(C& c, Less&& less) {
  std::sort(std::begin(c), std::end(c), less);
  c.erase(std::unique(std::begin(c), std::end(c)), std::end(c));
}
template <typename C, typename Less, typename Eq>
void erase_duplicates(C& c, Less&& less, Eq&& eq) {
  std::sort(std::begin(c), std::end(c), less);
  c.erase(std::unique(std::begin(c), std::end(c), eq), std::end(c));
}
}  // namespace utl
