#pragma once
#include <iterator>
#include <tuple>
#include <utility>
namespace utl {
template <typename C>
struct pairwise_range {
  using it_t = decltype(std::begin(std::declval<C&>()));
  struct iterator {
    using iterator_category = std::input_iterator_tag;
    using value_type = std::tuple<decltype(*std::declval<it_t&>()),
                                  decltype(*std::declval<it_t&>())>;
    using difference_type = std::ptrdiff_t;
    using pointer = value_type*;
    using reference = value_type;
    bool operator!=(iterator const& o) const { return second_ != o.second_; }
    bool operator==(iterator const& o) const { return second_ == o.second_; }
    iterator& operator++() {
      ++first_;
      ++second_;
      return *this;
    }
    iterator operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    value_type operator*() const { return value_type{*first_, *second_}; }
    it_t first_, second_;
  };
  auto begin() const {
    auto& c = const_cast<std::remove_reference_t<C>&>(c_);
    if (std::begin(c) == std::end(c)) {
      return iterator{std::begin(c), std::begin(c)};
    }
    return iterator{std::begin(c), std::next(std::begin(c))};
  }
  auto end() const {
    auto& c = const_cast<std::remove_reference_t<C>&>(c_);
    return iterator{std::begin(c), std::end(c)};
  }
  C c_;
};
template <typename C>
auto pairwise(C&& c) {
  return pairwise_range<C>{std::forward<C>(c)};
}
}  // namespace utl
