#pragma once
#include <bitset>
#include <compare>
#include <string>
#include <string_view>
#include "cista/base.h"
namespace cista {
template <std::size_t N>
struct bitset {
  bitset() = default;
  bitset(std::string_view s) : b_{std::string{s}} {}  // NOLINT
  static bitset max() { bitset r; r.b_.set(); return r; }
  bitset& set(std::size_t i, bool v = true) {
    if (i < N) b_[i] = v; else std::abort();
    return *this;
  }
  bitset& set() { b_.set(); return *this; }
  void reset() { b_.reset(); }
  void reset(std::size_t i) { set(i, false); }
  bool operator[](std::size_t i) const { return test(i); }
  bool test(std::size_t i) const { return i < N && b_[i]; }
  std::size_t count() const { return b_.count(); }
  static constexpr std::size_t size() { return N; }
  bool any() const { return b_.any(); }
  bool none() const { return b_.none(); }
  bitset& operator|=(bitset const& o) { b_ |= o.b_; return *this; }
  bitset& operator&=(bitset const& o) { b_ &= o.b_; return *this; }
  bitset& operator^=(bitset const& o) { b_ ^= o.b_; return *this; }
  bitset& operator<<=(std::size_t n) { b_ <<= n; return *this; }
  bitset& operator>>=(std::size_t n) { b_ >>= n; return *this; }
  bitset operator<<(std::size_t n) const { auto c = *this; c <<= n; return c; }
  bitset operator>>(std::size_t n) const { auto c = *this; c >>= n; return c; }
  friend bitset operator|(bitset a, bitset const& b) { a |= b; return a; }
  friend bitset operator&(bitset a, bitset const& b) { a &= b; return a; }
  friend bitset operator^(bitset a, bitset const& b) { a ^= b; return a; }
  bitset operator~() const { auto c = *this; c.b_.flip(); return c; }
  bool operator==(bitset const& o) const noexcept { return b_ == o.b_; }
  std::string str() const { return b_.to_string(); }
  std::bitset<N> b_{};
};
}  // namespace cista
