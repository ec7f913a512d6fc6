#pragma once
#include <bit>
#include <cstdint>
#include <string>
#include <vector>
#include "cista/base.h"
namespace cista {
struct bitvec_blocks : std::vector<std::uint64_t> {
  using base = std::vector<std::uint64_t>;
  using base::base;
  using size_type = std::uint32_t;
  size_type size() const { return static_cast<size_type>(base::size()); }
};
struct basic_bitvec {
  using block_t = std::uint64_t;
  using size_type = std::uint32_t;
  static constexpr auto const bits_per_block = static_cast<size_type>(64U);
  basic_bitvec() = default;
  static size_type num_blocks(std::uint64_t n) {
    return static_cast<size_type>((n + bits_per_block - 1) / bits_per_block);
  }
  void resize(size_type n) {
    blocks_.resize(num_blocks(n));
    size_ = n;
    sanitize();
  }
  void set(size_type i, bool v = true) {
    if (i >= size_) std::abort();
    auto const m = block_t{1U} << (i % bits_per_block);
    auto& b = blocks_[i / bits_per_block];
    b = v ? (b | m) : (b & ~m);
  }
  void reset() { for (auto& b : blocks_) b = 0; }
  bool test(size_type i) const {
    return i < size_ &&
           ((blocks_[i / bits_per_block] >> (i % bits_per_block)) & 1U) != 0;
  }
  bool operator[](size_type i) const { return test(i); }
  std::size_t count() const {
    std::size_t n = 0;
    for (auto const b : blocks_) n += static_cast<std::size_t>(std::popcount(b));
    return n;
  }
  bool any() const {
    for (auto const b : blocks_) if (b != 0) return true;
    return false;
  }
  bool none() const { return !any(); }
  bool empty() const { return size_ == 0; }
  size_type size() const { return size_; }
  friend bool operator==(basic_bitvec const& a, basic_bitvec const& b) noexcept {
    return a.size_ == b.size_ &&
           static_cast<std::vector<std::uint64_t> const&>(a.blocks_) ==
               static_cast<std::vector<std::uint64_t> const&>(b.blocks_);
  }
  basic_bitvec& operator<<=(size_type n) {
    basic_bitvec r;
    r.resize(size_);
    for (std::uint64_t i = n; i < size_; ++i)
      if (test(static_cast<size_type>(i - n))) r.set(static_cast<size_type>(i));
    return *this = r;
  }
  basic_bitvec& operator>>=(size_type n) {
    basic_bitvec r;
    r.resize(size_);
    for (std::uint64_t i = n; i < size_; ++i)
      if (test(static_cast<size_type>(i))) r.set(static_cast<size_type>(i - n));
    return *this = r;
  }
  basic_bitvec operator<<(size_type n) const { auto c = *this; c <<= n; return c; }
  basic_bitvec operator>>(size_type n) const { auto c = *this; c >>= n; return c; }
  basic_bitvec& operator|=(basic_bitvec const& o) {
    for (size_type i = 0; i < blocks_.size() && i < o.blocks_.size(); ++i) blocks_[i] |= o.blocks_[i];
    return *this;
  }
  basic_bitvec& operator&=(basic_bitvec const& o) {
    for (size_type i = 0; i < blocks_.size() && i < o.blocks_.size(); ++i) blocks_[i] &= o.blocks_[i];
    return *this;
  }
  std::string str() const {
    std::string s(size_, '0');
    for (size_type i = 0; i < size_; ++i) if (test(i)) s[size_ - 1 - i] = '1';
    return s;
  }
  void sanitize() {
    if (size_ % bits_per_block != 0 && !blocks_.empty())
      blocks_.back() &= (block_t{1} << (size_ % bits_per_block)) - 1;
  }
  size_type size_{0U};
  bitvec_blocks blocks_{};
};
namespace raw { using bitvec = basic_bitvec; }
namespace offset { using bitvec = basic_bitvec; }
}  // namespace cista
