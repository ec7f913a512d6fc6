#pragma once
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include "cista/base.h"
namespace cista {
struct mmap {
  enum class protection { READ, WRITE, MODIFY };
  mmap() = default;
  explicit mmap(char const* path, protection = protection::WRITE) {
    std::ifstream f(path, std::ios::binary);
    if (!f) throw std::runtime_error(std::string{"cannot open "} + path);
    data_ = std::make_shared<std::string>(std::istreambuf_iterator<char>(f),
                                          std::istreambuf_iterator<char>());
  }
  std::size_t size() const { return data_ ? data_->size() : 0; }
  std::uint8_t const* data() const {
    return data_ ? reinterpret_cast<std::uint8_t const*>(data_->data()) : nullptr;
  }
  std::uint8_t* data() { return data_ ? reinterpret_cast<std::uint8_t*>(data_->data()) : nullptr; }
  std::uint8_t const* begin() const { return data(); }
  std::uint8_t const* end() const { return data() + size(); }
  std::shared_ptr<std::string> data_;
};
}  // namespace cista
