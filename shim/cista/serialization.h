#pragma once
#include <map>
#include <optional>
#include <stdexcept>
#include <vector>
#include "cista/base.h"
#include "cista/containers.h"
#include "cista/hash.h"
#include "cista/mmap.h"
namespace cista {
enum class mode { NONE = 0, WITH_INTEGRITY = 2, DEEP_CHECK = 4 };
template <typename Ctx, typename T>
void serialize(Ctx&, T const*, offset_t const) {}
template <typename Ctx, typename T>
void deserialize(Ctx const&, T*) {}
template <typename T, mode M = mode::NONE, typename C>
T const* deserialize(C const&) {
  throw std::runtime_error("serialization not available");
}
template <typename T>
hash_t type_hash(T const&, hash_t h, std::map<hash_t, unsigned>&) noexcept {
  return h;
}
using byte_buf = std::vector<std::uint8_t>;
}  // namespace cista
