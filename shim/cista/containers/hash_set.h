#pragma once
#include <unordered_set>
#include "cista/base.h"
namespace cista {
template <typename T, typename H = generic_hash<T>, typename E = std::equal_to<T>>
struct basic_hash_set : std::unordered_set<T, H, E> {
  using std::unordered_set<T, H, E>::unordered_set;
};
namespace raw { template <typename T, typename H = generic_hash<T>, typename E = std::equal_to<T>> using hash_set = basic_hash_set<T, H, E>; }
namespace offset { template <typename T, typename H = generic_hash<T>, typename E = std::equal_to<T>> using hash_set = basic_hash_set<T, H, E>; }
}  // namespace cista
