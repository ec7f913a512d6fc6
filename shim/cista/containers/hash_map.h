#pragma once
#include <unordered_map>
#include "cista/base.h"
namespace cista {
namespace raw { template <typename K, typename V> using hash_map = std::unordered_map<K, V, generic_hash<K>>; }
namespace offset { template <typename K, typename V> using hash_map = std::unordered_map<K, V, generic_hash<K>>; }
}  // namespace cista
