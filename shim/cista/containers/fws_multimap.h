#pragma once
#include <vector>
#include "cista/base.h"
namespace cista {
template <typename V, typename I>
struct fws_multimap_ {
  std::vector<std::vector<V>> data_;
};
namespace raw { template <typename V, typename I = std::uint32_t> using fws_multimap = fws_multimap_<V, I>; }
namespace offset { template <typename V, typename I = std::uint32_t> using fws_multimap = fws_multimap_<V, I>; }
}
