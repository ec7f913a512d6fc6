#pragma once
#include <string>
#include <vector>
#include "tiles/get_tile.h"
namespace tiles {
inline tile url_match_to_tile(std::vector<std::string> const& m) {
  auto const n = m.size();
  return {std::stoul(m[n - 2]), std::stoul(m[n - 1]), std::stoul(m[n - 3])};
}
}  // namespace tiles
