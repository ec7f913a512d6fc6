#pragma once
// Stand-in for motis-project/tiles: no tiles are made offline.
#include <cstddef>
#include <optional>
#include <string>
namespace lmdb {
struct env {};
}  // namespace lmdb
namespace tiles {
constexpr std::size_t kDefaultSize = 0;
struct tile_db_handle {
  explicit tile_db_handle(lmdb::env&) {}
};
struct render_ctx {};
struct pack_handle {
  explicit pack_handle(char const*) {}
};
inline lmdb::env make_tile_database(char const*, std::size_t) { return {}; }
inline render_ctx make_render_ctx(tile_db_handle&) { return {}; }
struct tile {
  unsigned long x_, y_, z_;
};
struct perf_counter {};
// a tile of level 0 is empty
inline std::optional<std::string> get_tile(tile_db_handle&, pack_handle&, render_ctx&, tile const& t, perf_counter&) {
  if (t.z_ == 0) return std::nullopt;
  return std::to_string(t.z_) + "/" + std::to_string(t.x_) + "/" + std::to_string(t.y_);
}
}  // namespace tiles
