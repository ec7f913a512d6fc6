#pragma once
// Force-included: std headers that the real utl/cista headers pull in
// transitively, and fmt-9 compatibility (soro targets an older fmt).
#define FMT_DEPRECATED_OSTREAM
#define FMT_CONSTEVAL
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include "fmt/core.h"
#include "fmt/format.h"
#include "fmt/ostream.h"
template <>
struct fmt::formatter<std::errc> : fmt::formatter<int> {
  template <typename C>
  auto format(std::errc e, C& ctx) const {
    return fmt::formatter<int>::format(static_cast<int>(e), ctx);
  }
};
