#pragma once
#include <array>
#include "cista/base.h"
namespace cista {
template <typename T, std::size_t N> using array = std::array<T, N>;
namespace raw { template <typename T, std::size_t N> using array = std::array<T, N>; }
namespace offset { template <typename T, std::size_t N> using array = std::array<T, N>; }
}
