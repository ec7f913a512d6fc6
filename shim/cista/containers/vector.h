#pragma once
#include <vector>
#include "cista/base.h"
namespace cista {
namespace raw { template <typename T> using vector = std::vector<T>; }
namespace offset { template <typename T> using vector = std::vector<T>; }
}
