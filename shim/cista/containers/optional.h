#pragma once
#include <optional>
#include "cista/base.h"
namespace cista {
template <typename T> using optional = std::optional<T>;
}
