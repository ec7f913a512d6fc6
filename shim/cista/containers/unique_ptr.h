#pragma once
#include <memory>
#include "cista/base.h"
namespace cista {
namespace raw { template <typename T> using unique_ptr = std::unique_ptr<T>; using std::make_unique; }
namespace offset { template <typename T> using unique_ptr = std::unique_ptr<T>; using std::make_unique; }
}
