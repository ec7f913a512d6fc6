#pragma once
#include "cista/base.h"
namespace cista {
namespace raw { template <typename T> using ptr = T*; }
namespace offset { template <typename T> using ptr = T*; }
}
