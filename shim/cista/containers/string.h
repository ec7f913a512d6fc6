#pragma once
#include <string>
#include <string_view>
#include "cista/base.h"
namespace cista {
template <typename Ptr>
struct basic_string {
  std::string_view view() const { return {}; }
};
namespace raw { using string = std::string; using string_view = std::string_view; }
namespace offset { using string = std::string; using string_view = std::string_view; }
}
