#pragma once
// the dependencies' cereal writes string views as strings
#include <string_view>
#include <type_traits>
#include "cereal/archives/json.hpp"
#include "cereal/cereal.hpp"
namespace cereal {
template <typename Archive, typename T, typename = std::enable_if_t<std::is_same_v<T, std::string_view>>>
std::string save_minimal(Archive const&, T const& s) {
  return std::string(s);
}
}  // namespace cereal
