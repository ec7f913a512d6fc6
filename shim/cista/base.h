#pragma once
// Stand-in for felixguendling/cista (not installable offline); only the parts
// soro uses with STD containers, no serialization.
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

namespace cista {
using hash_t = std::uint64_t;
using offset_t = std::intptr_t;

template <typename T>
inline constexpr bool is_pointer_v = std::is_pointer_v<std::remove_cv_t<T>>;
template <typename T>
using remove_pointer_t = std::remove_pointer_t<T>;

constexpr hash_t BASE_HASH = 14695981039346656037ULL;

template <typename... Args>
constexpr hash_t hash_combine(hash_t h, Args... val) {
  auto fnv = [&](hash_t v) {
    h = (h ^ v) * 1099511628211ULL;
    h ^= h >> 29;
  };
  ((fnv(static_cast<hash_t>(val))), ...);
  return h;
}
constexpr hash_t hash(std::string_view s, hash_t h = BASE_HASH) {
  for (auto const c : s) {
    h = hash_combine(h, static_cast<unsigned char>(c));
  }
  return h;
}

template <typename T, typename = void>
struct generic_hash {
  std::size_t operator()(T const& t) const {
    if constexpr (std::is_pointer_v<T>) {
      return static_cast<std::size_t>(
          hash_combine(BASE_HASH, reinterpret_cast<std::uintptr_t>(t)));
    } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
      return static_cast<std::size_t>(
          hash_combine(BASE_HASH, static_cast<std::uint64_t>(t)));
    } else if constexpr (std::is_convertible_v<T, std::string_view>) {
      return static_cast<std::size_t>(cista::hash(std::string_view{t}));
    } else if constexpr (requires { std::tuple_size<T>::value; }) {
      return std::apply(
          [](auto const&... e) {
            return static_cast<std::size_t>(hash_combine(
                BASE_HASH,
                generic_hash<std::remove_cvref_t<decltype(e)>>{}(e)...));
          },
          t);
    } else if constexpr (requires { t.hash(); }) {
      return static_cast<std::size_t>(t.hash());
    } else {
      return std::hash<T>{}(t);
    }
  }
};
}  // namespace cista
