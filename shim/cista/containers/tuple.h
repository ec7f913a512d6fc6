#pragma once
#include <tuple>
#include "cista/base.h"
namespace cista {
template <typename... T>
struct tuple : std::tuple<T...> {
  using std::tuple<T...>::tuple;
};
template <typename T> struct tuple_size_impl;
template <typename... T> struct tuple_size_impl<tuple<T...>> { static constexpr std::size_t value = sizeof...(T); };
template <typename... T> struct tuple_size_impl<std::tuple<T...>> { static constexpr std::size_t value = sizeof...(T); };
template <typename T> inline constexpr std::size_t tuple_size_v = tuple_size_impl<T>::value;
template <std::size_t I, typename... T> auto elem_impl(std::tuple<T...> const*) -> std::tuple_element_t<I, std::tuple<T...>>;
template <std::size_t I, typename T> using tuple_element_t = decltype(elem_impl<I>(static_cast<T const*>(nullptr)));
}
