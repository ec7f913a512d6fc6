#pragma once
namespace utl {
template <class... Ts>
struct overloaded : Ts... {
  using Ts::operator()...;
  void operator()(...) const {}      // what no case covers
};
template <class... Ts>
overloaded(Ts...) -> overloaded<Ts...>;
}  // namespace utl
