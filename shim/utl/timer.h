#pragma once
#include <chrono>
#include <string>
#include "utl/logging.h"
namespace utl {
struct scoped_timer {
  explicit scoped_timer(std::string name) : name_{std::move(name)} {}
  ~scoped_timer() = default;
  template <typename... T>
  void print(T&&...) const {}
  std::string name_;
};
using manual_timer = scoped_timer;
}  // namespace utl
#define MOTIS_START_TIMING(_X)
#define MOTIS_STOP_TIMING(_X)
#define MOTIS_TIMING_MS(_X) 0
