#pragma once
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>

#include "fmt/core.h"
#include "fmt/format.h"
#include "fmt/ostream.h"

namespace utl {
enum log_level { emrg, alrt, crit, err, warn, notice, info, debug };

struct log {
  explicit log(log_level = info) {}
  template <typename T>
  log& operator<<(T&& t) {
    if (enabled()) {
      ss_ << std::forward<T>(t);
    }
    return *this;
  }
  ~log() {
    if (enabled()) {
      static std::mutex m;
      std::lock_guard<std::mutex> const g{m};
      std::clog << ss_.str() << "\n";
    }
  }
  static bool enabled() {
    static bool const e = std::getenv("SORO_LOG") != nullptr;
    return e;
  }
  std::ostringstream ss_;
};
}  // namespace utl

#define uLOG(lvl) ::utl::log(lvl)
