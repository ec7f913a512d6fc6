#pragma once
// Real threads, number of workers from VERIF_THREADS (default: hardware).
#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <exception>
#include <functional>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace utl {
using progress_update_fn = std::function<void(std::size_t const)>;
struct noop_progress_update {
  void operator()(std::size_t const) {}
};
enum class parallel_error_strategy { QUIT_EXEC, CONTINUE_EXEC };
using errors = std::vector<std::pair<std::size_t, std::exception_ptr>>;

template <typename Fn, typename P = noop_progress_update>
errors parallel_for_run(
    std::size_t const n, Fn fn, P&& = P{},
    parallel_error_strategy const es = parallel_error_strategy::QUIT_EXEC) {
  errors errs;
  std::mutex m;
  std::atomic<std::size_t> next{0};
  std::atomic<bool> quit{false};
  auto const work = [&]() {
    for (;;) {
      auto const i = next.fetch_add(1);
      if (i >= n || quit) {
        return;
      }
      try {
        fn(i);
      } catch (...) {
        std::lock_guard<std::mutex> const g{m};
        errs.emplace_back(i, std::current_exception());
        if (es == parallel_error_strategy::QUIT_EXEC) {
          quit = true;
        }
      }
    }
  };
  char const* env = std::getenv("VERIF_THREADS");
  auto const nt = std::min<std::size_t>(
      env ? static_cast<std::size_t>(std::stoul(env))
          : std::max(1U, std::thread::hardware_concurrency()),
      std::max<std::size_t>(n, 1));
  std::vector<std::thread> ts;
  for (std::size_t t = 1; t < nt; ++t) {
    ts.emplace_back(work);
  }
  work();
  for (auto& t : ts) {
    t.join();
  }
  if (es == parallel_error_strategy::QUIT_EXEC && !errs.empty()) {
    std::rethrow_exception(errs.front().second);
  }
  return errs;
}

template <typename C, typename Fn, typename P = noop_progress_update>
errors parallel_for(
    C&& jobs, Fn&& fn, P&& p = P{},
    parallel_error_strategy const es = parallel_error_strategy::QUIT_EXEC) {
  return parallel_for_run(
      jobs.size(),
      [&](std::size_t const i) { fn(jobs[i]); }, p, es);
}
}  // namespace utl
