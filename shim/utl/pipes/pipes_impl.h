#pragma once
// Minimal eager re-implementation of the utl pipes that soro uses.
#include <iterator>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>
namespace utl {

// A range is modelled as an object with `template<F> void run(F&&)`, F returns
// true to continue.
template <typename It>
struct it_source {
  template <typename F>
  void run(F&& f) const {
    for (auto it = b_; it != e_; ++it) {
      if (!f(*it)) return;
    }
  }
  It b_, e_;
};

template <typename T>
concept pipe_source = requires { typename std::remove_cvref_t<T>::is_pipe; } ||
                      requires(T t) { t.run([](auto&&) { return true; }); };

template <typename Src, typename P>
struct remove_if_src {
  template <typename F>
  void run(F&& f) const {
    src_.run([&](auto&& e) { return p_(e) ? true : f(e); });
  }
  // range interface (eager)
  auto collect() const {
    std::vector<std::decay_t<typename Src::template value_t<>>> v;
    return v;
  }
  Src src_;
  P p_;
};

template <typename C>
auto all(C&& c) {
  return it_source<decltype(std::begin(c))>{std::begin(c), std::end(c)};
}
template <typename It>
auto range(It b, It e) {
  return it_source<It>{b, e};
}

template <typename P>
struct remove_if_t {
  template <typename Src>
  friend auto operator|(Src&& s, remove_if_t&& r) {
    return remove_if_src<std::remove_cvref_t<Src>, P>{std::forward<Src>(s),
                                                     std::move(r.p_)};
  }
  P p_;
};
template <typename P>
auto remove_if(P&& p) {
  return remove_if_t<std::decay_t<P>>{std::forward<P>(p)};
}

template <typename Fn>
struct for_each_t {
  template <typename Src>
  friend void operator|(Src&& s, for_each_t&& r) {
    s.run([&](auto&& e) {
      r.fn_(e);
      return true;
    });
  }
  Fn fn_;
};
template <typename Fn>
auto for_each(Fn&& fn) {
  return for_each_t<std::decay_t<Fn>>{std::forward<Fn>(fn)};
}
template <typename Src, typename Fn>
struct transform_src {
  template <typename F>
  void run(F&& f) const {
    src_.run([&](auto&& e) { return f(fn_(std::forward<decltype(e)>(e))); });
  }
  Src src_;
  Fn fn_;
};
template <typename Fn>
struct transform_t {
  template <typename Src>
  friend auto operator|(Src&& s, transform_t&& t) {
    return transform_src<std::remove_cvref_t<Src>, Fn>{std::forward<Src>(s), std::move(t.fn_)};
  }
  Fn fn_;
};
template <typename Fn>
auto transform(Fn&& fn) {
  return transform_t<std::decay_t<Fn>>{std::forward<Fn>(fn)};
}

template <typename Src, typename P>
struct take_while_src {
  template <typename F>
  void run(F&& f) const {
    src_.run([&](auto&& e) { return p_(e) ? f(std::forward<decltype(e)>(e)) : false; });
  }
  Src src_;
  P p_;
};
template <typename P>
struct take_while_t {
  template <typename Src>
  friend auto operator|(Src&& s, take_while_t&& t) {
    return take_while_src<std::remove_cvref_t<Src>, P>{std::forward<Src>(s), std::move(t.p_)};
  }
  P p_;
};
template <typename P>
auto take_while(P&& p) {
  return take_while_t<std::decay_t<P>>{std::forward<P>(p)};
}

struct count_t {
  template <typename Src>
  friend std::size_t operator|(Src&& s, count_t&&) {
    std::size_t n = 0;
    s.run([&](auto&&) { return ++n, true; });
    return n;
  }
};
inline count_t count() { return {}; }

template <typename T>
struct sum_t {
  template <typename Src>
  friend T operator|(Src&& s, sum_t&& t) {
    s.run([&](auto&& e) { return t.init_ = t.init_ + e, true; });
    return t.init_;
  }
  T init_;
};
template <typename T>
sum_t<T> sum(T init) {
  return {init};
}
}  // namespace utl
