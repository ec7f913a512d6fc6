#include "driver.h"

#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#include "soro/base/soro_types.h"

#include "soro/utls/std_wrapper/accumulate.h"
#include "soro/utls/std_wrapper/all_of.h"
#include "soro/utls/std_wrapper/any_of.h"
#include "soro/utls/std_wrapper/contains.h"
#include "soro/utls/std_wrapper/contains_if.h"
#include "soro/utls/std_wrapper/copy.h"
#include "soro/utls/std_wrapper/count.h"
#include "soro/utls/std_wrapper/count_if.h"
#include "soro/utls/std_wrapper/find.h"
#include "soro/utls/std_wrapper/find_if.h"
#include "soro/utls/std_wrapper/find_if_position.h"
#include "soro/utls/std_wrapper/find_position.h"
#include "soro/utls/std_wrapper/is_sorted.h"
#include "soro/utls/std_wrapper/min_element.h"
#include "soro/utls/std_wrapper/reverse.h"
#include "soro/utls/std_wrapper/set_difference.h"
#include "soro/utls/std_wrapper/sort.h"
#include "soro/utls/ranges/to.h"
#include "soro/utls/tuple/apply_at.h"
#include "soro/utls/tuple/find_if.h"
#include "soro/utls/tuple/for_each.h"
#include "soro/utls/tuple/is_tuple.h"
#include "soro/utls/tuple/slice.h"
#include "soro/utls/template/decay.h"
#include "soro/utls/template/is_vector.h"
#include "soro/utls/template/type_at_position.h"
#include "soro/utls/map/insert_or.h"
#include "soro/utls/execute_if.h"
#include "soro/utls/function_alias.h"
#include "soro/utls/concepts/arithmetic.h"
#include "soro/utls/concepts/invocable_returns.h"
#include "soro/utls/concepts/is_any_of.h"
#include "soro/utls/concepts/iterable_helpers.h"
#include "soro/utls/concepts/yields.h"

using namespace soro;
using V = std::vector<int>;

template <typename C>
static json arr(C const& c) {
  json j = json::array();
  for (auto const& x : c) j.push_back(static_cast<int>(x));
  return j;
}
template <typename F>
static json guarded(F&& f) {
  try {
    return json::array({"ok", f()});
  } catch (std::exception const&) {
    return json::array({"exc"});
  }
}
template <typename T>
static json tup(T const& t) {
  return std::apply([](auto const&... x) { json j = json::array(); (j.push_back(x), ...); return j; }, t);
}

namespace fn {
inline int minus(int a, int b) { return a - b; }
inline int& bump(int& x) { ++x; return x; }
inline int quiet(int x) noexcept { return x; }
template <typename T>
T as(int x) { return static_cast<T>(x); }
}  // namespace fn
namespace al {
FUN_ALIAS(take, fn::minus)
FUN_ALIAS(raise, fn::bump)
FUN_ALIAS(calm, fn::quiet)
FUN_ALIAS_TEMPLATE(become, fn::as, (typename, T))
}  // namespace al

// something like a variant
struct either {
  int const& as_int() const { return i; }
  template <typename T>
  T const& as() const { return i; }
  bool has;
  int i;
};
template <typename T>
bool holds_alternative(either const& e) { return e.has; }

struct rng3 {   // begin/end found by argument dependent lookup only
  int a[3];
};
inline int const* begin(rng3 const& r) { return r.a; }
inline int const* end(rng3 const& r) { return r.a + 3; }

int main() {
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"short",
       [](json const& c) {
         V const v = c.at("v").get<V>();
         int const m = c.at("m").get<int>(), r = c.at("r").get<int>(), k = c.at("k").get<int>();
         auto const pred = [=](int const x) -> bool { return x % m == r; };
         auto const gt = [](int a, int b) { return a > b; };
         auto const mod = [](int a, int b) { return a % 3 < b % 3; };
         json j;
         std::vector<bool> vb;
         std::deque<bool> db;
         for (auto const x : v) { vb.push_back(pred(x)); db.push_back(pred(x)); }
         std::list<int> const l(v.begin(), v.end());
         auto const pos = [&](auto const it) { return std::distance(v.begin(), it); };
         j["contains"] = utls::contains(v, k);
         j["containsif"] = utls::contains_if(v, pred);
         j["count"] = utls::count(v, k);
         j["countif"] = utls::count_if(v, pred);
         j["all"] = utls::all_of(v, pred);
         j["any"] = utls::any_of(v, pred);
         j["allb"] = utls::all_of(db);
         j["anyb"] = utls::any_of(db);
         j["allv"] = utls::all_of(vb);
         j["anyv"] = utls::any_of(vb);
         j["find"] = pos(utls::find(v, k));
         j["findif"] = pos(utls::find_if(v, pred));
         j["findpos"] = utls::find_position(v, k);
         j["findifpos"] = utls::find_if_position(v, pred);
         V cp;
         utls::copy(v, std::back_inserter(cp));
         j["copy"] = arr(cp);
         V rv = v;
         utls::reverse(rv);
         j["reverse"] = arr(rv);
         j["sum"] = utls::accumulate(v, k);
         j["fold"] = utls::accumulate(v, k, [](int a, int x) { return (a * 3 + x) % 1009; });
         j["text"] = utls::accumulate(v, std::string{">"}, [](std::string a, int x) { return a + std::to_string(x) + ","; });
         j["sorted"] = utls::is_sorted(v);
         j["sortedgt"] = utls::is_sorted(v, gt);
         j["sortedmod"] = utls::is_sorted(v, mod);
         V s1 = v, s2 = v, s3 = v;
         utls::sort(s1);
         utls::sort(s2, gt);
         utls::sort(s3, mod);
         j["sort"] = arr(s1);
         j["sortgt"] = arr(s2);
         j["sortmod"] = arr(s3);
         j["min"] = pos(utls::min_element(v, [](int a, int b) { return a < b; }));
         j["max"] = pos(utls::min_element(v, gt));
         j["minmod"] = pos(utls::min_element(v, mod));
         j["tovec"] = arr(l | utls::to<std::vector>());
         j["tolist"] = arr(v | utls::to<std::list>());
         j["toset"] = arr(v | utls::to<std::set>());
         j["kept"] = arr(v);
         j["lfind"] = std::distance(l.begin(), utls::find(l, k));
         j["lcount"] = utls::count_if(l, pred);
         j["lcont"] = utls::contains(std::multiset<int>(v.begin(), v.end()), k);
         j["lsum"] = utls::accumulate(std::deque<int>(v.begin(), v.end()), 0L);
         j["ssorted"] = utls::is_sorted(std::set<int>(v.begin(), v.end()));
         if (v.size() == 3) {   // the same through begin/end of a foreign type
           rng3 const f{{v[0], v[1], v[2]}};
           if (utls::contains(f, k) != j["contains"] || utls::count(f, k) != j["count"] || utls::find_position(f, k) != j["findpos"] ||
               utls::accumulate(f, k) != j["sum"] || utls::is_sorted(f) != j["sorted"] || utls::any_of(f, pred) != j["any"] ||
               utls::all_of(f, pred) != j["all"] || utls::contains_if(f, pred) != j["containsif"])
             j["kept"] = "a foreign range is treated differently";
         }
         return ok(j);
       }},
      {"tuple",
       [](json const& c) {
         V const v = c.at("v").get<V>();
         int const m = c.at("m").get<int>(), r = c.at("r").get<int>();
         auto const k = c.at("k").get<std::size_t>();
         std::tuple<int, long, short, int> const t{v[0], v[1], static_cast<short>(v[2]), v[3]};
         auto w = t;
         V each, eachc;
         utls::tuple::for_each(w, [&](auto const x) { each.push_back(static_cast<int>(x)); });
         utls::tuple::for_each(t, [&](auto const x) { eachc.push_back(static_cast<int>(x)); });
         utls::tuple::for_each(w, [n = 0](auto& x) mutable { x = static_cast<std::remove_reference_t<decltype(x)>>(x + ++n); });
         auto const inc = w;
         json j{{"each", each}, {"eachc", eachc}, {"incr", tup(inc)}};
         j["find"] = utls::tuple::find_if(t, [&](auto const x) { return x % m == r; });
         j["at"] = guarded([&] { int got = -1; utls::tuple::apply_at(t, k, [&](auto const x) { got = static_cast<int>(x); }); return got; });
         w = t;
         j["atw"] = guarded([&] { utls::tuple::apply_at(w, k, [](auto& x) { x = 99; }); return tup(w); });
         j["s04"] = tup(utls::tuple::slice<0, 4>(t));
         j["s00"] = tup(utls::tuple::slice<0, 0>(t));
         j["s13"] = tup(utls::tuple::slice<1, 3>(t));
         j["s24"] = tup(utls::tuple::slice<2, 4>(t));
         j["s01"] = tup(utls::tuple::slice<0, 1>(t));
         j["s34"] = tup(utls::tuple::slice<3, 4>(t));
         j["s12"] = tup(utls::tuple::slice<1, 2>(t));
         return ok(j);
       }},
      {"insert_or",
       [](json const& c) {
         soro::map<int, int> map;
         for (int i = 0; i < 3; ++i)
           if (int const x = c.at("map")[i].get<int>(); x != -1) map.emplace(i, x);
         bool called = false;
         utls::insert_or(map, c.at("k").get<int>(), c.at("v").get<int>(), [&](int& old, int const v) { old = old * 10 + v; called = true; });
         json j = json::array({-1, -1, -1});
         for (auto const& [k, v] : map) j[k] = v;
         return ok(json{{"map", j}, {"called", called}});
       }},
      {"alias",
       [](json const& c) {
         V v = c.at("v").get<V>();
         int x = v[0];
         int& y = al::raise(x);
         int yes = 0, no = 0;
         either const e{true, v[0]}, f{false, v[0]};
         utls::execute_if<int>(e, [&](int const i) { yes = i + 5; });
         utls::execute_if<int>(f, [&](int const i) { no = i + 5; });
         return ok(json{{"sum", al::take(v[0], v[1])}, {"ref", &y == &x ? x : -1}, {"cast", static_cast<int>(al::become<long>(v[0]))},
                        {"ifyes", yes}, {"ifno", no}, {"noex", noexcept(al::calm(1))}, {"thr", noexcept(al::take(1, 2))}});
       }},
      {"static",
       [](json const&) {
         using T = std::tuple<int, char>;
         using il = std::list<int>;
         std::vector<bool> const b{
             utls::tuple::is_tuple_v<T>, utls::tuple::is_tuple_v<T const>, !utls::tuple::is_tuple_v<int>, !utls::tuple::is_tuple_v<std::vector<T>>,
             utls::is_vector_v<soro::vector<int>>, !utls::is_vector_v<int>, !utls::is_vector_v<std::list<int>>,
             std::is_same_v<utls::type_at_position_t<0, int, char, long>, int>, std::is_same_v<utls::type_at_position_t<1, int, char, long>, char>,
             std::is_same_v<utls::type_at_position_t<2, int, char, long>, long>, std::is_same_v<utls::first_t<char, int>, char>,
             std::is_same_v<utls::decay_t<int const>, int>, std::is_same_v<utls::decay_t<int&>, int>, std::is_same_v<utls::decay_t<int>, int>,
             utls::arithmetic<int>, utls::arithmetic<double>, utls::arithmetic<bool>, !utls::arithmetic<int*>, !utls::arithmetic<std::string>,
             utls::is_any_of<int, char, int>, utls::is_any_of<int, int>, !utls::is_any_of<int, char, long>, !utls::is_any_of<int, int const>,
             utls::invocable_returns<int (*)(char), int, char>, !utls::invocable_returns<int (*)(char), long, char>, !utls::invocable_returns<int (*)(char), int, std::string>,
             utls::is_random_access_iterable<V>, !utls::is_random_access_iterable<il>, utls::is_bidirectional_iterable<il>, utls::is_forward_iterable<il>,
             utls::is_input_iterable<il>, utls::is_contiguous_iterable<V>, !utls::is_contiguous_iterable<std::deque<int>>, utls::is_random_access_iterable<std::deque<int>>,
             utls::yields<int, V>, !utls::yields<long, V>, utls::yields<bool, std::deque<bool>>,
             utls::predicate_yields<bool, V, bool (*)(int)>, !utls::predicate_yields<bool, V, int (*)(int)>};
         return ok(arr(b).size() == 39 ? [&] { json j = json::array(); for (bool x : b) j.push_back(x); return j; }() : json::array());
       }},
  });
}
