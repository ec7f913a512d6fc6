#include "driver.h"

#include <array>
#include <list>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#include "soro/base/soro_types.h"

#include "soro/utls/algo/merge_unique.h"
#include "soro/utls/algo/multi_set_merge.h"
#include "soro/utls/algo/overlap.h"
#include "soro/utls/algo/remove_after.h"
#include "soro/utls/algo/remove_until.h"
#include "soro/utls/algo/sort_and_intersect.h"
#include "soro/utls/container/it_range.h"
#include "soro/utls/algo/slice.h"
#include "soro/utls/std_wrapper/set_difference.h"

using namespace soro;
using V = std::vector<int>;
using SV = soro::vector<int>;

static V vec(json const& j) { return j.get<V>(); }
template <typename C>
static json arr(C const& c) {
  json j = json::array();
  for (auto const& x : c) j.push_back(x);
  return j;
}
template <typename F>
static json guarded(F&& f) {
  try {
    return json::array({"ok", f()});
  } catch (std::exception const&) {
    return json::array({"exc"});
  }
}

int main() {
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"pair",
       [](json const& c) {
         V a = vec(c.at("a")), b = vec(c.at("b"));
         json r;
         r["merge"] = guarded([&] { return arr(utls::merge_unique(a, b)); });
         r["overlap"] = guarded([&] { return utls::overlap(a, b); });
         r["over2"] = utls::overlap_non_sorted(a, b);
         r["over3"] = utls::overlap_non_sorted(a.cbegin(), a.cend(), b.cbegin(), b.cend());
         V sa = a, sb = b;
         std::sort(sa.begin(), sa.end());
         std::sort(sb.begin(), sb.end());
         r["getover"] = arr(utls::get_overlap(sa, sb));
         V xa = a, xb = b;
         auto const x = utls::sort_and_intersect(xa, xb);
         r["sinter"] = json::array({arr(x), arr(xa), arr(xb)});
         r["inter"] = arr(utls::intersect(sa, sb));
         V d;
         utls::set_difference(sa, sb, std::back_inserter(d));
         r["sdiff"] = arr(d);
         return ok(r);
       }},
      {"unsorted",
       [](json const& c) {
         V const a = vec(c.at("a")), b = vec(c.at("b"));
         return ok(json{{"common", arr(utls::get_overlap_non_sorted(a, b))}, {"perm", arr(utls::get_permutation_index(a))}});
       }},
      {"cut",
       [](json const& c) {
         V const v = vec(c.at("v"));
         int const m = c.at("m").get<int>(), r = c.at("r").get<int>();
         auto const pred = [=](int const x) { return x % m == r; };
         auto const from = c.at("from").get<std::size_t>(), to = c.at("to").get<std::size_t>();
         auto const n = v.size();
         bool const good = from <= to && to <= n;
         auto const f = from > n ? 0 : from, t = to > n ? n : to;
         V a = v, u = v;
         utls::remove_after(a, pred);
         utls::remove_until(u, pred);
         SV const s(v.begin(), v.end());
         SV s1 = s, s2 = s;
         json j{{"after", arr(a)}, {"until", arr(u)}, {"slice", json::array({-1})}, {"copy", json::array({-1})}, {"clasp", json::array({-1})},
                {"claspc", json::array({-1})}, {"range", json::array({-1})}, {"claspr", json::array({-1})}};
         if (good) {
           utls::slice(s1, from, to);
           j["slice"] = arr(s1);
           j["copy"] = arr(utls::slice(std::as_const(s), from, to));
           j["range"] = arr(utls::slice_range(s, from, to));
         }
         if (f <= t) {
           utls::slice_clasp(s2, from, to);
           j["clasp"] = arr(s2);
           j["claspc"] = arr(utls::slice_clasp(std::as_const(s), from, to));
           j["claspr"] = arr(utls::slice_clasp_range(s, from, to));
         }
         j["kept"] = arr(s);
         return ok(j);
       }},
      {"merge",
       [](json const& c) {
         std::vector<std::vector<uint32_t>> sets;
         for (auto const& s : c.at("sets")) sets.push_back(s.get<std::vector<uint32_t>>());
         using it = std::vector<uint32_t>::const_iterator;
         soro::vector<std::pair<it, it>> ranges;
         std::vector<std::set<uint32_t>> trees;
         for (auto const& s : sets) ranges.emplace_back(s.cbegin(), s.cend());
         auto const a = utls::multi_set_merge<std::vector<uint32_t>>(ranges);
         // the same from trees, whose iterators are not contiguous
         using tit = std::set<uint32_t>::const_iterator;
         for (auto const& s : sets) trees.emplace_back(s.begin(), s.end());
         soro::vector<std::pair<tit, tit>> tr;
         for (auto const& t : trees) tr.emplace_back(t.cbegin(), t.cend());
         auto const b = utls::multi_set_merge<std::vector<uint32_t>>(tr);
         return ok(a == b ? arr(a) : json::array({arr(a), arr(b)}));
       }},
  });
}
