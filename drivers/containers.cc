#include "driver.h"

#include <algorithm>
#include <array>
#include <cassert>
#include <functional>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <stdexcept>

#include "soro/base/soro_types.h"
#include "soro/utls/container/constexpr_map.h"
#include "soro/utls/container/id_iterator.h"
#include "soro/utls/container/it_range.h"
#include "soro/utls/container/offset_container.h"
#include "soro/utls/container/optional.h"
#include "soro/utls/container/priority_queue.h"
#include "soro/utls/container/sorted_vector.h"

using namespace soro;
using V = std::vector<int>;

template <typename C>
static json arr(C const& c) {
  json j = json::array();
  for (auto const& x : c) j.push_back(x);
  return j;
}

// ------------------------------------------------------------ priority queue
struct item {
  item() = default;
  item(int k, int id) : k_{k}, id_{id} {}
  explicit item(std::pair<int, int> p) : k_{p.first}, id_{p.second} {}
  int k_{-1}, id_{-1};
};
struct cmp {
  bool min_;
  bool operator()(item const& a, item const& b) const { return min_ ? b.k_ < a.k_ : a.k_ < b.k_; }
};
using pq_t = utls::priority_queue<item, cmp>;
static std::unique_ptr<pq_t> pq;
static json pq_view() {
  json r;
  r["empty"] = pq->empty();
  V ids;
  for (auto const& x : *pq) ids.push_back(x.id_);
  std::sort(ids.begin(), ids.end());
  r["ids"] = arr(ids);
  r["top"] = pq->empty() ? json::array({0, 0}) : json::array({pq->top().k_, pq->top().id_});
  return ok(r);
}

// ------------------------------------------------------------ optionals
static int const cells[64] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
                              32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63};
template <typename O, typename T>
struct optionals {
  O o_[3];
  static T to(int x) {
    if constexpr (std::is_pointer_v<T>) return cells + x; else return static_cast<T>(x);
  }
  static int from(T const& x) {
    if constexpr (std::is_pointer_v<T>) return static_cast<int>(x - cells); else return static_cast<int>(x);
  }
  json view() const {
    json r = json::array();
    for (auto const& o : o_) {
      json e;
      e["has"] = o.has_value();
      e["bool"] = static_cast<bool>(o);
      e["or"] = from(o.value_or(to(63)));
      e["or_move"] = from(O{o}.value_or(to(62)));
      e["or_else"] = from(*o.or_else([] { return O{to(61)}; }));
      e["or_else_move"] = from(*O{o}.or_else([] { return O{to(60)}; }));
      e["val"] = o.has_value() ? from(*o) : -1;
      e["value"] = o.has_value() ? from(o.value()) : -1;
      e["arrow"] = o.has_value() ? from(*o.operator->()) : -1;
      e["moved"] = o.has_value() ? from(O{o}.value()) : -1;
      e["transform"] = o.transform([](T const& x) { return from(x) + 100; });
      auto const t = o.and_then([](T const& x) { return from(x) < 20 ? soro::utls::optional<uint32_t>{static_cast<uint32_t>(from(x) + 200)} : soro::utls::optional<uint32_t>{}; });
      e["then"] = t.has_value() ? static_cast<int>(*t) : -1;
      V seen;
      o.execute_if([&](T const& x) { seen.push_back(from(x)); });
      e["exec"] = arr(seen);
      r.push_back(e);
    }
    return r;
  }
  json apply(json const& c) {
    std::string const k = c.at("k");
    int const i = c.at("i"), j = c.at("j"), v = c.at("v");
    if (k == "set") o_[i] = O{to(v)};
    else if (k == "null") o_[i] = std::nullopt;
    else if (k == "reset") o_[i].reset();
    else if (k == "assign") { auto const& s = o_[j]; o_[i] = s; }
    else if (k == "move") { O s{o_[j]}; o_[i] = std::move(s); }
    else if (k == "swap") o_[i].swap(o_[j]);
    else if (k == "write") { if (o_[i].has_value()) *o_[i] = to(v); }
    else if (k == "write_value") { if (o_[i].has_value()) o_[i].value() = to(v); }
    else if (k == "write_arrow") { if (o_[i].has_value()) *(o_[i].operator->()) = to(v); }
    else if (k == "write_move") { if (o_[i].has_value()) { std::move(o_[i]).value() = to(v); } }
    else throw json::type_error::create(302, "unknown " + k, nullptr);
    return ok(view());
  }
};
static optionals<utls::optional<uint32_t>, uint32_t> ou;
static optionals<utls::optional<int, -7>, int> oi;
static optionals<utls::optional<int const*>, int const*> op;
static optionals<utls::optional<uint8_t, 63 + 1>, uint8_t> ob;

// ------------------------------------------------------------ offset container
using oc_t = utls::offset_container<std::vector<int>>;
static std::unique_ptr<oc_t> oc;
static std::size_t oc_off, oc_n;
static json oc_view() {
  json r = json::array();
  oc_t const& c = *oc;
  for (std::size_t i = 0; i < oc_n; ++i) r.push_back(c[oc_off + i]);
  return ok(r);
}

// ------------------------------------------------------------ id iterator
using vals_t = soro::vector<int>;
using ptrs_t = soro::vector<int const*>;
using idv_t = soro::vector<uint32_t>;
using it_v = utls::id_iterator<idv_t::const_iterator, vals_t>;
using it_p = utls::id_iterator<idv_t::const_iterator, ptrs_t>;
static vals_t vals;
static ptrs_t ptrs;
static idv_t ids;
static it_v iv;
static it_p ip;
template <typename It>
static json it_view(It const& it, It const& b, It const& e) {
  json r;
  int const n = static_cast<int>(ids.size());
  int const p = static_cast<int>(it - b);
  r["pos"] = p;
  r["back"] = static_cast<int>(b - it);
  r["left"] = static_cast<int>(e - it);
  r["val"] = p >= 0 && p < n ? *it : -1;
  r["arrow"] = p >= 0 && p < n ? *it.operator->() : -1;
  json at = json::array();
  for (int k = 0; k < n; ++k) at.push_back(it[k - p]);
  r["at"] = at;
  It mut = it;
  json at2 = json::array();
  for (int k = 0; k < n; ++k) at2.push_back(mut[k - p]);
  r["at2"] = at2;
  r["plus"] = json::array();
  for (int k = 0; k < n; ++k) r["plus"].push_back(*(it + (k - p)));
  r["rplus"] = json::array();
  for (int k = 0; k < n; ++k) r["rplus"].push_back(*((k - p) + it));
  r["minus"] = json::array();
  for (int k = 0; k < n; ++k) r["minus"].push_back(*(it - (p - k)));
  json rel = json::array();
  for (auto const& x : {b, e, b + n / 2})
    for (bool const y : {it == x, it != x, it < x, it <= x, it > x, it >= x}) rel.push_back(y);
  r["rel"] = rel;
  return r;
}
template <typename It>
static json it_apply(It& it, json const& c, It const& b, It const& e) {
  std::string const k = c.at("k");
  int const d = c.at("d");
  int ret = -1;
  if (k == "pre++") ret = static_cast<int>(++it - b);
  else if (k == "pre--") ret = static_cast<int>(--it - b);
  else if (k == "post++") ret = static_cast<int>(it++ - b);
  else if (k == "post--") ret = static_cast<int>(it-- - b);
  else if (k == "+=") ret = static_cast<int>((it += d) - b);
  else if (k == "-=") ret = static_cast<int>((it -= d) - b);
  else if (k == "+") it = it + d;
  else if (k == "-") it = it - d;
  else if (k == "d+") it = d + it;
  else throw json::type_error::create(302, "unknown " + k, nullptr);
  json r = it_view(it, b, e);
  r["ret"] = ret;
  return r;
}

int main() {
  return run_driver({
      {"new", [](json const&) {
         pq.reset(); oc.reset(); ou = {}; oi = {}; op = {}; ob = {};
         vals.clear(); ptrs.clear(); ids.clear();
         return ok(); }},
      {"pq_make", [](json const& c) { pq = std::make_unique<pq_t>(cmp{c.at("min").get<bool>()}); return pq_view(); }},
      {"pq_put", [](json const& c) {
         int const k = c.at("k"), id = c.at("id"), how = c.at("how");
         if (how == 0) pq->emplace(k, id);
         else if (how == 1) pq->emplace(item{k, id});
         else pq->emplace(std::pair<int, int>{k, id});
         return pq_view(); }},
      {"pq_pop", [](json const&) { if (!pq->empty()) pq->pop(); return pq_view(); }},
      {"opt", [](json const& c) {
         int const w = c.at("w");
         return w == 0 ? ou.apply(c) : w == 1 ? oi.apply(c) : w == 2 ? op.apply(c) : ob.apply(c); }},
      {"opt_misc", [](json const& c) {
         int const v = c.at("v");
         json r;
         auto const a = utls::make_optional<uint32_t, 1000U>(static_cast<uint32_t>(v));
         r["make"] = a.has_value() ? static_cast<int>(*a) : -1;
         utls::optional const b(static_cast<uint32_t>(v));
         r["guide"] = b.has_value() ? static_cast<int>(*b) : -1;
         utls::optional<uint32_t> const n(std::nullopt);
         r["null"] = n.has_value();
         auto const d = utls::optional<uint32_t>{};
         r["dflt"] = d.has_value();
         auto const copy{b};
         r["copy"] = copy.has_value() ? static_cast<int>(copy.value()) : -1;
         return ok(r); }},
      {"oc_make", [](json const& c) {
         oc_off = c.at("off"); oc_n = c.at("n");
         oc = std::make_unique<oc_t>(oc_off, oc_n);
         return oc_view(); }},
      {"oc_set", [](json const& c) { (*oc)[oc_off + c.at("i").get<std::size_t>()] = c.at("v").get<int>(); return oc_view(); }},
      {"oc_add", [](json const& c) { (*oc)[oc_off + c.at("i").get<std::size_t>()] += c.at("v").get<int>(); return oc_view(); }},
      {"oc_resize", [](json const& c) { oc_n = c.at("n"); oc->resize(oc_n); return oc_view(); }},
      {"it_make", [](json const& c) {
         vals.clear(); ptrs.clear(); ids.clear();
         for (int const x : c.at("vals").get<V>()) vals.push_back(x);
         for (auto const& x : vals) ptrs.push_back(&x);
         for (int const x : c.at("ids").get<V>()) ids.push_back(static_cast<uint32_t>(x));
         iv = it_v{std::cbegin(ids), &vals};
         ip = it_p{std::cbegin(ids), &ptrs};
         json r = it_view(iv, it_v{std::cbegin(ids), &vals}, it_v{std::cend(ids), &vals});
         r["ret"] = -1;
         return ok(json::array({r, r})); }},
      {"it", [](json const& c) {
         json r = json::array();
         r.push_back(it_apply(iv, c, it_v{std::cbegin(ids), &vals}, it_v{std::cend(ids), &vals}));
         r.push_back(it_apply(ip, c, it_p{std::cbegin(ids), &ptrs}, it_p{std::cend(ids), &ptrs}));
         return ok(r); }},
      {"sorted", [](json const& c) {
         V const v = c.at("v").get<V>();
         json r = json::array();
         auto const view = [](auto& s) {
           json x;
           x["iter"] = arr(s);
           json a = json::array(), b = json::array();
           for (std::size_t i = 0; i < s.size(); ++i) { a.push_back(s[i]); b.push_back(s.at(i)); }
           x["idx"] = a;
           x["at"] = b;
           x["size"] = s.size();
           x["out"] = arr(V(s.move_out()));
           return x;
         };
         { utls::sorted_vector<int, V> s(V{v}); r.push_back(view(s)); }
         { utls::sorted_vector<int, V> s(V{v}, std::greater<int>{}); r.push_back(view(s)); }
         { utls::sorted_vector<int, V> s(V{v}, [](int a, int b) { return std::pair{a % 10, a} < std::pair{b % 10, b}; }); r.push_back(view(s)); }
         { utls::sorted_vector s(V{v}); r.push_back(view(s)); }
         { utls::sorted_vector<int, V> s; r.push_back(view(s)); }
         return ok(r); }},
      {"range", [](json const& c) {
         V const v = c.at("v").get<V>();
         int const f = c.at("from"), t = c.at("to");
         json r = json::array();
         r.push_back(arr(utls::make_range(v)));
         r.push_back(arr(utls::make_range(v.begin() + f, v.begin() + t)));
         utls::it_range rg(v.begin() + f, v.begin() + t);
         r.push_back(arr(rg));
         std::tuple<V::const_iterator&, V::const_iterator&> tp = rg;
         r.push_back(arr(V(std::get<0>(tp), std::get<1>(tp))));
         if (std::get<0>(tp) != std::get<1>(tp)) ++std::get<0>(tp);
         r.push_back(arr(rg));
         return ok(r); }},
      {"cmap", [](json const& c) {
         std::array<int, 4> k = c.at("keys").get<std::array<int, 4>>();
         utls::constexpr_map<int, int, 4> const m{{{{k[0], 10}, {k[1], 11}, {k[2], 12}, {k[3], 13}}}};
         json r = json::array();
         for (int x = 0; x < 6; ++x) {
           try { r.push_back(m.at(x)); } catch (std::range_error const&) { r.push_back(-1); }
         }
         utls::constexpr_map<int, int, 0> const e{};
         try { r.push_back(e.at(1)); } catch (std::range_error const&) { r.push_back(-1); }
         constexpr utls::constexpr_map<char, int, 2> s{{{{'a', 1}, {'b', 2}}}};
         static_assert(s.at('a') == 1 && s.at('b') == 2);
         return ok(r); }},
  });
}
