#include "driver.h"

#include <cmath>
#include <cstring>
#include <memory>

#include "soro/base/soro_types.h"
#include "soro/utls/narrow.h"
#include "soro/utls/parse_fp.h"
#include "soro/utls/parse_int.h"
#include "soro/utls/string.h"

using namespace soro;
using namespace soro::utls;

// a text that ends exactly where its memory ends
struct exact {
  explicit exact(json const& codes) : n_(codes.size()), mem_(new char[codes.size()]) {
    std::size_t i = 0;
    for (auto const& c : codes) mem_[i++] = static_cast<char>(c.get<int>());
  }
  std::string_view view() const { return {mem_.get(), n_}; }
  std::string str() const { return std::string(view()); }
  std::size_t n_;
  std::unique_ptr<char[]> mem_;
};
static json codes(std::string_view s) {
  json j = json::array();
  for (char const c : s) j.push_back(static_cast<int>(static_cast<unsigned char>(c)));
  return j;
}
template <typename T>
static json num(T v) { return codes(std::to_string(v)); }
template <typename F>
static json tried(F&& f) {
  try {
    return json::array({"ok", f()});
  } catch (std::exception const&) {
    return json::array({"exc", json::array()});
  }
}
template <typename F>
static json on_type(int t, F&& f) {
  switch (t) {
    case 0: return f(int8_t{}); case 1: return f(uint8_t{}); case 2: return f(int16_t{}); case 3: return f(uint16_t{});
    case 4: return f(int32_t{}); case 5: return f(uint32_t{}); case 6: return f(int64_t{}); default: return f(uint64_t{});
  }
}
template <typename T, replace_comma R>
static json fp(exact const& e) {
  json r = json::array();
  auto const s = e.str();
  auto v = [](T x) { return std::lround(static_cast<double>(x) * 1000.0); };
  r.push_back(tried([&] { return v(parse_fp<T, R>(e.view())); }));
  r.push_back(tried([&] { return v(parse_fp<T, R>(s)); }));
  r.push_back(tried([&] { return v(parse_fp<T, R>(s.c_str())); }));
  r.push_back(tried([&] { return v(parse_fp<T, R>(e.view().data(), e.n_)); }));
  r.push_back(tried([&] { return v(parse_fp<T, R>(e.view().data(), e.view().data() + e.n_)); }));
  for (auto& x : r) if (x[0] == "exc") x = json::array({"exc", 0});
  return r;
}

int main() {
  std::clog.rdbuf(nullptr);
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"int", [](json const& c) {
         exact const e(c.at("s"));
         auto const s = e.str();
         return ok(on_type(c.at("t"), [&]<typename T>(T) {
           json r = json::array();
           r.push_back(tried([&] { return num(parse_int<T>(e.view())); }));
           r.push_back(tried([&] { return num(parse_int<T>(s)); }));
           r.push_back(tried([&] { return num(parse_int<T>(s.c_str())); }));
           r.push_back(tried([&] { return num(parse_int<T>(e.view().data(), e.view().data() + e.n_)); }));
           auto const t = try_parse_int<T>(e.view());
           r.push_back(t.has_value() ? json::array({"ok", num(*t)}) : json::array({"exc", json::array()}));
           if (!t.has_value() && !t.error()) r.push_back("error without a code");
           return r;
         })); }},
      {"fp", [](json const& c) {
         exact const e(c.at("s"));
         json r;
         r["on"] = fp<double, replace_comma::ON>(e);
         r["off"] = fp<double, replace_comma::OFF>(e);
         r["onf"] = fp<float, replace_comma::ON>(e);
         r["offf"] = fp<float, replace_comma::OFF>(e);
         r["text"] = codes(e.view());
         return ok(r); }},
      {"split", [](json const& c) {
         exact const s(c.at("s")), d(c.at("d"));
         json r = json::array();
         for (auto const& p : split(s.view(), d.view())) r.push_back(codes(p));
         return ok(r); }},
      {"compare", [](json const& c) {
         exact const a(c.at("a")), b(c.at("b"));
         std::string const x = a.str(), y = b.str();
         json r;
         soro::string const sx{x}, sy{y};
         r["equal"] = json::array({equal(x.c_str(), y.c_str()), equal(sx, y.c_str()), equal(x.c_str(), sy),
                                   equal(soro::string_view{a.view()}, y.c_str()), equal(x.c_str(), soro::string_view{b.view()}),
                                   equal(soro::string_view{a.view()}, soro::string_view{b.view()})});
         r["starts"] = starts_with(x.c_str(), y.c_str());
         r["hash"] = json::array({str_hash(x) == str_hash(y), str_hash(x.c_str()) == str_hash(y), str_hash(x.c_str()) == str_hash(x), str_hash(x.c_str(), x.size()) == str_hash(x)});
         return ok(r); }},
      {"narrow", [](json const& c) {
         exact const e(c.at("s"));
         return ok(on_type(c.at("from"), [&]<typename In>(In) {
           In in{};
           if constexpr (std::is_signed_v<In>) in = static_cast<In>(std::strtoll(e.str().c_str(), nullptr, 10));
           else in = static_cast<In>(std::strtoull(e.str().c_str(), nullptr, 10));
           return on_type(c.at("to"), [&]<typename Out>(Out) {
             json r;
             r["fits"] = utls::detail::fits<Out>(In{in});
             r["narrowing"] = utls::detail::is_narrowing<Out, In>();
             r["narrow"] = tried([&] { return num(narrow<Out>(In{in})); });
             return r;
           });
         })); }},
  });
}
