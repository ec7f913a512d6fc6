#include "driver.h"

#include <iomanip>
#include <set>
#include <sstream>
#include <vector>

#include "soro/base/error.h"
#include "soro/rolling_stock/rolling_stock_error.h"
#include "soro/timetable/parsers/kss/kss_error.h"
#include "soro/timetable/parsers/route_transform_error.h"
#include "soro/timetable/timetable_error.h"
#include "soro/utls/result.h"
#include "soro/utls/sassert.h"

using namespace soro;

#if !defined(NDEBUG)
static constexpr bool checked = true;
#else
static constexpr bool checked = false;
#endif

// a component's errors are numbered from one
static std::error_code code(json const& j) {
  std::string const c = j[0];
  int const n = j[1];
  using kss = error::kss;
  using rt = error::route_transform;
  static kss const ks[] = {kss::STATION_NOT_FOUND, kss::STATION_ROUTE_NOT_FOUND, kss::WORKED_ON_TRAIN, kss::NO_INTERLOCKING_ROUTE_PATH,
      kss::STOP_IS_HALT_BUT_STATION_ROUTE_NO_HALT, kss::TRANSIT_TIME_BUT_NO_RUNTIME_CHECKPOINT, kss::CTC_NOT_SUPPORTED,
      kss::SINGLE_STOP_NOT_SUPPORTED, kss::BREAK_IN_NOT_SUPPORTED, kss::BREAK_OUT_NOT_SUPPORTED, kss::FIRST_STOP_NO_HALT_NOT_SUPPORTED,
      kss::LAST_STOP_NO_HALT_NOT_SUPPORTED, kss::INFRASTRUCTURE_VERSION_MISMATCH};
  static rt const rs[] = {rt::NO_FIRST_IR, rt::NO_UNIQUE_FIRST_IR, rt::NO_IR, rt::NO_UNIQUE_IR, rt::HALT_IN_SEQUENCE_BUT_NOT_IN_STATION_ROUTE};
  if (c == "kss") return ks[n - 1];
  if (c == "route") return rs[n - 1];
  if (c == "stock") return error::rolling_stock::TRACTION_VEHICLE_NOT_FOUND;
  if (c == "timetable") return error::timetable::UNKNOWN_SOURCE_TYPE;
  return make_error_code(n == 1 ? std::errc::invalid_argument : std::errc::result_out_of_range);
}

// a failing operation and its callers
static utls::result<int> source(json const& c) {
  if (c.at("fails").get<bool>()) {
    auto const e = code(c.at("e"));
    switch (c.at("how").get<int>()) {
      case 0: return utls::unexpected(e);
      case 1: return utls::unexpected(e, "it failed: {} {}", 1, "x");
      default:
        if (c.at("e")[0] == "std") {
          auto const ec = c.at("e")[1] == 1 ? std::errc::invalid_argument : std::errc::result_out_of_range;
          return c.at("how") == 2 ? utls::result<int>{utls::unexpected(ec)} : utls::result<int>{utls::unexpected(ec, "it failed")};
        }
        return std::unexpected(e);
    }
  }
  return c.at("v").get<int>();
}
static utls::result<std::string> caller(json const& c, int depth) {
  if (depth == 0) {
    auto const r = source(c);
    if (!r) return utls::propagate(r);
    return std::to_string(*r);
  }
  auto const r = caller(c, depth - 1);
  if (!r) return utls::propagate(r);
  return *r;
}
static bool throws(auto&& f) {
  try { f(); return false; } catch (std::runtime_error const&) { return true; }
}

int main() {
  std::ostringstream sink;
  std::clog.rdbuf(sink.rdbuf());
  setenv("SORO_LOG", "1", 1);
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"compare", [](json const& c) {
         auto const a = code(c.at("a")), b = code(c.at("b"));
         return ok(json{{"same", a == b}, {"same_kind", a.category() == b.category()}, {"same_name", std::string(a.category().name()) == b.category().name()},
                        {"same_message", a.message() == b.message()}, {"set", static_cast<bool>(a)}, {"success", a == std::error_code{}},
                        {"empty", a.message().empty() || std::string(a.category().name()).empty()},
                        // what a number that stands for no error is called
                        {"placeholder", a.message() == std::error_code(99, a.category()).message()},
                        {"less", json::array({a < b, b < a})}}); }},
      {"result", [](json const& c) {
         auto const r = caller(c, c.at("depth"));
         json j{{"has", r.has_value()}, {"value", ""}, {"error", false}};
         if (r) j["value"] = *r; else j["error"] = r.error() == code(c.at("e"));
         return ok(j); }},
      {"count", [&](json const& c) {
         error::stats s{"the name"};
         for (auto const& e : c.at("es")) {
           if (e[2] == 1) s.count(utls::result<int>{std::unexpected(code(e))}); else s.count(code(e));
         }
         json j = json::array();
         sink.str("");
         s.report();
         auto const text = sink.str();
         for (auto const& e : c.at("ask")) {
           auto const it = s.errors_.find(code(e));
           std::size_t const n = it == s.errors_.end() ? 0 : it->second;
           auto const m = code(e).message();
           bool line = false;
           std::istringstream in(text);
           for (std::string l; std::getline(in, l);) line = line || (l.find(m) != std::string::npos && l.find(std::to_string(n)) != std::string::npos);
           j.push_back(json::array({n, n != 0 && line ? 1 : 0}));
         }
         return ok(json{{"counts", j}, {"kinds", s.errors_.size()}, {"silent", text.empty()}, {"named", text.find("the name") != std::string::npos}}); }},
      {"assert", [](json const& c) {
         bool const b = c.at("b");
         bool ran = false, ran2 = false, ran3 = false;
         utls::sasserts([&] { ran = true; });
         utls::expects([&] { ran2 = true; });
         utls::ensures([&] { ran3 = true; });
         return ok(json{{"checked", checked},
                        {"throws", json::array({throws([&] { utls::sassert(b); }), throws([&] { utls::sassert(b, "no {}", 1); }), throws([&] { utls::expect(b); }),
                                                throws([&] { utls::expect(b, "no {} {}", "x", 2); }), throws([&] { utls::ensure(b); }), throws([&] { utls::ensure(b, "no"); }),
                                                throws([&] { utls::sasserts([&] { utls::sassert(b, "no"); }); })})},
                        {"ran", json::array({ran, ran2, ran3})}}); }},
      {"misuse", [](json const& c) {
         // reporting success as a failure
         int const k = c.at("k");
         return ok(throws([&] {
           if (k == 0) { utls::result<int> const r{1}; static_cast<void>(utls::propagate(r)); }
           else if (k == 1) static_cast<void>(utls::unexpected(std::error_code{}, "x"));
           else if (k == 2) static_cast<void>(utls::unexpected(std::error_code{}));
           else { error::stats s{"s"}; s.count(utls::result<int>{1}); }
         })); }},
  });
}
