#include "driver.h"

#include <vector>

#include "soro/timetable/bitfield.h"

using namespace soro;
using namespace soro::tt;
using anchor = bitfield::anchor_time;

// days count from 1970-01-01
static anchor day(int d) { return anchor{date::days{d}}; }
static int num(anchor const a) { return static_cast<int>(a.time_since_epoch().count()); }
static absolute_time at(json const& j) { return absolute_time{i32_seconds{j[0].get<int>() * 86400 + j[1].get<int>()}}; }

int main() {
  std::clog.rdbuf(nullptr);
  std::vector<bitfield> r(3);
  auto reg = [&](json const& c, char const* k) -> bitfield& { return r[c.at(k).get<std::size_t>()]; };
  return run_driver({
      {"new", [&](json const&) { r.assign(3, bitfield{}); return ok(); }},
      {"make", [&](json const& c) {
         std::string mask;
         for (auto const& b : c.at("mask")) mask += b.get<int>() ? '1' : '0';
         reg(c, "i") = make_bitfield(day(c.at("first")), day(c.at("first").get<int>() + static_cast<int>(mask.size()) - 1), mask.c_str());
         return ok(); }},
      {"set", [&](json const& c) { reg(c, "i").set(day(c.at("d")), c.at("v")); return ok(); }},
      {"copy", [&](json const& c) { reg(c, "i") = reg(c, "j"); return ok(); }},
      {"join", [&](json const& c) { reg(c, "k") = reg(c, "i") | reg(c, "j"); return ok(); }},
      {"add", [&](json const& c) { auto const x = (reg(c, "i") |= reg(c, "j")); return ok(x == reg(c, "i")); }},
      {"look", [&](json const& c) {
         auto const& b = reg(c, "i");
         json days = json::array(), walk = json::array();
         for (auto const d : b.get_set_days()) days.push_back(num(d));
         for (auto const d : b) walk.push_back(num(d));
         return ok(json{{"ok", b.ok()}, {"days", days}, {"walk", walk}, {"count", static_cast<int>(b.count())}}); }},
      {"ends", [&](json const& c) {
         auto const& b = reg(c, "i");
         auto n = [](absolute_time const t) { auto const s = t.time_since_epoch().count(); return s % 86400 == 0 ? s / 86400 : -1; };
         return ok(json::array({num(b.first_date_), num(b.last_date_), n(b.first_set_date()), n(b.last_set_date())})); }},
      {"at", [&](json const& c) { return ok(reg(c, "i").at(day(c.at("d")))); }},
      {"index", [&](json const& c) { return ok(static_cast<bool>(reg(c, "i")[day(c.at("d"))])); }},
      {"between", [&](json const& c) {
         auto const& b = reg(c, "i");
         json days = json::array();
         auto const end = b.to(at(c.at("t")));
         for (auto it = b.from(at(c.at("f"))); it != end; ++it) {
           days.push_back(num(*it));
           if (days.size() > 600 || it == b.end()) throw std::runtime_error("endless");
         }
         return ok(days); }},
      {"after", [&](json const& c) {
         auto const& b = reg(c, "i");
         json days = json::array(), before = json::array();
         for (auto it = b.from(at(c.at("t"))); it != b.end(); ++it) days.push_back(num(*it));
         for (auto it = b.begin(); it != b.to(at(c.at("t"))); ++it) before.push_back(num(*it));
         return ok(json::array({days, before})); }},
      {"compare", [&](json const& c) {
         auto const &a = reg(c, "i"), &b = reg(c, "j");
         return ok(json::array({a == b, a.equivalent(b), b.equivalent(a)})); }},
  });
}
