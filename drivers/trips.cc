#include "driver.h"

#include <memory>

#include "soro/timetable/train.h"

using namespace soro;
using namespace soro::tt;
using anchor = bitfield::anchor_time;

static anchor day(int d) { return anchor{date::days{d}}; }
static absolute_time at(json const& j) {
  return absolute_time{i32_seconds{static_cast<uint32_t>(j[0].get<int64_t>() * 86400 + j[1].get<int64_t>())}};
}
static json when(absolute_time const t) {
  auto const s = static_cast<int64_t>(t.time_since_epoch().count());
  return json::array({s / 86400, s % 86400});
}
static json num(absolute_time const t) {
  auto const s = static_cast<int64_t>(t.time_since_epoch().count());
  return s % 86400 == 0 ? json(s / 86400) : json(-1);
}

int main() {
  std::clog.rdbuf(nullptr);
  auto t = std::make_unique<train>();
  return run_driver({
      {"new", [&](json const&) { t = std::make_unique<train>(); return ok(); }},
      {"train", [&](json const& c) {
         t = std::make_unique<train>();
         std::string mask;
         for (auto const& b : c.at("mask")) mask += b.get<int>() ? '1' : '0';
         t->id_ = c.at("id");
         t->service_days_ = make_bitfield(day(c.at("first")), day(c.at("first").get<int>() + static_cast<int>(mask.size()) - 1), mask.c_str());
         auto const n = c.value("points", 2U);
         for (auto i = 0U; i < n; ++i) {
           sequence_point p;
           p.type_ = sequence_point::type::PASSENGER;
           if (i == 0) p.departure_ = relative_time{c.at("dep").get<uint32_t>()};
           if (i + 1 == n) p.arrival_ = relative_time{c.at("arr").get<uint32_t>()};
           t->sequence_points_.emplace_back(p);
         }
         return ok(); }},
      {"day", [&](json const& c) { t->service_days_.set(day(c.at("d")), c.at("v")); return ok(); }},
      {"between", [&](json const& c) {
         json r = json::array();
         interval const w{.start_ = at(c.at("from")), .end_ = at(c.at("to"))};
         for (auto const d : t->departures(w)) {
           r.push_back(num(d));
           if (r.size() > 600) throw std::runtime_error("endless");
         }
         return ok(r); }},
      {"all", [&](json const&) {
         json r = json::array(), l = json::array();
         for (auto const d : t->departures()) {
           r.push_back(num(d));
           if (r.size() > 600) throw std::runtime_error("endless");
         }
         for (auto const& x : t->trips()) l.push_back(json::array({x.train_id_, num(x.anchor_)}));
         return ok(json{{"deps", r}, {"trips", l}, {"count", static_cast<int>(t->trip_count())}}); }},
      {"when", [&](json const& c) {
         auto const i = t->event_interval(at(json::array({c.at("d"), 0})));
         return ok(json::array({when(i.start_), when(i.end_)})); }},
      {"ends", [&](json const&) {
         return ok(json::array({t->first_departure().count(), t->last_arrival().count(), when(t->first_absolute_departure()), when(t->last_absolute_arrival())})); }},
  });
}
