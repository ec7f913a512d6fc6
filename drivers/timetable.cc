// Loads timetables on top of loaded infrastructure and reports what a user of
// the library can see of the trains.
#define INFRA_PART
#include "infra.cc"

#include "soro/timetable/timetable.h"

using namespace soro::tt;

static std::unique_ptr<timetable> table;

static json secs(relative_time const t) { return valid(t) ? json(static_cast<int64_t>(t.count())) : json(-1); }
static json abs_time(absolute_time const t) {
  auto const s = static_cast<int64_t>(t.time_since_epoch().count());
  return json::array({s / 86400, s % 86400});
}
static int64_t milli(double const d) { return std::llround(d * 1000.0); }

static char const* kind(sequence_point const& p) {
  return p.is_halt(sequence_point::type::OPERATIONS)  ? "operations"
         : p.is_halt(sequence_point::type::REQUEST)   ? "request"
         : p.is_halt(sequence_point::type::PASSENGER) ? "passenger"
         : p.is_transit()                             ? "transit"
                                                      : "none";
}

static json train_json(train const& t) {
  json sps = json::array(), days = json::array();
  for (auto const& p : t.sequence_points_) {
    sps.push_back(json::array({p.station_route_, kind(p), secs(p.arrival_), secs(p.departure_),
                               static_cast<int64_t>(sc::duration_cast<seconds>(p.min_stop_time_).count())}));
  }
  // the first service day in absolute terms
  json abs = json::array();
  if (t.trip_count() > 0) {
    auto const day = t.service_days_.first_set_date();
    date::year_month_day const ymd{sc::floor<date::days>(day)};
    auto const iv = t.event_interval(day);
    abs = json::array({abs_time(t.first_absolute_departure()), abs_time(t.last_absolute_arrival()), abs_time(iv.start_), abs_time(iv.end_)});
    for (auto const& p : t.sequence_points_) {
      if (valid(p.arrival_)) abs.push_back(abs_time(p.absolute_arrival(ymd)));
      if (valid(p.departure_)) abs.push_back(abs_time(p.absolute_departure(ymd)));
    }
  }
  int64_t measurable = 0, timed = 0;
  for (auto const& p : t.sequence_points_) {
    measurable += p.is_measurable() ? 1 : 0;
    timed += p.has_transit_time() && p.transit_time() == p.departure_ ? 1 : 0;
  }
  for (auto const d : t.departures()) {
    days.push_back(static_cast<int64_t>(d.time_since_epoch().count()) / 86400);
    if (days.size() > 600) break;
  }
  return json{{"id", t.id_},
              {"number", json::array({t.number_.main_, t.number_.sub_})},
              {"break", json::array({t.break_in_, t.break_out_})},
              {"path", ids(t.path_)},
              {"points", sps},
              {"days", days},
              {"trips", t.trip_count()},
              {"halts", t.total_halts()},
              {"freight", t.is_freight()},
              {"ctc", t.has_ctc() || t.ctc() == rs::CTC::YES},
              {"abs", abs},
              {"points2", json::array({measurable, timed})},
              {"length", milli(t.physics_.length().val_)},
              {"weight", milli(t.physics_.weight().val_)},
              {"speed", mmh(t.physics_.max_speed())}};
}

static json trains() {
  json r = json::array();
  if (table == nullptr) return r;
  for (auto const& t : (*table)->trains_) r.push_back(train_json(t));
  return json{{"trains", r},
              {"source", std::string((*table)->source_)},
              {"from", abs_time((*table)->interval_.start_)},
              {"to", abs_time((*table)->interval_.end_)}};
}

static json train_walks() {
  json r = json::array();
  if (table == nullptr) return r;
  for (auto const& t : (*table)->trains_) {
    json w = json::array();
    for (auto const& tn : t.iterate(*inf)) {
      w.push_back(json::array({nid(tn.node_), tn.omitted(),
                               tn.sequence_point_.has_value() ? json(*tn.sequence_point_ - t.sequence_points_.data()) : json(-1)}));
      if (w.size() > 100000) break;
    }
    r.push_back(json{{"walk", w},
                     {"start", nid(t.get_start_node(*inf))},
                     {"firstsr", t.first_station_route(*inf)->id_},
                     {"lastsr", t.last_station_route(*inf)->id_},
                     {"length", mm(t.path_length(*inf))}});
  }
  return r;
}

static std::map<std::string, handler> timetable_ops() {
  auto m = infra_ops();
  m["timetable"] = [](json const& c) {
    table.reset();
    timetable_options o;
    o.timetable_path_ = c.at("dir").get<std::string>();
    if (c.value("try", false)) {
      auto r = try_parsing_timetable(o, *inf);
      if (!r) return json::array({"ok", "refused"});
      table = std::make_unique<timetable>(std::move(*r));
    } else {
      table = std::make_unique<timetable>(o, *inf);
    }
    return ok("read");
  };
  m["trains"] = [](json const&) { return ok(trains()); };
  m["train_walks"] = [](json const&) { return ok(train_walks()); };
  return m;
}

#ifndef TIMETABLE_PART
int main() { return run_driver(timetable_ops()); }
#endif
