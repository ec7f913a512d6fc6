// The speed intervals and running times of the trains of loaded timetables.
#define TIMETABLE_PART
#include "timetable.cc"

#include "soro/infrastructure/graph/type_set.h"
#include "soro/runtime/interval.h"
#include "soro/runtime/runtime.h"

static type_set types_of(json const& c) {
  std::map<std::string, infra::type> const names{
      {"ms", type::MAIN_SIGNAL},     {"as", type::APPROACH_SIGNAL}, {"hlt", type::HALT},        {"spl", type::SPEED_LIMIT},
      {"ps", type::PROTECTION_SIGNAL}, {"rtcp", type::RUNTIME_CHECKPOINT}, {"rtcp_u", type::RUNTIME_CHECKPOINT_UNDIRECTED},
      {"border", type::BORDER},      {"eotd", type::EOTD},          {"simple_switch", type::SIMPLE_SWITCH},
      {"slope", type::SLOPE},        {"tunnel", type::TUNNEL}};
  type_set ts({type::INVALID});
  switch (c.at("types").size()) {
#define N(i) names.at(c.at("types")[i].get<std::string>())
    case 0: break;
    case 1: ts = type_set({N(0)}); break;
    case 2: ts = type_set({N(0), N(1)}); break;
    case 3: ts = type_set({N(0), N(1), N(2)}); break;
    default: ts = type_set({N(0), N(1), N(2), N(3)}); break;
#undef N
  }
  return ts;
}

static int64_t mms(si::speed const s) { return si::valid(s) ? std::llround(s.val_ * 1000.0) : -1; }

template <typename Fn>
static json per_train(Fn&& fn) {
  json r = json::array();
  if (table == nullptr) return r;
  for (auto const& t : (*table)->trains_) {
    json x;
    try {
      x = json{{"ok", true}, {"got", fn(t)}};
    } catch (std::exception const& e) {
      x = json{{"ok", false}, {"got", json::array()}};
    }
    r.push_back(x);
  }
  return r;
}

static std::map<std::string, handler> runs_ops() {
  std::clog.rdbuf(nullptr);
  auto m = timetable_ops();
  m["intervals"] = [](json const& c) {
    auto const ts = types_of(c);
    return ok(per_train([&](train const& t) {
      json r = json::array();
      for (auto const& i : runtime::get_interval_list(t, ts, *inf)) {
        json ev = json::array();
        for (auto const& e : i.events_) ev.push_back(json::array({nid(e.node_), mm(e.distance_)}));
        r.push_back(json::array({mm(i.distance_), mms(i.limit_left_), mms(i.limit_right_),
                                 i.sequence_point_.has_value() ? *i.sequence_point_ - t.sequence_points_.data() : -1, ev}));
      }
      return r;
    }));
  };
  m["runs"] = [](json const& c) {
    auto const ts = types_of(c);
    return ok(per_train([&](train const& t) {
      auto const x = runtime::runtime_calculation(t, *inf, ts);
      json r = json::array(), h = json::array();
      for (auto const& y : x.times_) r.push_back(json::array({y.element_->id(), secs(y.arrival_), secs(y.departure_)}));
      for (auto const y : x.halt_indices_) h.push_back(y);
      return json::array({r, h});
    }));
  };
  return m;
}

#ifndef RUNS_PART
int main() { return run_driver(runs_ops()); }
#endif
