// The drawing of an infrastructure: where the library puts stations and
// elements, in units the specification can compare (see infra.cc).
#define INFRA_PART
#include "infra.cc"

static constexpr double TRUE_PI = 3.14159265358979323846;
static double rad(double const d) { return d * TRUE_PI / 180.0; }
static int64_t whole(double const d) {
  return std::isfinite(d) && std::abs(d) < 2.0e9 ? static_cast<int64_t>(std::llround(d)) : 2000000000;
}
// how far east and north of a, in centimetres
static json offset(utls::gps const& a, utls::gps const& b) {
  auto const m = 6378137.0 * 100.0;
  return json::array({whole(rad(b.lon_ - a.lon_) * std::cos(rad(a.lat_)) * m), whole(rad(b.lat_ - a.lat_) * m)});
}
// direction in which b lies from a, east and north, in thousandths; distance in km
static json towards(utls::gps const& a, utls::gps const& b) {
  auto const la = rad(a.lat_), lb = rad(b.lat_), d = rad(b.lon_ - a.lon_);
  auto const e = std::sin(d) * std::cos(lb);
  auto const n = std::cos(la) * std::sin(lb) - std::sin(la) * std::cos(lb) * std::cos(d);
  auto const l = std::sqrt(e * e + n * n);
  if (l < 1e-12) return json::array({0, 0, 0});
  return json::array({whole(1000 * e / l), whole(1000 * n / l), whole(6378.137 * std::asin(std::min(1.0, l)))});
}

static json station_places() {
  json r = json::array();
  for (auto const& p : (*inf)->station_positions_) r.push_back(json::array({whole(p.lon_ * 1e6), whole(p.lat_ * 1e6)}));
  return r;
}
static json element_places() {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& s : i.stations_) {
    json l = json::array();
    for (auto const& e : s->elements_) {
      auto const o = offset(i.station_positions_[s->id_], i.element_positions_[e->id()]);
      l.push_back(json::array({e->id(), o[0], o[1]}));
    }
    r.push_back(l);
  }
  return json::array({i.element_positions_.size(), r});
}
static json directions() {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& s : i.stations_) {
    json l = json::array();
    for (auto const& b : s->borders_)
      l.push_back(json::array({b.element_->id(), b.neighbour_->id_, towards(i.station_positions_[s->id_], i.station_positions_[b.neighbour_->id_])}));
    r.push_back(l);
  }
  return r;
}

int main() {
  auto ops = infra_ops();
  ops.emplace("station_places", [](json const&) { return ok(station_places()); });
  ops.emplace("element_places", [](json const&) { return ok(element_places()); });
  ops.emplace("directions", [](json const&) { return ok(directions()); });
  return run_driver(ops);
}
