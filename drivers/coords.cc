#include "driver.h"

#include <cmath>
#include <filesystem>
#include <fstream>
#include <vector>
#include <unistd.h>

#include "soro/infrastructure/parsers/parse_station_coords.h"
#include "soro/utls/coordinates/cartesian.h"
#include "soro/utls/coordinates/gps.h"
#include "soro/utls/coordinates/polar.h"

using namespace soro;
using namespace soro::utls;
using V = std::vector<int>;

// degrees arrive in thousandths
static gps at(json const& j) { return {.lon_ = j[0].get<int>() / 1000.0, .lat_ = j[1].get<int>() / 1000.0}; }
static long mil(double d) { return std::isfinite(d) ? std::lround(std::max(-1.0e6, std::min(1.0e6, d)) * 1000.0) : 999999999; }
static json place(gps const& g) { return json::array({mil(g.lon_), mil(g.lat_)}); }
static long metres(double d) { return std::isfinite(d) ? std::lround(std::max(-1.0e9, std::min(1.0e9, d))) : 1999999999; }

int main() {
  std::clog.rdbuf(nullptr);
  auto const dir = std::filesystem::temp_directory_path() / ("verif-coords-" + std::to_string(getpid()));
  auto const rc = run_driver({
      {"new", [](json const&) { return ok(); }},
      {"between", [](json const& c) {
         auto const a = at(c.at("a")), b = at(c.at("b"));
         json r;
         r["ab"] = metres(a.distance(b));
         r["ba"] = metres(b.distance(a));
         r["aa"] = metres(a.distance(a) * 1000.0);
         return ok(r); }},
      {"bearing", [](json const& c) { return ok(mil(at(c.at("a")).bearing(at(c.at("b"))))); }},
      {"move", [](json const& c) {
         auto const a = at(c.at("a"));
         auto const b = a.move(c.at("d").get<int>(), c.at("b").get<int>() / 1000.0);
         json r;
         r["to"] = place(b);
         r["dist"] = metres(a.distance(b));
         r["bearing"] = mil(a.bearing(b));
         // and back again, the way that was taken
         r["back"] = metres(b.move(c.at("d").get<int>(), b.bearing(a)).distance(a));
         return ok(r); }},
      {"cartesian", [](json const& c) {
         auto const p = at(c.at("a")).to_cartesian();
         json r;
         r["p"] = json::array({std::lround(p.x_ / EARTH_RADIUS * 10000.0), std::lround(p.y_ / EARTH_RADIUS * 10000.0), std::lround(p.z_ / EARTH_RADIUS * 10000.0)});
         r["g"] = place(p.to_gps());
         return ok(r); }},
      {"to_gps", [](json const& c) {
         // points on the axes
         V const p = c.at("p");
         return ok(place(cartesian{.x_ = p[0] * EARTH_RADIUS, .y_ = p[1] * EARTH_RADIUS, .z_ = p[2] * EARTH_RADIUS}.to_gps())); }},
      {"valid", [](json const& c) { return ok(at(c.at("a")).valid()); }},
      {"missing", [](json const&) {
         return ok(json::array({gps{}.valid(), gps{.lon_ = 8.0}.valid(), gps{.lat_ = 49.0}.valid(), bounding_box{}.south_west_.valid(), bounding_box{}.north_east_.valid(),
                                gps{.lon_ = gps::INVALID, .lat_ = 1.0}.valid(), gps{.lon_ = 1.0, .lat_ = gps::MAX_INVALID}.valid()})); }},
      {"box", [](json const& c) {
         std::vector<gps> ps;
         for (auto const& p : c.at("ps")) ps.push_back(at(p));
         auto const b = get_bounding_box(ps);
         return ok(json::array({place(b.south_west_), place(b.north_east_)})); }},
      {"polar", [](json const& c) {
         polar const p{static_cast<double>(c.at("x").get<int>()), static_cast<double>(c.at("y").get<int>())};
         json r;
         r["dist"] = mil(p.dist_);
         r["bearing"] = mil(p.bearing_);
         return ok(r); }},
      {"angle", [](json const& c) {
         double const d = c.at("d").get<int>() / 1000.0;
         return ok(json::array({std::lround(to_rad(d) * 100000.0), mil(to_deg(to_rad(d))), std::lround(to_rad(static_cast<float>(d)) * 10000.0F)})); }},
      {"stations", [&](json const& c) {
         std::filesystem::create_directories(dir);
         auto const file = dir / "coords.csv";
         if (c.at("file").get<bool>()) {
           std::ofstream out(file);
           auto const lines = c.at("lines").get<std::vector<std::string>>();
           for (auto const& l : lines) out << l << "\n";
         }
         auto const names = c.at("names").get<std::vector<std::string>>();
         std::vector<infra::station> ss(names.size());
         soro::map<soro::string, infra::station::ptr> m;
         for (std::size_t i = 0; i < names.size(); ++i) {
           ss[i].id_ = static_cast<infra::station::id>(i);
           ss[i].ds100_ = names[i];
           m[soro::string(names[i])] = infra::station::ptr(&ss[i]);
         }
         auto const r = infra::parse_station_coords(file, m);
         json out = json::array();
         for (auto const& g : r) out.push_back(json::array({g.valid() ? 1 : 0, mil(g.lon_), mil(g.lat_)}));
         std::filesystem::remove(file);
         return ok(out); }},
  });
  std::filesystem::remove(dir);
  return rc;
}
