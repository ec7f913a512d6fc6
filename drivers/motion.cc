// Builds trains from descriptions of rolling stock and moves them.
#include "driver.h"

#include <cmath>
#include <memory>

#include "pugixml.hpp"

#include "soro/rolling_stock/parse_train_series.h"
#include "soro/rolling_stock/train_physics.h"
#include "soro/runtime/runtime_physics.h"

using namespace soro;

static soro::vector<rs::train_series> series;
static std::unique_ptr<rs::train_physics> tp;

static si::speed pace(json const& j) { return si::from_m_s(j.get<double>() / 1000.0); }
static si::length way(json const& j) { return si::from_m(j.get<double>() / 1000.0); }
static int64_t milli(double const d) { return std::llround(d * 1000.0); }

static json steps(runtime_results const& rs) {
  json r = json::array();
  for (auto const& x : rs) {
    r.push_back(json::array({milli(x.time_.val_), milli(x.distance_.val_), milli(x.speed_.val_)}));
    if (r.size() > 20000) break;
  }
  return r;
}

int main() {
  std::clog.rdbuf(nullptr);
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"train",
       [](json const& c) {
         pugi::xml_document d;
         d.load_string(c.at("xml").get<std::string>().c_str());
         series = rs::parse_train_series(d.child("XmlIssDaten").child("Stammdaten").child("Triebfahrzeugbaureihen"));
         soro::vector<rs::traction_vehicle> vs;
         for (auto const& v : c.at("vehicles")) {
           for (auto const& s : series) {
             if (s.get_key() == v[0].get<std::string>()) vs.push_back(s.variants_.at(v[1].get<uint32_t>()));
           }
         }
         auto const& t = c.at("t");
         tp = std::make_unique<rs::train_physics>(vs, si::from_kg(t.at("weight").get<double>()), way(t.at("len")), si::from_km_h(t.at("speed").get<double>()),
                                                  rs::CTC(t.at("ctc").get<bool>()), rs::FreightTrain(t.at("freight").get<bool>()));
         return ok(json::array({static_cast<int64_t>(tp->max_speed().val_ * 1000.0 + 1e-6), std::llround(tp->weight().val_), milli(tp->length().val_),
                                milli(tp->deacceleration().val_), static_cast<bool>(tp->freight()), static_cast<bool>(tp->ctc())}));
       }},
      {"forces",
       [](json const& c) {
         json r = json::array();
         for (auto const& v : c.at("v")) {
           r.push_back(json::array({std::llround(tp->tractive_force(pace(v)).val_), std::llround(tp->resistive_force(pace(v)).val_)}));
         }
         return ok(r);
       }},
      {"too_fast", [](json const& c) { return ok(std::llround(tp->tractive_force(pace(c.at("v"))).val_)); }},
      {"accelerate", [](json const& c) { return ok(steps(accelerate(*tp, pace(c.at("v0")), pace(c.at("vt")), way(c.at("far"))))); }},
      {"brake", [](json const& c) { return ok(steps(brake(*tp, pace(c.at("v0")), pace(c.at("vt"))))); }},
      {"coast", [](json const& c) { return ok(steps(coast(pace(c.at("v")), way(c.at("far"))))); }},
  });
}
