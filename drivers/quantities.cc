#include "driver.h"

#include <cmath>
#include <sstream>
#include <vector>

#include "soro/base/fp_precision.h"
#include "soro/rolling_stock/freight.h"
#include "soro/si/constants.h"
#include "soro/si/units.h"
#include "soro/simulation/granularity.h"
#include "soro/simulation/kilometer_per_hour.h"
#include "soro/simulation/simulation_options.h"
#include "soro/utls/strong_types/fraction.h"
#include "soro/utls/strong_types/strong_type.h"
#include "soro/utls/strong_types/type_list.h"

using namespace soro;
using namespace soro::utls;
using soro::simulation::kilometer_per_hour;

// ------------------------------------------------------------ strong types
struct tag_a {};
template <typename P>
static json strong(json const& c) {
  using S = strong_type<P, tag_a>;
  S const a{static_cast<P>(c.at("a").get<int>())}, b{static_cast<P>(c.at("b").get<int>())};
  json r;
  auto num = [](S const& s) { return static_cast<long>(s.val_); };
  S x = a, y = b;
  r["add"] = num(x + y);
  r["sub"] = num(x - y);
  r["mul"] = num(x * y);
  r["div"] = num(x / y);
  r["kept"] = json::array({num(x), num(y)});
  r["cadd"] = num(a + b);
  r["csub"] = num(a - b);
  r["cmul"] = num(a * b);
  r["cdiv"] = num(S{a} / S{b});
  json e = json::array();
  { S z = a; S& w = (z += b); w.val_ += 1; e.push_back(num(z)); }
  { S z = a; S& w = (z -= b); w.val_ += 1; e.push_back(num(z)); }
  { S z = a; S& w = (z *= b); w.val_ += 1; e.push_back(num(z)); }
  { S z = a; S& w = (z /= b); w.val_ += 1; e.push_back(num(z)); }
  r["assign"] = e;
  r["rel"] = json::array({a == b, a != b, a < b, a <= b, a > b, a >= b});
  return r;
}

// ------------------------------------------------------------ fractions
template <typename F> struct dims;
template <typename N, typename D, typename P>
struct dims<fraction<N, D, P>> {
  static json get() {
    return json::array({count_v<meter_tag, N>, count_v<second_tag, N>, count_v<kilogram_tag, N>, count_v<ampere_tag, N>,
                        count_v<meter_tag, D>, count_v<second_tag, D>, count_v<kilogram_tag, D>, count_v<ampere_tag, D>});
  }
};
template <typename F>
static json describe(F const& f, double scale) {
  json r;
  r["val"] = std::llround(static_cast<double>(f.val_) * scale);
  r["dims"] = dims<F>::get();
  r["unit"] = get_fraction_unit_str(f);
  r["frac"] = f.is_fraction();
  r["unitless"] = f.is_unitless();
  auto const s = f.to_string();
  r["str"] = s == std::to_string(f.val_) + get_fraction_unit_str(f);
  std::stringstream ss;
  ss << f;
  r["out"] = ss.str() == s;
  return r;
}
using t4 = type_list<meter_tag, second_tag, kilogram_tag, ampere_tag>;
using unit0 = si::unitless;
using unit1 = si::length;
using unit2 = si::time;
using unit3 = si::weight;
using unit4 = si::current;
using unit5 = si::speed;
using unit6 = si::acceleration;
using unit7 = si::force;
using unit8 = si::area;
using unit9 = fraction<type_list<>, type_list<second_tag>, double>;
using unit10 = fraction<type_list<meter_tag, meter_tag, meter_tag, kilogram_tag>, type_list<second_tag, ampere_tag, ampere_tag>, double>;
using unit11 = fraction<type_list<ampere_tag, second_tag>, type_list<kilogram_tag, kilogram_tag, kilogram_tag, kilogram_tag, meter_tag>, double>;

template <typename F>
static void on_unit(int u, F&& f) {
  switch (u) {
    case 0: f(unit0{}); break; case 1: f(unit1{}); break; case 2: f(unit2{}); break; case 3: f(unit3{}); break;
    case 4: f(unit4{}); break; case 5: f(unit5{}); break; case 6: f(unit6{}); break; case 7: f(unit7{}); break;
    case 8: f(unit8{}); break; case 9: f(unit9{}); break; case 10: f(unit10{}); break; case 11: f(unit11{}); break;
  }
}

// ------------------------------------------------------------ type lists
template <int> struct el {};
struct absent {};
template <typename> struct decode;
template <> struct decode<type_list<>> { static void to(json&) {} };
template <int I, typename... R>
struct decode<type_list<el<I>, R...>> { static void to(json& j) { j.push_back(I); decode<type_list<R...>>::to(j); } };
template <typename L>
static json dec() { json j = json::array(); decode<L>::to(j); return j; }

template <typename L>
static json about() {
  json r;
  r["count"] = json::array({count_v<el<0>, L>, count_v<el<1>, L>, count_v<el<2>, L>, count_type<absent, L>::value});
  r["once"] = json::array({dec<remove_once_t<el<0>, L>>(), dec<remove_once_t<el<1>, L>>(), dec<remove_once_t<el<2>, L>>(), dec<remove_once_t<absent, L>>()});
  r["times"] = json::array({dec<remove_times_t<0, el<0>, L>>(), dec<remove_times_t<1, el<0>, L>>(), dec<remove_times_t<2, el<0>, L>>(), dec<remove_times_t<3, el<0>, L>>(),
                            dec<remove_times_t<2, el<1>, L>>(), dec<remove_times_t<3, el<2>, L>>()});
  r["front"] = json::array({dec<push_front_t<el<0>, L>>(), dec<push_front_t<el<1>, L>>(), dec<push_front_t<void, L>>()});
  r["concat"] = json::array({dec<concat_t<L, L>>(), dec<concat_t<L, type_list<>>>(), dec<concat_t<type_list<>, L>>(), dec<concat_t<L, type_list<el<2>, el<1>>>>(), dec<concat_t<type_list<el<0>, el<2>>, L>>()});
  r["repeat"] = json::array({dec<concat_times_t<0, L>>(), dec<concat_times_t<1, L>>(), dec<concat_times_t<2, L>>(), dec<concat_times_t<3, L>>()});
  return r;
}
template <std::size_t Depth, typename L>
static void lists(json& out) {
  json e;
  e["list"] = dec<L>();
  e["about"] = about<L>();
  out.push_back(e);
  if constexpr (Depth > 0) {
    lists<Depth - 1, concat_t<type_list<el<0>>, L>>(out);
    lists<Depth - 1, concat_t<type_list<el<1>>, L>>(out);
    lists<Depth - 1, concat_t<type_list<el<2>>, L>>(out);
  }
}

int main() {
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"strong", [](json const& c) { return ok(json::array({strong<int>(c), strong<long>(c)})); }},
      {"kmh", [](json const& c) {
         kilometer_per_hour const a{c.at("a").get<int>()}, b{c.at("b").get<int>()};
         json r;
         auto n = [](kilometer_per_hour v) { return static_cast<long>(v.km_h_); };
         r["add"] = n(a + b);
         r["sub"] = a >= b ? n(a - b) : -1;
         r["div"] = b.km_h_ ? n(a / b) : -1;
         r["mod"] = b.km_h_ ? n(a % b) : -1;
         kilometer_per_hour x = a;
         x += b;
         r["plus"] = n(x);
         kilometer_per_hour y = a;
         auto& z = ++y;
         r["inc"] = json::array({n(y), n(z), static_cast<long>(&z == &y)});
         r["conv"] = json::array({static_cast<long>(static_cast<std::size_t>(a)), std::lround(static_cast<float>(a))});
         std::stringstream ss;
         ss << a;
         r["str"] = ss.str();
         r["rel"] = json::array({a == b, a != b, a < b, a <= b, a > b, a >= b});
         r["kept"] = json::array({n(a), n(b)});
         return ok(r); }},
      {"frac", [](json const& c) {
         // numbers in 1024ths
         double const a = c.at("a").get<int>() / 1024.0, b = c.at("b").get<int>() / 1024.0, s = c.at("s").get<int>();
         json r = json::array();
         on_unit(c.at("u"), [&]<typename F>(F) {
           F const x{a}, y{b};
           auto v = [](F f) { return static_cast<long>(std::llround(f.val_ * 1024.0)); };
           json o;
           o["add"] = v(x + y);
           o["sub"] = v(x - y);
           o["neg"] = v(-x);
           o["scale"] = json::array({v(x * s), v(s * x)});
           F p{a}, q{a}, m{a};
           auto& pr = (p += y);
           auto& qr = (q -= y);
           auto const mr = (m *= s);
           o["assign"] = json::array({v(p), v(q), v(m), v(pr), v(qr), v(mr)});
           o["abs"] = v(utls::abs(x));
           o["rel"] = json::array({x == y, x != y, x < y, x <= y, x > y, x >= y, utls::equal(x, b), utls::equal(b, x), soro::equal(a, b), soro::zero(a)});
           o["valid"] = json::array({si::valid(x), si::valid(F{}), si::valid(si::INVALID<F>), si::valid(si::ZERO<F>), si::is_zero(x), si::is_zero(si::ZERO<F>)});
           o["kept"] = json::array({v(x), v(y)});
           o["is"] = json::array({x.template is<F>(), x.template is<fraction<type_list<second_tag>, type_list<meter_tag>, double>>(), utls::is_fraction_v<F>, utls::is_fraction_v<double>});
           o["desc"] = describe(x, 1024.0);
           r = o;
         });
         return ok(r); }},
      {"prod", [](json const& c) {
         double const a = c.at("a").get<int>(), b = c.at("b").get<int>();
         json r = json::array();
         on_unit(c.at("u"), [&]<typename F>(F) {
           on_unit(c.at("w"), [&]<typename G>(G) {
             F const x{a};
             G const y{b};
             r.push_back(describe(x * y, 1.0));
             r.push_back(describe(F{a * b} / y, 1.0));
           });
         });
         return ok(r); }},
      {"pow", [](json const& c) {
         double const a = c.at("a").get<int>();
         json r = json::array();
         on_unit(c.at("u"), [&]<typename F>(F) {
           if constexpr (!std::is_same_v<F, unit10> && !std::is_same_v<F, unit11>) {
             F const x{a};
             r.push_back(describe(x.template pow<1>(), 1.0));
             r.push_back(describe(x.template pow<2>(), 1.0));
             r.push_back(describe(x.template pow<3>(), 1.0));
             r.push_back(describe(utls::pow<1>(x), 1.0));
             r.push_back(describe(utls::pow<2>(x), 1.0));
             r.push_back(describe(utls::pow<3>(x), 1.0));
           }
         });
         return ok(r); }},
      {"convert", [](json const& c) {
         double const a = c.at("a").get<int>();
         fraction<type_list<meter_tag, kilogram_tag>, type_list<second_tag>, double> x{a};
         fraction<type_list<kilogram_tag, meter_tag>, type_list<second_tag>, double> const y = x;
         auto f = si::weight{a} * si::acceleration{2.0};
         si::force const g = si::acceleration{2.0} * si::weight{a} == f ? f : si::INVALID<si::force>;
         static_assert(!std::is_convertible_v<si::length, si::time>);
         static_assert(!std::is_convertible_v<si::speed, si::acceleration>);
         static_assert(!std::is_convertible_v<fraction<type_list<meter_tag>, type_list<>, double>, fraction<type_list<meter_tag>, type_list<>, float>>);
         return ok(json::array({std::lround(y.val_), std::lround(g.val_)})); }},
      {"si", [](json const& c) {
         int const k = c.at("k");
         double const x = k / 8.0;
         auto m = [](double d) { return static_cast<long>(std::llround(d * 8000.0)); };
         json r;
         r["m"] = m(si::as_m(si::from_m(x)));
         r["km"] = m(si::as_m(si::from_km(x)) / 1000.0);
         r["km8"] = static_cast<long>(std::llround(si::from_km(x).val_ * 8.0));
         r["s"] = m(si::as_s(si::from_s(x)));
         r["ms"] = m(si::from_m_s(x).val_);
         r["kmh"] = m(si::as_km_h(si::from_km_h(x)));
         r["kmh36"] = m(si::from_km_h(x * 3.6).val_);
         r["askmh"] = static_cast<long>(std::llround(si::as_km_h(si::from_m_s(x)) * 40.0));
         r["kg"] = m(si::from_kg(x).val_);
         r["ton8"] = static_cast<long>(std::llround(si::from_ton(x).val_ * 8.0));
         r["aston"] = m(si::as_ton(si::from_ton(x)));
         r["kgton"] = static_cast<long>(std::llround(si::as_ton(si::from_kg(x)) * 8000.0));
         r["a"] = m(si::from_m_s2(x).val_);
         r["u"] = m(si::as_precision(si::unitless{x}));
         return ok(r); }},
      {"consts", [](json const&) {
         json r;
         r["g"] = std::lround(si::GRAVITATIONAL.val_ * 1000.0);
         r["mass"] = std::lround(si::MASS_FACTOR.val_ * 1000.0);
         using namespace soro::simulation;
         r["gran"] = json::array({static_cast<long>(default_granularity::get<kilometer_per_hour>().km_h_), static_cast<long>(default_granularity::get<unixtime>().t_),
                                  static_cast<long>(default_granularity::get<duration>().d_)});
         r["kmh"] = json::array({static_cast<long>(kilometer_per_hour{}.km_h_), static_cast<long>(ZERO_KMH.km_h_)});
         json o = json::array();
         simulation_options d;
         o.push_back(d.use_halt_dists());
         o.push_back(d.use_runtime_dists());
         for (auto h : {enable_halt_dists::Off, enable_halt_dists::On})
           for (auto t : {enable_runtime_dists::Off, enable_runtime_dists::On}) {
             simulation_options const s{h, t};
             o.push_back(s.use_halt_dists());
             o.push_back(s.use_runtime_dists());
           }
         r["opts"] = o;
         json f = json::array();
         for (auto x : {rs::FreightTrain::YES, rs::FreightTrain::NO}) f.push_back(static_cast<bool>(x));
         r["freight"] = f;
         return ok(r); }},
      {"lists", [](json const&) { json r = json::array(); lists<3, type_list<>>(r); return ok(r); }},
  });
}
