#include "driver.h"

#include <cmath>
#include <vector>

#include "soro/base/soro_types.h"
#include "soro/si/units.h"
#include "soro/utls/math/piecewise_function.h"
#include "soro/utls/math/polynomial.h"

using namespace soro;
using namespace soro::utls;
using V = std::vector<int>;

static long n512(double d) { return std::lround(d * 512.0); }

// drag of a train: force in terms of speed
using f3 = decltype(std::declval<si::force>() / std::declval<si::speed>() / std::declval<si::speed>());
using f2 = decltype(std::declval<si::force>() / std::declval<si::speed>());
using f1 = si::force;

template <typename P>
static json many(P const& p, V const& xs) {
  json r = json::array();
  for (int const x : xs) r.push_back(n512(static_cast<double>(p(x / 8.0))));
  return r;
}
template <typename P>
static json manyf(P const& p, V const& xs) {
  json r = json::array();
  for (int const x : xs) r.push_back(n512(p(static_cast<float>(x) / 8.0F)));
  return r;
}

int main() {
  std::clog.rdbuf(nullptr);
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"poly", [](json const& c) {
         V const a = c.at("a"), xs = c.at("xs");
         std::vector<double> d(a.begin(), a.end());
         std::vector<float> f(a.begin(), a.end());
         json r;
         if (a.size() == 1) { auto const p = make_polynomial(double{d[0]}); r["val"] = many(p, xs); r["deg"] = p.degree(); auto const q = make_polynomial(float{f[0]}); r["valf"] = manyf(q, xs); }
         else if (a.size() == 2) { auto const p = make_polynomial(double{d[0]}, double{d[1]}); r["val"] = many(p, xs); r["deg"] = p.degree(); auto const q = make_polynomial(float{f[0]}, float{f[1]}); r["valf"] = manyf(q, xs); }
         else if (a.size() == 3) { auto const p = make_polynomial(double{d[0]}, double{d[1]}, double{d[2]}); r["val"] = many(p, xs); r["deg"] = p.degree(); auto const q = make_polynomial(float{f[0]}, float{f[1]}, float{f[2]}); r["valf"] = manyf(q, xs); }
         else { auto const p = make_polynomial(double{d[0]}, double{d[1]}, double{d[2]}, double{d[3]}); r["val"] = many(p, xs); r["deg"] = p.degree(); auto const q = make_polynomial(float{f[0]}, float{f[1]}, float{f[2]}, float{f[3]}); r["valf"] = manyf(q, xs); }
         return ok(r); }},
      {"typed", [](json const& c) {
         V const a = c.at("a"), xs = c.at("xs");
         auto const p = make_polynomial(f3{static_cast<double>(a[0])}, f2{static_cast<double>(a[1])}, f1{static_cast<double>(a[2])});
         static_assert(std::is_same_v<decltype(p(si::speed{1.0})), si::force>);
         json r = json::array();
         for (int const x : xs) r.push_back(n512(p(si::speed{x / 8.0}).val_));
         return ok(r); }},
      {"none", [](json const&) {
         polynomial<> const p;
         return ok(json::array({n512(p(3.0)), n512(static_cast<double>(p(2)))})); }},
      {"piecewise", [](json const& c) {
         V const from = c.at("from"), to = c.at("to"), xs = c.at("xs");
         auto const cs = c.at("cs").get<std::vector<V>>();
         using P = decltype(make_polynomial(1.0, 1.0, 1.0));
         using T = decltype(make_polynomial(f3{}, f2{}, f1{}));
         soro::vector<piece<P, double>> ps;
         soro::vector<piece<T, si::speed>> ts;
         for (std::size_t i = 0; i < from.size(); ++i) {
           double a = cs[i][0], b = cs[i][1], d = cs[i][2];
           ps.push_back(make_piece(P{{a, b, d}}, from[i] / 1024.0, to[i] / 1024.0));
           ts.push_back(make_piece(T{{f3{a}, f2{b}, f1{d}}}, si::speed{from[i] / 1024.0}, si::speed{to[i] / 1024.0}));
         }
         json r;
         r["cont"] = json::array({is_continuous(ps), is_continuous(ts)});
         auto made = [](auto v) { try { auto const f = make_piecewise(std::move(v)); return f.pieces_.size() > 0; } catch (std::exception const&) { return false; } };
         r["made"] = json::array({made(ps), made(ts)});
         piecewise_function<piece<P, double>> const f{ps};
         piecewise_function<piece<T, si::speed>> const g{ts};
         json vals = json::array();
         for (int const x : xs) {
           json a, b;
           try { a = json::array({1, n512(f(x / 8.0))}); } catch (std::exception const&) { a = json::array({0, 0}); }
           try { b = json::array({1, n512(g(si::speed{x / 8.0}).val_)}); } catch (std::exception const&) { b = json::array({0, 0}); }
           vals.push_back(json::array({a, b}));
         }
         r["vals"] = vals;
         // the pieces themselves
         json own = json::array();
         for (auto const& p : ps) own.push_back(n512(p(2.0)));
         r["own"] = own;
         return ok(r); }},
      {"two", [](json const& c) {
         V const a = c.at("a");
         auto p = [&](int i) { return make_polynomial(static_cast<double>(a[i]), static_cast<double>(a[i + 1])); };
         json r;
         try {
           auto const f = make_piecewise(make_piece(p(0), 0.0, 1.0), make_piece(p(2), c.at("gap").get<int>() / 1024.0 + 1.0, 4.0));
           r = json::array({1, n512(f(0.5)), n512(f(3.0))});
         } catch (std::exception const&) { r = json::array({0, 0, 0}); }
         return ok(r); }},
  });
}
