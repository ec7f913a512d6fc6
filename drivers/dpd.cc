#include "driver.h"

#include <memory>

#include "soro/utls/unixtime.h"
#include "soro/simulation/dpd.h"
#include "soro/simulation/simulation_options.h"

using namespace soro;
using namespace soro::simulation;
using soro::utls::duration;
using soro::utls::unixtime;

static long num(unixtime t) { return static_cast<long>(t.t_); }
static long num(duration t) { return static_cast<long>(t.d_); }
static long num(kilometer_per_hour v) { return v.km_h_; }
template <typename T>
static T mk(long x) {
  if constexpr (std::is_same_v<T, kilometer_per_hour>) return kilometer_per_hour{static_cast<uint16_t>(x)};
  else return T{static_cast<time_t>(x)};
}
static long units(probability_t p) { return std::lround(p * 64.0F); }

template <typename A>
struct leaf {
  dpd<default_granularity, A> d_;
  static json cells(dpd<default_granularity, A> const& d) {
    json r = json::array();
    for (auto const& [x, p] : d) r.push_back(json::array({num(x), units(p)}));
    return r;
  }
  json view() {
    json r;
    r["empty"] = d_.empty();
    r["cells"] = cells(d_);
    r["sum"] = units(subsum(d_));
    r["len"] = static_cast<int>(d_.end() - d_.begin());
    r["gran"] = num(d_.get_granularity());
    json it = json::array();
    if constexpr (std::is_same_v<A, unixtime>)
      for (auto const& [t, p] : iterate(d_)) it.push_back(json::array({num(t), units(p)}));
    r["iter"] = it;
    return ok(r);
  }
  json ins(json const& c) { d_.insert(mk<A>(c.at("t")), static_cast<float>(c.at("p").get<int>()) / 64.0F); return view(); }
  json probe(json const& c) {
    json r;
    A const x = mk<A>(c.at("t"));
    r["idx"] = d_.to_idx(x);
    r["val"] = units(d_[x]);
    return ok(r);
  }
  json write(json const& c) { d_[mk<A>(c.at("t"))] = static_cast<float>(c.at("p").get<int>()) / 64.0F; return view(); }
};
template <typename A, typename B>
struct nested {
  dpd<default_granularity, A, B> d_;
  json view() {
    json r;
    r["empty"] = d_.empty();
    json cs = json::array();
    for (auto const& [x, in] : d_) cs.push_back(json::array({json::array({json::array({num(x), 0})}), leaf<B>::cells(in)}));
    r["cells"] = cs;
    r["sum"] = units(sum(d_));
    r["len"] = static_cast<int>(d_.end() - d_.begin());
    r["gran"] = json::array({num(d_.get_granularity()), num(d_.template get_granularity<B>())});
    json it = json::array();
    if constexpr (std::is_same_v<A, unixtime> && std::is_same_v<B, kilometer_per_hour>)
      for (auto const& [t, v, p] : iterate(d_)) it.push_back(json::array({num(t), num(v), units(p)}));
    r["iter"] = it;
    return ok(r);
  }
  json ins(json const& c) { d_.insert(mk<A>(c.at("t")), mk<B>(c.at("v")), static_cast<float>(c.at("p").get<int>()) / 64.0F); return view(); }
  json probe(json const& c) {
    json r;
    A const x = mk<A>(c.at("t"));
    r["idx"] = d_.to_idx(x);
    r["cells"] = leaf<B>::cells(d_[x]);
    return ok(r);
  }
};
struct all {
  leaf<unixtime> a; leaf<duration> b; leaf<kilometer_per_hour> c;
  nested<unixtime, kilometer_per_hour> d; nested<unixtime, duration> e; nested<unixtime, unixtime> f;
};
static std::unique_ptr<all> x;

int main() {
  return run_driver({
      {"new", [](json const&) { x = std::make_unique<all>(); return ok(); }},
      {"ins", [](json const& c) {
         int const k = c.at("kind");
         return k == 0 ? x->a.ins(c) : k == 1 ? x->b.ins(c) : x->c.ins(c); }},
      {"ins2", [](json const& c) {
         int const k = c.at("kind");
         return k == 3 ? x->d.ins(c) : k == 4 ? x->e.ins(c) : x->f.ins(c); }},
      {"probe", [](json const& c) {
         int const k = c.at("kind");
         return k == 0 ? x->a.probe(c) : k == 1 ? x->b.probe(c) : x->c.probe(c); }},
      {"write", [](json const& c) {
         int const k = c.at("kind");
         return k == 0 ? x->a.write(c) : k == 1 ? x->b.write(c) : x->c.write(c); }},
      {"probe2", [](json const& c) {
         int const k = c.at("kind");
         return k == 3 ? x->d.probe(c) : k == 4 ? x->e.probe(c) : x->f.probe(c); }},
      {"round", [](json const& c) {
         long const n = c.at("n"), m = c.at("m");
         return ok(json::array({num(round_to_nearest_multiple(unixtime{n}, unixtime{m})), num(round_to_nearest_multiple(duration{n}, duration{m})),
                                num(round_to_nearest_multiple(mk<kilometer_per_hour>(n % 60000), mk<kilometer_per_hour>(m))),
                                static_cast<long>(round_to_nearest_multiple(static_cast<int>(n), static_cast<int>(m)))})); }},
      {"back", [](json const& c) {   // steps of an iterator over times
         dpd<default_granularity, unixtime> d;
         for (auto const& t : c.at("ts")) d.insert(unixtime{t.get<long>()}, 0.5F);
         json r = json::array();
         auto it = d.end();
         long const first = num((*d.begin()).first);
         int n = static_cast<int>(d.end() - d.begin());
         auto fw = d.begin();
         for (int i = 0; i + 1 < n; ++i) ++fw;
         for (; n > 0; --n) { auto const [t, p] = *fw; r.push_back(json::array({num(t), units(p)})); if (n > 1) --fw; }
         (void)it; (void)first;
         return ok(r); }},
  });
}
