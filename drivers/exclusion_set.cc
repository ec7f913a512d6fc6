#include "driver.h"

#include "soro/infrastructure/exclusion/exclusion_set.h"

using namespace soro;
using namespace soro::infra;

static constexpr int R = 3;
static exclusion_set reg[R + 1];

static std::string order(std::partial_ordering const o) {
  return o == std::partial_ordering::equivalent ? "eq"
         : o == std::partial_ordering::less     ? "lt"
         : o == std::partial_ordering::greater  ? "gt"
                                                : "un";
}

static json obs(json const& c) {
  json r;
  for (auto const* k : {"exp", "iter", "cnt", "emp", "any", "has", "cmp", "sup", "eq"}) r[k] = json::array();
  for (int i = 1; i <= R; ++i) {
    auto const& a = reg[i];
    json e = json::array(), it = json::array(), has = json::array(), cmp = json::array(), sup = json::array(),
         eq = json::array();
    for (auto const x : a.expanded_set()) e.push_back(x);
    std::size_t guard = 0;
    for (auto x = a.begin(); x != a.end() && guard < 100000; ++x, ++guard) it.push_back(*x);
    for (auto const& p : c.at("probes")) has.push_back(static_cast<bool>(a[p.get<uint32_t>()]));
    for (int j = 1; j <= R; ++j) {
      cmp.push_back(order(a.compare(reg[j])));
      sup.push_back(a.contains(reg[j]));
      eq.push_back(a == reg[j]);
    }
    r["exp"].push_back(e);
    r["iter"].push_back(it);
    r["cnt"].push_back(a.count());
    r["emp"].push_back(a.empty());
    r["any"].push_back(a.any());
    r["has"].push_back(has);
    r["cmp"].push_back(cmp);
    r["sup"].push_back(sup);
    r["eq"].push_back(eq);
  }
  return ok(r);
}

int main() {
  auto const R_ = [](json const& c, char const* k) -> exclusion_set& { return reg[c.at(k).get<int>()]; };
  return run_driver({
      {"new",
       [&](json const&) {
         for (auto& r : reg) r = exclusion_set{};
         return ok();
       }},
      {"make",
       [&](json const& c) {
         soro::vector<uint32_t> ids;
         for (auto const& i : c.at("ids")) ids.push_back(i.get<uint32_t>());
         R_(c, "r") = make_exclusion_set(ids);
         return obs(c);
       }},
      {"set", [&](json const& c) { R_(c, "r").set(c.at("i").get<uint32_t>()); return obs(c); }},
      {"clear", [&](json const& c) { R_(c, "r").clear(); return obs(c); }},
      {"copy", [&](json const& c) { auto x = R_(c, "s"); R_(c, "r") = x; return obs(c); }},
      {"ior", [&](json const& c) { R_(c, "r") |= R_(c, "s"); return obs(c); }},
      {"isub", [&](json const& c) { R_(c, "r") -= R_(c, "s"); return obs(c); }},
      {"or", [&](json const& c) { R_(c, "t") = R_(c, "r") | R_(c, "s"); return obs(c); }},
      {"sub", [&](json const& c) { R_(c, "t") = R_(c, "r") - R_(c, "s"); return obs(c); }},
  });
}
