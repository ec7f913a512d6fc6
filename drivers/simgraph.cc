// The simulation graph: nodes of train runs, order between them, readiness,
// paths, and the later of two independent times.
#include "driver.h"

#include <memory>

#include "soro/simulation/sim_graph.h"

using namespace soro;
using namespace soro::simulation;
using soro::utls::unixtime;

namespace soro::simulation {
TimeDPD fold_max(TimeDPD const& dpd1, TimeDPD const& dpd2);
}

static json opt(sim_node::id const i) { return i == sim_node::INVALID ? json(-1) : json(static_cast<int64_t>(i)); }

static json view(sim_graph const& g) {
  json ns = json::array(), ts = json::array();
  for (auto const& n : g.nodes_) {
    json in = json::array(), out = json::array();
    for (auto const i : n.in()) in.push_back(opt(i));
    for (auto const i : n.out()) out.push_back(opt(i));
    ns.push_back(json::array({opt(n.id_), static_cast<int64_t>(n.train_id_), n.has_pred(), opt(n.train_pred()), n.has_succ(), opt(n.train_succ()),
                              in, out, n.order_in().size(), n.order_out().size(), n.ir_id_ == infra::interlocking_route::INVALID}));
  }
  for (auto const& [a, b] : g.train_to_sim_nodes_) ts.push_back(json::array({static_cast<int64_t>(a), opt(b)}));
  return json{{"nodes", ns}, {"trains", ts}};
}

static std::unique_ptr<sim_graph> graph_of(json const& c) {
  static infra::infrastructure const inf;
  static std::vector<std::unique_ptr<tt::timetable>> keep;
  tt::base_timetable base;
  for (int i = 0; i < c.at("trains").get<int>(); ++i) {
    base.trains_.emplace_back();
    base.trains_.back().id_ = static_cast<tt::train::id>(i);
  }
  keep.push_back(std::make_unique<tt::timetable>(std::move(base)));
  auto g = std::make_unique<sim_graph>(inf, *keep.back());
  for (auto const& e : c.at("edges")) {
    auto const a = e[0].get<sim_node::id>(), b = e[1].get<sim_node::id>();
    g->nodes_[a].out_.push_back(b);
    g->nodes_[b].in_.push_back(a);
  }
  return g;
}

static TimeDPD dist(json const& d) {
  TimeDPD r;
  for (auto const& x : d) r.insert(unixtime{static_cast<time_t>(x[0].get<long>())}, static_cast<float>(x[1].get<int>()) / 64.0F);
  return r;
}

int main() {
  std::map<std::string, handler> ops;
  ops["new"] = [](json const&) { return json::array({"ok"}); };
  ops["graph"] = [](json const& c) { return ok(view(*graph_of(c))); };
  ops["ready"] = [](json const& c) {
    auto const g = graph_of(c);
    simulation_result r{*g};
    r.results_.resize(g->nodes_.size());
    for (auto const& i : c.at("done")) r.results_[i.get<uint32_t>()].exit_dpd_.insert(unixtime{0}, kilometer_per_hour{1}, 0.5F);
    for (auto const& i : c.at("entered")) {
      r.results_[i.get<uint32_t>()].entry_dpd_.insert(unixtime{0}, kilometer_per_hour{1}, 0.5F);
      r.results_[i.get<uint32_t>()].eotd_dpd_.insert(unixtime{0}, 0.5F);
    }
    json f = json::array(), y = json::array();
    for (auto const& n : g->nodes_) {
      if (n.finished(r)) f.push_back(opt(n.id_));
      if (n.ready(*g, r)) y.push_back(opt(n.id_));
    }
    return ok(json{{"finished", f}, {"ready", y}});
  };
  ops["paths"] = [](json const& c) {
    auto const g = graph_of(c);
    json r = json::array();
    for (auto const& a : g->nodes_)
      for (auto const& b : g->nodes_)
        if (a.id_ != b.id_ && g->path_exists(a.id_, b.id_)) r.push_back(json::array({opt(a.id_), opt(b.id_)}));
    return ok(r);
  };
  ops["later"] = [](json const& c) {
    json r = json::array();
    for (auto const& [t, p] : fold_max(dist(c.at("a")), dist(c.at("b"))))
      r.push_back(json::array({static_cast<long>(t.t_), static_cast<long>(std::lround(p * 4096.0F))}));
    return ok(r);
  };
  return run_driver(ops);
}
