// Ordering graphs of loaded timetables.
#define RUNS_PART
#include "runs.cc"

#include "soro/simulation/ordering/check_exclusion_paths.h"
#include "soro/simulation/ordering/get_cycle.h"
#include "soro/simulation/ordering/ordering_graph.h"

using namespace soro::simulation;

static absolute_time at(json const& j) { return absolute_time{sc::duration_cast<absolute_time::duration>(sc::seconds{j[0].get<int64_t>() * 86400 + j[1].get<int64_t>()})}; }

// for every train: first departure, last arrival, arrivals at its main signals, path
static json usages() {
  return per_train([&](train const& t) {
    json r = json::array();
    for (auto const& y : runtime::runtime_calculation(t, *inf, {type::MAIN_SIGNAL}).times_) r.push_back(secs(y.arrival_));
    return json{{"dep", secs(t.first_departure())}, {"arr", secs(t.last_arrival())}, {"times", r}, {"path", ids(t.path_)}, {"id", t.id_}};
  });
}

static json order(json const& q) {
  ordering_graph::filter f;
  if (!q.at("all").get<bool>()) f.interval_ = {.start_ = at(q.at("from")), .end_ = at(q.at("to"))};
  for (auto const& x : q.at("trains")) f.trains_.push_back(x.get<uint32_t>());
  bool const plain = q.at("all").get<bool>() && f.trains_.empty();
  ordering_graph og = plain ? ordering_graph(*inf, *table) : ordering_graph(*inf, *table, f);
  json ns = json::array(), ts = json::array(), nx = json::array(), cuts = json::array();
  std::vector<std::pair<unsigned, unsigned>> es;
  for (auto const& n : og.nodes_) {
    ns.push_back(json::array({n.id_, n.ir_id_, n.train_id_, ids(n.in_), ids(n.out_)}));
    for (auto const o : n.out_) es.emplace_back(n.id_, o);
  }
  for (auto const& [trip, range] : og.trip_to_nodes_) {
    json l = json::array();
    for (auto const& n : og.trip_nodes(trip)) l.push_back(n.id_);
    ts.push_back(json::array({trip.train_id_, static_cast<int64_t>(trip.anchor_.time_since_epoch().count()) / 86400, range.first, range.second, l}));
    for (auto i = range.first; i + 1 < range.second; ++i) nx.push_back(json::array({i, og.nodes_[i].next(og).id_}));
  }
  bool const paths = has_exclusion_paths(og, *inf);
  auto const cycle = get_cycle(og);
  for (auto const& c : q.at("cut")) {
    if (es.empty()) break;
    auto const e = es[c.get<unsigned>() % es.size()];
    auto g = og;
    std::erase(g.nodes_[e.first].out_, e.second);
    std::erase(g.nodes_[e.second].in_, e.first);
    cuts.push_back(json::array({e.first, e.second, has_exclusion_paths(g, *inf)}));
  }
  return json{{"nodes", ns}, {"trips", ts}, {"next", nx}, {"paths", paths}, {"cyclic", cycle.has_value()}, {"cuts", cuts}};
}

#ifndef ORDERS_PART
int main() {
  auto m = runs_ops();
  m["usages"] = [](json const&) { return ok(usages()); };
  m["orders"] = [](json const& c) {
    json r = json::array();
    for (auto const& q : c.at("q")) {
      try {
        r.push_back(json{{"ok", true}, {"got", order(q)}});
      } catch (json::exception const&) {
        throw;
      } catch (std::exception const&) {
        r.push_back(json{{"ok", false}, {"got", json::array()}});
      }
    }
    return ok(r);
  };
  return run_driver(m);
}
#endif
