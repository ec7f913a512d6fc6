#include "driver.h"

#include <set>
#include <vector>

#include "soro/simulation/ordering/get_cycle.h"
#include "soro/simulation/ordering/remove_transitive_edges.h"
#include "soro/utls/graph/has_cycle.h"
#include "soro/utls/graph/traversal.h"

using namespace soro;
using simulation::ordering_graph;
using simulation::ordering_node;
using G = std::vector<std::vector<unsigned>>;

static ordering_graph make(G const& g) {
  ordering_graph og;
  og.nodes_.resize(g.size());
  for (unsigned i = 0; i < g.size(); ++i) og.nodes_[i].id_ = i;
  for (unsigned i = 0; i < g.size(); ++i)
    for (auto const to : g[i]) {
      og.nodes_[i].out_.push_back(to);
      og.nodes_[to].in_.push_back(i);
    }
  return og;
}

template <typename Node, typename F>
static json walk(json const& c, G const& g, F&& number) {
  json log = json::array();
  std::set<unsigned> const stop_n = c.at("stop_n").get<std::set<unsigned>>();
  std::set<std::pair<unsigned, unsigned>> const stop_e = c.at("stop_e").get<std::set<std::pair<unsigned, unsigned>>>();
  std::vector<Node> nodes;
  for (unsigned i = 0; i < g.size(); ++i) nodes.push_back(number(i));
  auto index = [&](Node const n) { for (unsigned i = 0; i < nodes.size(); ++i) if (nodes[i] == n) return i; return 999U; };
  auto neighbours = [&](Node const n) { std::vector<Node> r; for (auto const x : g[index(n)]) r.push_back(nodes[x]); return r; };
  auto on_node = [&](Node const n, Node const p) { if (log.size() > 3000) throw std::runtime_error("endless"); log.push_back(json::array({index(n), index(p), 0})); return stop_n.contains(index(n)); };
  auto on_edge = [&](Node const a, Node const b) { if (log.size() > 3000) throw std::runtime_error("endless"); log.push_back(json::array({index(a), index(b), 1})); return stop_e.contains({index(a), index(b)}); };
  Node const start = nodes[c.at("start").get<unsigned>()];
  if (c.at("edges").get<bool>()) {
    if (c.at("deep").get<bool>()) utls::dfs(start, neighbours, on_node, on_edge); else utls::bfs(start, neighbours, on_node, on_edge);
  } else {
    if (c.at("deep").get<bool>()) utls::dfs(start, neighbours, on_node); else utls::bfs(start, neighbours, on_node);
  }
  return log;
}

int main() {
  std::clog.rdbuf(nullptr);
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"has_cycle", [](json const& c) {
         G const g = c.at("g");
         return ok(utls::has_cycle(g, [](G const& x, auto const n) -> auto const& { return x[n]; })); }},
      {"cycle", [](json const& c) {
         auto const og = make(c.at("g"));
         auto const r = simulation::get_cycle(og);
         json all = json::array();
         for (auto const& x : simulation::get_cycles(og)) all.push_back(x);
         json one = json::array();
         if (r) one = *r;
         return ok(json{{"has", r.has_value()}, {"cycle", one}, {"all", all}}); }},
      {"walk", [](json const& c) {
         G const g = c.at("g");
         static int places[64];
         if (c.at("kind") == 0) return ok(walk<unsigned>(c, g, [](unsigned i) { return i; }));
         if (c.at("kind") == 1) return ok(walk<int const*>(c, g, [](unsigned i) { return static_cast<int const*>(&places[i]); }));
         return ok(walk<std::uint64_t>(c, g, [](unsigned i) { return (1ULL << 40U) * (i + 1ULL); })); }},
      {"reduce", [](json const& c) {
         auto og = make(c.at("g"));
         simulation::remove_transitive_edges(og);
         if (c.at("twice").get<bool>()) simulation::remove_transitive_edges(og);
         json out = json::array(), in = json::array(), ids = json::array();
         for (auto const& n : og.nodes_) { out.push_back(n.out_); in.push_back(n.in_); ids.push_back(n.id_); }
         return ok(json{{"out", out}, {"in", in}, {"ids", ids}}); }},
  });
}
