// Loads infrastructure descriptions with the real library and reports what a
// user of the library can see of the result.
#include "driver.h"

#include <cmath>
#include <cstdlib>
#include <memory>

#include "soro/infrastructure/exclusion/exclusion_elements.h"
#include "soro/infrastructure/infrastructure.h"
#include "soro/infrastructure/parsers/iss/get_infra_stats.h"
#include "soro/infrastructure/parsers/iss/iss_files.h"
#include "soro/infrastructure/path/is_path.h"
#include "soro/infrastructure/path/length.h"

using namespace soro;
using namespace soro::infra;

static std::unique_ptr<infrastructure> inf;

// chainage in millimetres, null when undefined
static json mm(si::length const l) {
  if (!si::valid(l)) return nullptr;
  return static_cast<int64_t>(std::llround(l.val_ * 1000.0));
}
static json mmh(si::speed const s) {
  if (!si::valid(s)) return nullptr;
  return static_cast<int64_t>(std::llround(s.val_ * 3600.0));  // mm/h * 1000
}
static json port(char const* n, line::id const l, kilometrage const km, bool const rising) {
  return json::array({n, static_cast<int64_t>(l), mm(km), rising});
}

static json ports(element const& e) {
  return e.apply([&](auto&& x) -> json {
    using T = std::decay_t<decltype(x)>;
    json r = json::array();
    if constexpr (std::is_same_v<T, simple_element>) {
      r.push_back(port("a", x.start_line_, x.start_km_, x.rising_));
      if (x.is(type::BORDER)) {
        r.push_back(port("b", x.end_line_, x.end_km_, x.rising_));
      } else {
        r.push_back(port("b", x.end_line_, x.end_km_, x.end_rising_));
      }
    } else if constexpr (std::is_same_v<T, simple_switch>) {
      r.push_back(port("start", x.start_line_, x.start_km_, x.rising_));
      r.push_back(port("stem", x.stem_line_, x.stem_km_, x.stem_rising_));
      r.push_back(port("branch", x.branch_line_, x.branch_km_, x.branch_rising_));
    } else if constexpr (std::is_same_v<T, cross>) {
      r.push_back(port("sl", x.start_left_line_, x.start_left_km_, x.rising_));
      r.push_back(port("el", x.end_left_line_, x.end_left_km_, x.end_left_rising_));
      r.push_back(port("sr", x.start_right_line_, x.start_right_km_, x.start_right_rising_));
      r.push_back(port("er", x.end_right_line_, x.end_right_km_, x.end_right_rising_));
    } else {
      r.push_back(port("a", x.line_, x.km_, x.rising_));
    }
    return r;
  });
}

static char const* eff(speed_limit const& s) {
  return s.effects_ == speed_limit::effects::ALL            ? "all"
         : s.effects_ == speed_limit::effects::CONVENTIONAL ? "conventional"
         : s.effects_ == speed_limit::effects::LZB_ETCS     ? "lzb"
                                                            : "none";
}
static json spl_json(speed_limit const& s) {
  return json{{"type", s.type_ == speed_limit::type::GENERAL_ALLOWED ? "general" : s.type_ == speed_limit::type::END_SPECIAL ? "end" : "other"},
              {"effects", eff(s)},
              {"calc", s.calculated_},
              {"limit", mmh(s.limit_)},
              {"poa", s.poa_ == speed_limit::poa::HERE ? "here" : "signal"},
              {"len", mm(s.length_)},
              {"e", s.element_ ? json(s.element_->id()) : json(nullptr)},
              {"n", s.node_ ? json(s.node_->id_) : json(nullptr)}};
}

static json data_of(graph const& g, element const& e) {
  auto const& d = g.element_data_[e.id()];
  return d.apply([&](auto&& x) -> json {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, eotd>) return json{{"k", "eotd"}, {"signal", x.signal_}};
    if constexpr (std::is_same_v<T, main_signal>) return json{{"k", "ms"}, {"name", std::string(x.name_)}};
    if constexpr (std::is_same_v<T, slope>)
      return json{{"k", "slope"},
                  {"r", std::llround(x.rising_.val_ * 1000)},
                  {"f", std::llround(x.falling_.val_ * 1000)}};
    if constexpr (std::is_same_v<T, halt>)
      return json{{"k", "halt"},
                  {"name", std::string(x.name_)},
                  {"op", std::string(x.identifier_operational_)},
                  {"ext", std::string(x.identifier_extern_)},
                  {"pass", x.is_passenger_},
                  {"left", x.is_left_},
                  {"right", x.is_right_}};
    if constexpr (std::is_same_v<T, speed_limit>) {
      auto j = spl_json(x);
      j["k"] = "spl";
      return j;
    }
    if constexpr (std::is_same_v<T, switch_data>) return json{{"k", "switch"}, {"name", std::string(x.name_)}, {"label", x.ui_identifier_.has_value() ? std::string(*x.ui_identifier_) : std::string()}};
    return json{{"k", ""}};
  });
}

static json nid(node::ptr n) { return n == nullptr ? json(nullptr) : json(n->id_); }
template <typename T>
static json oidx(T const& o) {
  return o.has_value() ? json(static_cast<int>(*o)) : json(nullptr);
}

template <typename Gen>
static json walk(Gen&& g) {
  json r = json::array();
  std::size_t guard = 0;
  for (auto const& rn : g) {
    json s = nullptr;
    if (rn.extra_spl_.has_value()) {
      s = json::array({(*rn.extra_spl_)->element_->id(), mmh((*rn.extra_spl_)->limit_),
                       (*rn.extra_spl_)->poa_ == speed_limit::poa::HERE ? "here" : "signal",
                       mm((*rn.extra_spl_)->length_), eff(**rn.extra_spl_)});
    }
    r.push_back(json::array({nid(rn.node_), rn.omitted(), s}));
    if (++guard > 200000) break;
  }
  return r;
}

template <typename V>
static json eids(V const& v) {
  json r = json::array();
  for (auto const& e : v) r.push_back(e == nullptr ? json(nullptr) : json(e->id()));
  return r;
}
template <typename V>
static json ids(V const& v) {
  json r = json::array();
  for (auto const& e : v) r.push_back(static_cast<int64_t>(e));
  return r;
}
template <typename V>
static json ids2(V const& v) {
  json r = json::array();
  for (auto const& e : v) r.push_back(ids(e));
  return r;
}

static json elements() {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& e : i.graph_.elements_) {
    json ns = json::array();
    for (auto const& n : e->nodes()) ns.push_back(nid(n));
    auto const st = i.element_to_station_.find(e->id());
    r.push_back(json{{"id", e->id()},
                     {"t", e->get_type_str()},
                     {"rising", e->rising()},
                     {"falling", e->falling()},
                     {"ports", ports(*e)},
                     {"secs", ids(i.graph_.element_id_to_section_ids_[e->id()])},
                     {"nodes", ns},
                     {"st", st == std::end(i.element_to_station_) ? json(nullptr) : json(st->second->id_)},
                     {"neigh", eids(e->neighbours())},
                     {"class", json::array({e->is_end_element(), e->is_simple_element(), e->is_track_element(),
                                            e->is_section_element(), e->is_directed_track_element(),
                                            e->is_undirected_track_element(), e->is_switch(), e->is_cross_switch(),
                                            e->joins_tracks()})},
                     {"data", data_of(i.graph_, *e)}});
  }
  return r;
}

static json nodes() {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& n : i.graph_.nodes_) {
    json rev = json::array();
    for (auto const& p : n->reverse_edges_) rev.push_back(nid(p));
    json back;
    try {
      back = nid(n->reverse_ahead());
    } catch (...) {
      back = "exc";
    }
    r.push_back(json::array({n->id_, n->element_->id(), nid(n->next_node_), nid(n->branch_node_), rev, back,
                             get_type_str(n->type())}));
  }
  return r;
}

// what two adjacent elements say about each other
static json adjacency() {
  auto const& i = **inf;
  std::map<std::pair<uint32_t, uint32_t>, bool> seen;
  json r = json::array();
  auto const add = [&](element::ptr a, element::ptr b) {
    if (!seen.emplace(std::pair{a->id(), b->id()}, true).second) return;
    bool const na = neighbours(a, b);
    json d = nullptr, ka = nullptr, kb = nullptr;
    if (na && neighbours(b, a)) {
      d = mm(a->get_distance(b));
      ka = mm(a->get_km(b));
      kb = mm(b->get_km(a));
    }
    r.push_back(json::array({a->id(), b->id(), na, ka, kb, d}));
  };
  for (auto const& n : i.graph_.nodes_) {
    if (n->next_node_) add(n->element_, n->next_node_->element_);
    if (n->branch_node_) add(n->element_, n->branch_node_->element_);
  }
  return r;
}

static json sections() {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& s : i.graph_.sections_) {
    json rise = json::array(), fall = json::array(), riseall = json::array(), fallall = json::array();
    for (auto const e : s.template iterate<direction::Rising>()) rise.push_back(e->id());
    for (auto const e : s.template iterate<direction::Falling>()) fall.push_back(e->id());
    for (auto const e : s.template iterate<direction::Rising, skip::No>()) riseall.push_back(e->id());
    for (auto const e : s.template iterate<direction::Falling, skip::No>()) fallall.push_back(e->id());
    r.push_back(json{{"line", static_cast<int64_t>(s.line_id_)},
                     {"len", mm(s.length_)},
                     {"size", s.size()},
                     {"ends", json::array({s.first_rising()->id(), s.last_rising()->id(), s.first_falling()->id(),
                                           s.last_falling()->id()})},
                     {"order", eids(s.rising_order_)},
                     {"forder", eids(s.falling_order_)},
                     {"rise", rise},
                     {"fall", fall},
                     {"riseall", riseall},
                     {"fallall", fallall}});
  }
  return r;
}

static json lengths() {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& s : i.graph_.sections_) {
    if (s.length_.val_ != s.length_.val_ || s.size() < 3) {
      r.push_back(json::array({nullptr, nullptr, nullptr}));
      continue;
    }
    r.push_back(json::array({mm(s.length_), mm(get_path_length_from_elements(s.template iterate<direction::Rising>())),
                             mm(get_path_length_from_elements(s.template iterate<direction::Falling>()))}));
  }
  return r;
}

static json section_slices(json const& c) {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& q : c.at("q")) {
    auto const& s = i.graph_.sections_[q[0].get<uint32_t>()];
    auto const dir = q[1].get<bool>() ? direction::Rising : direction::Falling;
    auto const a = i.graph_.elements_[q[2].get<uint32_t>()];
    auto const b = i.graph_.elements_[q[3].get<uint32_t>()];
    r.push_back(json::array({eids(s.from(a, dir)), eids(s.to(a, dir)), eids(s.from_to(a, b, dir))}));
  }
  return r;
}

static json stations() {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& s : i.stations_) {
    json b = json::array(), routes = json::array(), e2r = json::array(), neigh = json::array();
    for (auto const& x : s->borders_) {
      b.push_back(json{{"e", x.element_ ? json(x.element_->id()) : json(nullptr)},
                       {"ne", x.neighbour_element_ ? json(x.neighbour_element_->id()) : json(nullptr)},
                       {"st", x.station_ ? json(x.station_->id_) : json(nullptr)},
                       {"nst", x.neighbour_ ? json(x.neighbour_->id_) : json(nullptr)},
                       {"line", static_cast<int64_t>(x.line_)},
                       {"sign", x.track_sign_},
                       {"low", x.low_border_}});
    }
    for (auto const& [n, sr] : s->station_routes_) routes.push_back(json::array({std::string(n), sr->id_}));
    for (auto const& [e, rs] : s->element_to_routes_) {
      json l = json::array();
      for (auto const& x : rs) l.push_back(x->id_);
      e2r.push_back(json::array({e, l}));
    }
    for (auto const& n : s->neighbours()) neigh.push_back(n->id_);
    std::sort(neigh.begin(), neigh.end());  // a set of pointers: no order of its own
    auto const by = i.ds100_to_station_.find(s->ds100_);
    r.push_back(json{{"id", s->id_},
                     {"name", std::string(s->ds100_)},
                     {"full", std::string(i.full_station_names_[s->id_])},
                     {"byname", by == std::end(i.ds100_to_station_) ? json(nullptr) : json(by->second->id_)},
                     {"secs", ids(s->sections_)},
                     {"elems", eids(s->elements_)},
                     {"borders", b},
                     {"routes", routes},
                     {"e2r", e2r},
                     {"neigh", neigh}});
  }
  return r;
}

static json routes() {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& s : i.station_routes_) {
    json ns = json::array(), spl = json::array(), attr = json::array();
    for (auto const& n : s->nodes()) ns.push_back(nid(n));
    for (auto const& x : s->extra_speed_limits_) spl.push_back(spl_json(x));
    for (std::size_t k = 0; k < s->attributes_.size(); ++k)
      if (s->attributes_[k]) attr.push_back(k);
    r.push_back(json{{"id", s->id_},
                     {"name", std::string(s->name_)},
                     {"st", s->station_->id_},
                     {"from", s->from_station_.has_value() ? json((*s->from_station_)->id_) : json(nullptr)},
                     {"to", s->to_station_.has_value() ? json((*s->to_station_)->id_) : json(nullptr)},
                     {"start", s->path_->start_->id()},
                     {"end", s->path_->end_->id()},
                     {"nodes", ns},
                     {"size", s->size()},
                     {"ms", ids(s->path_->main_signals_)},
                     {"es", ids(s->path_->etcs_starts_)},
                     {"ee", ids(s->path_->etcs_ends_)},
                     {"omit", ids(s->omitted_nodes_)},
                     {"pass", oidx(s->get_halt_idx(rs::FreightTrain::NO))},
                     {"freight", oidx(s->get_halt_idx(rs::FreightTrain::YES))},
                     {"rtcp", oidx(s->runtime_checkpoint_)},
                     {"passn", s->get_halt_node(rs::FreightTrain::NO).has_value()
                                   ? nid(*s->get_halt_node(rs::FreightTrain::NO))
                                   : json(nullptr)},
                     {"rtcpn", s->get_runtime_checkpoint_node().has_value() ? nid(*s->get_runtime_checkpoint_node())
                                                                             : json(nullptr)},
                     {"spl", spl},
                     {"attr", attr},
                     {"elec", s->electrified()},
                     {"kind", s->is_through_route()     ? "through"
                              : s->is_in_route()        ? "in"
                              : s->is_out_route()       ? "out"
                              : s->is_contained_route() ? "contained"
                                                        : "none"},
                     {"etcs", i.lines_.empty() ? json(nullptr) : json(s->requires_etcs(i.lines_))},
                     {"ispath", is_path(s->nodes())},
                     {"len", mm(s->length_)},
                     {"seclen", nullptr}});
  }
  return r;
}

static json route_parts(json const& c) {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& q : c.at("q")) {
    auto const& s = i.station_routes_[q[0].get<uint32_t>()];
    auto const a = q[1].get<node::idx>();
    auto const b = q[2].get<node::idx>();
    r.push_back(json::array({walk(s->from_to(a, b)), walk(s->from(a)), walk(s->to(b)), walk(s->iterate())}));
  }
  return r;
}

static json srg() {
  auto const& i = **inf;
  json s = json::array(), p = json::array();
  for (auto const& v : i.station_route_graph_.successors_) {
    json l = json::array();
    for (auto const& x : v) l.push_back(x->id_);
    s.push_back(l);
  }
  for (auto const& v : i.station_route_graph_.predeccesors_) {
    json l = json::array();
    for (auto const& x : v) l.push_back(x->id_);
    p.push_back(l);
  }
  return json{{"succ", s}, {"pred", p}};
}

static json irs() {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& ir : i.interlocking_.routes_) {
    json l = json::array();
    for (auto&& x : ir.station_routes(*inf)) l.push_back(x.id_);
    r.push_back(json{{"id", ir.id_},
                     {"srs", ids(ir.station_routes_)},
                     {"srs2", l},
                     {"from", ir.start_offset_},
                     {"to", ir.end_offset_},
                     {"size", ir.size(*inf)},
                     {"first", nid(ir.first_node(*inf))},
                     {"last", nid(ir.last_node(*inf))},
                     {"firstsr", json::array({ir.first_sr_id(), ir.first_sr(*inf)->id_, ir.sr_id(0), ir.sr(0, *inf)->id_})},
                     {"lastsr", json::array({ir.last_sr_id(), ir.last_sr(*inf)->id_})},
                     {"ms", json::array({ir.starts_on_ms(*inf), ir.ends_on_ms(*inf), ir.starts_on_section(*inf),
                                         ir.ends_on_section(*inf)})}});
  }
  return r;
}

static json ir_walks(json const& c) {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& q : c.at("q")) {
    auto const& ir = i.interlocking_.routes_[q.get<uint32_t>()];
    json sp = json::array();
    for (auto const& s : ir.iterate_station_routes(i)) sp.push_back(json::array({s.station_route_->id_, s.from_, s.to_}));
    r.push_back(json::array({walk(ir.iterate(*inf)), sp}));
  }
  return r;
}

static json ir_parts(json const& c) {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& q : c.at("q")) {   // ir, sr, idx, sr2, idx2
    auto const& ir = i.interlocking_.routes_[q[0].get<uint32_t>()];
    auto const s1 = q[1].get<uint32_t>(), s2 = q[3].get<uint32_t>();
    auto const i1 = q[2].get<node::idx>(), i2 = q[4].get<node::idx>();
    r.push_back(json::array({walk(ir.from(s1, i1, *inf)), walk(ir.to(s2, i2, *inf)), walk(ir.from_to(s1, i1, s2, i2, *inf))}));
  }
  return r;
}

static json ir_contains(json const& c) {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& q : c.at("q")) {
    auto const& ir = i.interlocking_.routes_[q[0].get<uint32_t>()];
    json l = json::array();
    auto const n = i.station_routes_[q[1].get<uint32_t>()]->size();
    for (node::idx k = 0; k <= n; ++k) l.push_back(ir.contains(q[1].get<uint32_t>(), k));
    r.push_back(l);
  }
  return r;
}

static json ir_follows(json const& c) {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& q : c.at("q")) {
    auto const& a = i.interlocking_.routes_[q[0].get<uint32_t>()];
    auto const& b = i.interlocking_.routes_[q[1].get<uint32_t>()];
    r.push_back(json::array({a.follows(b, *inf), a == b}));
  }
  return r;
}

static json indexes() {
  auto const& l = (**inf).interlocking_;
  return json{{"start", ids2(l.starting_at_)},
              {"end", ids2(l.ending_at_)},
              {"halt", ids2(l.halting_at_)},
              {"sr", ids2(l.sr_to_participating_irs_)},
              {"st", ids2(l.station_to_irs_)}};
}

static json excl() {
  auto const& x = (**inf).exclusion_;
  json g = json::array();
  for (auto const& s : x.exclusion_graph_.nodes_) g.push_back(ids(s.expanded_set()));
  return json{{"closed", ids2(x.exclusion_elements_.closed_)},
              {"open", ids2(x.exclusion_elements_.open_)},
              {"graph", g},
              {"sets", ids2(x.exclusion_sets_)},
              {"ofir", ids2(x.irs_to_exclusion_sets_)}};
}

static json about() {
  auto const& i = **inf;
  json ln = json::array();
  for (auto const& [id, l] : i.lines_) {
    json s = json::array();
    for (auto const& g : l.segments_) s.push_back(json::array({mm(g.from_), mm(g.to_), g.signalling_, g.lzb_, g.etcs_}));
    ln.push_back(json::array({static_cast<int64_t>(id), static_cast<int64_t>(l.id_), s}));
  }
  json ts = json::array();
  for (auto const& [k, t] : i.rolling_stock_.train_series_) {
    json vs = json::array();
    for (auto const& [vk, v] : t.variants_) vs.push_back(static_cast<int64_t>(vk));
    ts.push_back(json::array({std::string(k), vs}));
  }
  return json{{"lines", ln},
              {"ts", ts},
              {"version", json::array({std::string(i.version_.name_), i.version_.number_})},
              {"source", std::string(i.source_)},
              {"defaults", json::array({std::string(i.defaults_.line_class_),
                                        si::valid(i.defaults_.route_form_time_) ? json(std::llround(i.defaults_.route_form_time_.val_ * 1000)) : json(nullptr),
                                        mm(i.defaults_.brake_path_length_), mmh(i.defaults_.stationary_speed_limit_)})}};
}

static json signalling(json const& c) {
  auto const& i = **inf;
  json r = json::array();
  for (auto const& q : c.at("q")) {
    auto const& l = i.lines_.at(static_cast<line::id>(q[0].get<int>()));
    auto const km = si::from_m(q[1].get<int64_t>() / 1000.0);
    r.push_back(json::array({l.has_signalling(km), l.has_etcs(km)}));
  }
  return r;
}

static json stock(json const& c) {
  auto const& i = **inf;
  json vs = json::array(), keys = json::array(), found = json::array();
  for (auto const& [k, t] : i.rolling_stock_.train_series_) {
    keys.push_back(json::array({std::string(k), std::string(t.nr_), std::string(t.company_nr_)}));
    for (auto const& [vk, v] : t.variants_) {
      vs.push_back(json::array({std::string(k), std::string(t.nr_), std::string(t.company_nr_), static_cast<int64_t>(vk), std::string(v.name_),
                                std::llround(v.weight_.val_), mmh(v.max_speed_), std::llround(v.deacceleration_.val_ * 1000)}));
    }
  }
  for (auto const& q : c.at("q")) {
    auto const r = i.rolling_stock_.get_traction_vehicle(q[0].get<std::string>(), q[1].get<std::string>(), q[2].get<uint32_t>());
    found.push_back(r ? std::string((*r).name_) : r.error().message());
  }
  return json{{"variants", vs}, {"series", keys}, {"found", found}};
}

static json stats(json const& c) {
  auto const s = get_infra_stats(get_iss_files(c.at("dir").get<std::string>()));
  json k = json::array();
  for (auto const t : all_types()) k.push_back(json::array({get_type_str(t), s.number(t)}));
  return json{{"sections", s.sections_}, {"stations", s.stations_}, {"kinds", k}, {"total", s.total_elements()}};
}

static std::map<std::string, handler> infra_ops() {
  return {
      {"new",
       [&](json const& c) {
         inf.reset();
         infrastructure_options o;
         o.infrastructure_path_ = c.at("dir").get<std::string>();
         if (c.value("file", false)) o.infrastructure_path_ /= "Index.xml";
         o.gps_coord_path_ = c.value("coords", std::string("/nonexistent"));
         o.layout_ = c.value("layout", false);
         o.interlocking_ = c.value("interlocking", true);
         o.exclusions_ = c.value("exclusions", true);
         o.exclusion_elements_ = c.value("ex_elements", true);
         o.exclusion_graph_ = c.value("ex_graph", true);
         if (c.contains("threads")) setenv("VERIF_THREADS", std::to_string(c.at("threads").get<int>()).c_str(), 1);
         inf = std::make_unique<infrastructure>(o);
         return ok();
       }},
      {"elements", [&](json const&) { return ok(elements()); }},
      {"nodes", [&](json const&) { return ok(nodes()); }},
      {"adjacency", [&](json const&) { return ok(adjacency()); }},
      {"sections", [&](json const&) { return ok(sections()); }},
      {"lengths", [&](json const&) { return ok(lengths()); }},
      {"section_slices", [&](json const& c) { return ok(section_slices(c)); }},
      {"stations", [&](json const&) { return ok(stations()); }},
      {"routes", [&](json const&) { return ok(routes()); }},
      {"route_parts", [&](json const& c) { return ok(route_parts(c)); }},
      {"srg", [&](json const&) { return ok(srg()); }},
      {"irs", [&](json const&) { return ok(irs()); }},
      {"ir_walks", [&](json const& c) { return ok(ir_walks(c)); }},
      {"ir_parts", [&](json const& c) { return ok(ir_parts(c)); }},
      {"ir_contains", [&](json const& c) { return ok(ir_contains(c)); }},
      {"ir_follows", [&](json const& c) { return ok(ir_follows(c)); }},
      {"indexes", [&](json const&) { return ok(indexes()); }},
      {"excl", [&](json const&) { return ok(excl()); }},
      {"meta", [&](json const&) { return ok(about()); }},
      {"stock", [&](json const& c) { return ok(stock(c)); }},
      {"stats", [&](json const& c) { return ok(stats(c)); }},
      {"signalling", [&](json const& c) { return ok(signalling(c)); }},
  };
}

#ifndef INFRA_PART
int main() { return run_driver(infra_ops()); }
#endif
