#include "driver.h"

#include <set>
#include <vector>
#include <pugixml.hpp>

#include "soro/infrastructure/graph/element.h"
#include "soro/infrastructure/graph/type.h"
#include "soro/infrastructure/graph/type_set.h"
#include "soro/infrastructure/parsers/iss/parse_helpers.h"

using namespace soro;
using namespace soro::infra;

static json name_of(type const t) {
  try { return get_type_str(t); } catch (std::exception const&) { return "none"; }
}
static json order(type const t) { return t == type::INVALID ? -1 : static_cast<int>(type_to_id(t)); }
static type by_name(std::string const& n) {
  for (int i = 0; i <= type_count; ++i)
    if (name_of(id_to_type(static_cast<type_id>(i))) == json(n)) return id_to_type(static_cast<type_id>(i));
  throw std::runtime_error("no such kind");
}
static json names(type_set const& s) {
  json r = json::array();
  for (auto const t : s) r.push_back(name_of(t));
  return r;
}
static json asked(type_set const& s, json const& ask) {
  json r = json::array();
  for (auto const& a : ask) r.push_back(s.contains(by_name(a)));
  return r;
}

int main() {
  std::clog.rdbuf(nullptr);
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"all", [](json const&) {
         json r = json::array();
         for (auto const t : all_types()) r.push_back(name_of(t));
         return ok(r); }},
      {"kind", [](json const& c) {
         auto const t = by_name(c.at("k"));
         json r = json::array();
         auto put = [&](bool b, char const* n) { if (b) r.push_back(n); };
         put(is_border(t), "border"); put(is_cross(t), "cross"); put(is_directed_track_element(t), "directed"); put(is_end_element(t), "end");
         put(is_etcs(t), "etcs"); put(is_halt(t), "halt"); put(is_lzb(t), "lzb"); put(is_runtime_checkpoint(t), "checkpoint");
         put(is_section_element(t), "section"); put(is_simple_element(t), "simple"); put(is_simple_switch(t), "switch");
         put(is_track_element(t), "track"); put(is_undirected_track_element(t), "undirected");
         return ok(json{{"is", r}, {"back", id_to_type(type_to_id(t)) == t}}); }},
      {"element", [](json const& c) {
         // the same questions asked of a loaded element
         auto const t = by_name(c.at("k"));
         element e;
         if (is_end_element(t)) { e.e_ = end_element{}; e.as<end_element>().type_ = t; }
         else if (is_simple_element(t)) { e.e_ = simple_element{}; e.as<simple_element>().type_ = t; }
         else if (is_simple_switch(t)) { e.e_ = simple_switch{}; e.as<simple_switch>().type_ = t; }
         else if (is_cross(t)) { e.e_ = cross{}; e.as<cross>().type_ = t; e.as<cross>().start_left_end_right_arc_ = c.at("a"); e.as<cross>().start_right_end_left_arc_ = c.at("b"); }
         else if (is_directed_track_element(t)) { e.e_ = track_element{}; e.as<track_element>().type_ = t; }
         else { e.e_ = undirected_track_element{}; e.as<undirected_track_element>().type_ = t; }
         e.e_.apply([&](auto&& x) { x.rising_ = c.at("rising").get<bool>(); x.id_ = 7; });
         json r = json::array();
         auto put = [&](bool b, char const* n) { if (b) r.push_back(n); };
         put(e.is_directed_track_element(), "directed"); put(e.is_end_element(), "end"); put(e.is_section_element(), "section"); put(e.is_simple_element(), "simple");
         put(e.is_track_element(), "track"); put(e.is_undirected_track_element(), "undirected");
         json j = json::array();
         auto q = [&](bool b, char const* n) { if (b) j.push_back(n); };
         q(e.is_cross_switch(), "cross_switch"); q(e.is_switch(), "switch"); q(e.joins_tracks(), "joins"); q(e.rising(), "rising"); q(e.falling(), "falling");
         json same = json::array();
         for (auto const x : all_types()) if (e.is(x)) same.push_back(name_of(x));
         return ok(json{{"is", r}, {"more", j}, {"same", same}, {"type", name_of(e.type())}, {"id", e.id()}, {"nodes", e.nodes().size()}, {"neigh", e.neighbours().size()}}); }},
      {"read", [](json const& c) {
         std::string const n = c.at("n");
         pugi::xml_document d;
         auto const node = d.append_child(n.c_str());
         return ok(json{{"kind", json::array({name_of(get_type(n)), name_of(get_type(n.c_str()))})}, {"rising", n.empty() ? false : has_rising_name(node)}}); }},
      {"set", [](json const& c) {
         auto const k = c.at("ks").get<std::vector<std::string>>();
         std::vector<type> t;
         for (auto const& x : k) t.push_back(by_name(x));
         auto both = [&](type_set const& s) { return ok(json{{"in", asked(s, c.at("ask"))}, {"all", names(s)}}); };
         switch (t.size()) {
           case 0: return both(type_set({}));
           case 1: return both(type_set({t[0]}));
           case 2: return both(type_set({t[0], t[1]}));
           case 3: return both(type_set({t[0], t[1], t[2]}));
           case 4: return both(type_set({t[0], t[1], t[2], t[3]}));
           default: return both(type_set({t[0], t[1], t[2], t[3], t[4]}));
         } }},
      {"set_all", [](json const& c) {
         type_set const s{all_types()};
         return ok(json{{"in", asked(s, c.at("ask"))}, {"n", names(s).size()}, {"different", std::set<type>(s.begin(), s.end()).size()}}); }},
  });
}
