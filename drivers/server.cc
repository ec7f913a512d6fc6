// Starts the real server on a folder of resources and asks it, through the
// addresses it offers; the library's own records are reported next to it.
#include "soro/server/modules/ordering/ordering_module.h"
#include "soro/server/modules/search/search_module.h"
#include "soro/server/modules/tiles/tiles_module.h"
#define private public
#include "soro/server/soro_server.h"
#undef private

#define ORDERS_PART
#include "orders.cc"

#include "pugixml.hpp"


using namespace soro::server;

namespace soro::server {
std::string serialize_ordering_graph(simulation::ordering_graph const&, tt::timetable const&);
}

static std::unique_ptr<server_settings> settings;
static std::unique_ptr<soro_server> server_;

// nothing is made into tiles offline
#include "soro/server/modules/tiles/import/import.h"
namespace soro::server {
void import_tiles(import_settings const& s) { std::ofstream(s.db_path_.string()) << "tiles"; }
}  // namespace soro::server

static json ask(std::string const& target, std::string const& method) {
  namespace http = boost::beast::http;
  net::web_server::http_req_t req{http::string_to_verb(method), target, 11};
  json answer = json::array({0, "", ""});
  int answers = 0;
  try {
    net::web_server::handler()(req, [&](net::web_server::http_res_t&& res) {
      ++answers;
      if (auto const* s = std::get_if<net::web_server::string_res_t>(&res); s != nullptr) {
        answer = json::array({s->result_int(), std::string((*s)[http::field::content_type]), s->body()});
      }
    }, false);
  } catch (std::exception const& e) {
    return json::array({-1, "", std::string("exception")});
  }
  if (answers != 1) return json::array({-2, "", std::to_string(answers) + " answers"});
  return answer;
}

static int64_t tenth_micro(double const d) { return std::isfinite(d) && std::abs(d) <= 200 ? std::llround(d * 1e7) : 2000000000; }
static json place(utls::gps const& g) { return json::array({tenth_micro(g.lon_), tenth_micro(g.lat_)}); }

static json places() {
  json e = json::array(), s = json::array();
  for (auto const& g : (**inf).element_positions_) e.push_back(place(g));
  for (auto const& g : (**inf).station_positions_) s.push_back(place(g));
  return json{{"elements", e}, {"stations", s}};
}

static json the_map(std::string const& file) {
  pugi::xml_document d;
  if (!d.load_file(file.c_str())) return json{{"ok", false}, {"nodes", json::array()}, {"ways", json::array()}};
  json ns = json::array(), ws = json::array();
  auto const tags = [](pugi::xml_node const& n) {
    json t = json::object();
    for (auto const& c : n.children("tag")) t[c.attribute("k").value()] = c.attribute("v").value();
    return t;
  };
  for (auto const& n : d.child("osm").children()) {
    if (std::string(n.name()) == "way") {
      json r = json::array();
      for (auto const& c : n.children("nd")) r.push_back(c.attribute("ref").as_llong(-1));
      ws.push_back(json::array({n.attribute("id").as_llong(-1), r, tags(n)}));
    } else {
      ns.push_back(json::array({n.attribute("id").as_llong(-1), tenth_micro(n.attribute("lon").as_double(999)), tenth_micro(n.attribute("lat").as_double(999)),
                                tags(n), std::string(n.name())}));
    }
  }
  return json{{"ok", true}, {"nodes", ns}, {"ways", ws}};
}

int main() {
  auto m = runs_ops();
  auto const load = m["new"];
  m["usages"] = [](json const&) { return ok(table == nullptr ? json::array() : usages()); };
  m["new"] = [load](json const& c) {
    if (!c.contains("root")) return load(c);
    server_.reset();
    auto const root = std::filesystem::path(c.at("root").get<std::string>());
    settings = std::make_unique<server_settings>();
    settings->server_resource_dir_.val_ = root / "res";
    settings->infrastructure_sources_.val_ = root / "infra";
    settings->timetable_sources_.val_ = root / "tt";
    settings->test_.val_ = true;
    server_ = std::make_unique<soro_server>(*settings);
    server_->run(*settings);
    return ok();
  };
  m["use"] = [](json const& c) {
    auto const i = server_->infrastructure_module_.get_infra(c.at("infra").get<std::string>());
    inf = std::make_unique<infrastructure>(std::addressof(***i));
    table.reset();
    return ok();
  };
  m["places"] = [](json const&) { return ok(places()); };
  m["map"] = [](json const& c) { return ok(the_map((settings->osm_dir() / (c.at("infra").get<std::string>() + ".osm")).string())); };
  m["ask"] = [](json const& c) {
    json r = json::array();
    for (auto const& q : c.at("q")) r.push_back(ask(q.get<std::string>(), c.value("method", std::string("GET"))));
    return ok(r);
  };
  m["index"] = [](json const& c) {
    json r = json::array();
    auto const name = c.at("infra").get<std::string>();
    for (auto const& x : server_->search_module_.contexts_.at(name).results_) {
      r.push_back(json::array({std::string(search_module::result::type_to_string(x.type_)), x.name_, x.id_, x.element_type_,
                               json::array({place(x.bounding_box_.south_west_), place(x.bounding_box_.north_east_)})}));
    }
    return ok(r);
  };
  m["orders"] = [](json const& c) {
    json r = json::array();
    for (auto const& q : c.at("q")) {
      try {
        r.push_back(json{{"ok", true}, {"got", order(q)}});
      } catch (json::exception const&) {
        throw;
      } catch (std::exception const&) {
        r.push_back(json{{"ok", false}, {"got", json::array()}});
      }
    }
    return ok(r);
  };
  return run_driver(m);
}
