#pragma once
#include <regex>
#include "net/web_server/web_server.h"
namespace net {
struct query_router {
  struct route_request : public web_server::http_req_t {
    route_request() = default;
    explicit route_request(web_server::http_req_t r) : web_server::http_req_t(std::move(r)) {}
    std::vector<std::string> path_params_;
    std::string username_, password_;
  };
  using route_request_handler = std::function<void(route_request const&, web_server::http_res_cb_t const&, bool)>;

  query_router& route(std::string method, std::string const& path, route_request_handler h) {
    routes_.push_back({std::move(method), std::regex(path), std::move(h)});
    return *this;
  }
  void reply_hook(std::function<void(web_server::http_res_t const&)> h) { hook_ = std::move(h); }

  void operator()(web_server::http_req_t req, web_server::http_res_cb_t const& cb, bool const ssl) {
    std::string const target(req.target());
    std::string const method(req.method_string());
    for (auto& r : routes_) {
      std::smatch m;
      if ((r.method_ == "*" || r.method_ == method) && std::regex_match(target, m, r.path_)) {
        route_request q(std::move(req));
        for (std::size_t i = 1; i < m.size(); ++i) q.path_params_.push_back(m[i].str());
        return r.handler_(q, [&](web_server::http_res_t&& res) {
          if (hook_) hook_(res);
          cb(std::move(res));
        }, ssl);
      }
    }
  }

  struct entry {
    std::string method_;
    std::regex path_;
    route_request_handler handler_;
  };
  std::vector<entry> routes_;
  std::function<void(web_server::http_res_t const&)> hook_;
};
}  // namespace net
