#pragma once
#include "net/web_server/query_router.h"
namespace net {
inline web_server::string_res_t plain_response(web_server::http_req_t const& req, boost::beast::http::status const s, std::string_view const body) {
  web_server::string_res_t res{s, req.version()};
  res.set(boost::beast::http::field::content_type, "text/html");
  res.keep_alive(req.keep_alive());
  res.body() = std::string(body);
  res.prepare_payload();
  return res;
}
inline web_server::string_res_t not_found_response(web_server::http_req_t const& req, std::string_view const body = "") {
  return plain_response(req, boost::beast::http::status::not_found, body);
}
inline web_server::string_res_t bad_request_response(web_server::http_req_t const& req, std::string_view const body = "") {
  return plain_response(req, boost::beast::http::status::bad_request, body);
}
inline web_server::string_res_t server_error_response(web_server::http_req_t const& req, std::string_view const body = "") {
  return plain_response(req, boost::beast::http::status::internal_server_error, body);
}
}  // namespace net
