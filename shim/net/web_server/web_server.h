#pragma once
// Stand-in for motis-project/net (not installable offline): requests and
// responses are Boost.Beast's, as in the original; nothing listens.
#include <functional>
#include <string>
#include <variant>
#include "boost/asio/io_context.hpp"
#include "boost/beast/http.hpp"
#include "boost/system/error_code.hpp"
namespace net {
struct web_server {
  using http_req_t = boost::beast::http::request<boost::beast::http::string_body>;
  using string_res_t = boost::beast::http::response<boost::beast::http::string_body>;
  using file_res_t = boost::beast::http::response<boost::beast::http::file_body>;
  using empty_res_t = boost::beast::http::response<boost::beast::http::empty_body>;
  using http_res_t = std::variant<string_res_t, file_res_t, empty_res_t>;
  using http_res_cb_t = std::function<void(http_res_t&&)>;
  using http_req_cb_t = std::function<void(http_req_t, http_res_cb_t const&, bool)>;

  explicit web_server(boost::asio::io_context&) {}
  void on_http_request(http_req_cb_t cb) { handler() = std::move(cb); }
  void init(std::string const&, std::string const&, boost::system::error_code&) {}
  void run() {
    if (running()) running()();
  }
  void stop() {}

  // the driver asks the server through these
  static http_req_cb_t& handler() {
    static http_req_cb_t h;
    return h;
  }
  static std::function<void()>& running() {
    static std::function<void()> f;
    return f;
  }
};
}  // namespace net
