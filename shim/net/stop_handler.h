#pragma once
#include "boost/asio/io_context.hpp"
namespace net {
struct stop_handler {
  template <typename F>
  stop_handler(boost::asio::io_context&, F&&) {}
};
}  // namespace net
