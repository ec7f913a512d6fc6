// Replays commands (one JSON object per line on stdin) against the real code and
// prints one result per command, each on a line starting with '@'.
#pragma once
#include <cstdio>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>

using json = nlohmann::json;
using handler = std::function<json(json const&)>;

inline json ok() { return json::array({"ok"}); }
template <typename T>
inline json ok(T&& t) {
  json j = json::array({"ok"});
  j.push_back(json(std::forward<T>(t)));
  return j;
}

inline int run_driver(std::map<std::string, handler> const& ops) {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json const cmd = json::parse(line);
    auto const it = ops.find(cmd.at("op").get<std::string>());
    if (it == ops.end()) {
      std::cerr << "DRIVER-BUG unknown op " << line << std::endl;
      return 3;
    }
    json res;
    try {
      res = it->second(cmd);
    } catch (nlohmann::json::exception const& e) {
      std::cerr << "DRIVER-BUG " << e.what() << " in " << line << std::endl;
      return 3;
    } catch (std::exception const& e) {
      res = json::array({"exc"});
    } catch (...) {
      res = json::array({"exc"});
    }
    std::fputc('@', stdout);
    std::string const out = res.dump(-1, ' ', true, json::error_handler_t::replace);
    std::fwrite(out.data(), 1, out.size(), stdout);
    std::fputc('\n', stdout);
    std::fflush(stdout);
  }
  return 0;
}
