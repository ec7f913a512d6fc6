// The infrastructure driver together with the tool that exports the exclusion graph.
#define INFRA_PART
#include "infra.cc"

#include <filesystem>
#include <fstream>
#include <sstream>

#include "utl/cmd_line_parser.h"
#include "utl/enumerate.h"

namespace tool {
#define main export_main
#include "../tools/export_exclusion_graph/src/export_exclusion_graph.cc"
#undef main
}  // namespace tool

// runs the tool with the arguments given; what it returned and the lines it wrote
static json exported(json const& c) {
  auto const out = c.at("out").get<std::string>();
  std::filesystem::remove(out);
  if (c.value("stale", false)) std::ofstream(out) << "0 1 2 3 \n\n4 5 \n" << std::string(4000, '7') << "\n";  // of an earlier export
  std::vector<std::string> args = {"export_exclusion_graph"};
  for (auto const& a : c.at("args")) args.push_back(a.get<std::string>());
  std::vector<char const*> argv;
  for (auto const& a : args) argv.push_back(a.c_str());
  int const rc = tool::export_main(static_cast<int>(argv.size()), argv.data());
  std::cout << std::endl;
  json lines = json::array();
  bool const written = std::filesystem::exists(out);
  std::ifstream f(out);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    json l = json::array();
    std::string w;
    while (is >> w) l.push_back(w.find_first_not_of("0123456789") == std::string::npos && w.size() < 9 ? std::stol(w) : 999999999);
    lines.push_back(l);
  }
  std::filesystem::remove(out);
  return json{{"rc", rc}, {"written", written}, {"lines", lines}};
}

int main() {
  auto ops = infra_ops();
  ops.emplace("exported", [](json const& c) { return ok(exported(c)); });
  ops.emplace("refused", [](json const& c) { return ok(exported(c)); });
  return run_driver(ops);
}
