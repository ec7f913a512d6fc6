#include "driver.h"

#include <filesystem>
#include <memory>
#include <vector>
#include <unistd.h>

#include "soro/utls/file/binary_buffer_to_file.h"
#include "soro/utls/file/file_to_binary_buffer.h"
#include "soro/utls/file/loaded_file.h"

using namespace soro::utls;
using B = std::vector<unsigned char>;

static B big(int n, int seed) {
  B b(static_cast<std::size_t>(n));
  unsigned x = static_cast<unsigned>(seed) * 2654435761U + 1U;
  for (auto& c : b) { x = x * 1664525U + 1013904223U; c = static_cast<unsigned char>(x >> 24U); }
  return b;
}
template <typename It>
static json bytes(It a, It b) {
  json r = json::array();
  for (; a != b; ++a) r.push_back(static_cast<int>(static_cast<unsigned char>(*a)));
  return r;
}

int main() {
  std::clog.rdbuf(nullptr);
  auto const dir = std::filesystem::temp_directory_path() / ("verif-files-" + std::to_string(getpid()));
  std::filesystem::create_directories(dir);
  auto path = [&](json const& c) { return dir / ("f" + std::to_string(c.at("f").get<int>())); };
  std::unique_ptr<loaded_file> open;
  auto const rc = run_driver({
      {"new", [&](json const&) {
         open.reset();
         for (int i = 0; i < 3; ++i) std::filesystem::remove(dir / ("f" + std::to_string(i)));
         return ok(); }},
      {"write", [&](json const& c) {
         B const b = [&] { auto const v = c.at("b").get<std::vector<int>>(); return B(v.begin(), v.end()); }();
         write_binary_buffer_to_file(path(c), b);
         return ok(); }},
      {"remove", [&](json const& c) { std::filesystem::remove(path(c)); return ok(); }},
      {"read", [&](json const& c) { auto const b = read_file_to_binary_buffer(path(c)); return ok(bytes(b.begin(), b.end())); }},
      {"text", [&](json const& c) { auto const b = read_file_to_string(path(c)); return ok(bytes(b.begin(), b.end())); }},
      {"load", [&](json const& c) {
         auto const l = load_file(path(c));
         return ok(json::array({bytes(l.begin(), l.end()), bytes(l.data(), l.data() + l.size()), static_cast<int>(l.size()), l.path_ == path(c)})); }},
      {"sizes", [&](json const& c) {
         // sizes too large to spell out
         auto const p = path(c);
         json r = json::array();
         for (auto const& s : c.at("sizes")) {
           auto const b = big(s.get<int>(), c.at("seed"));
           write_binary_buffer_to_file(p, b);
           auto const t = read_file_to_string(p);
           auto const l = load_file(p);
           r.push_back(std::filesystem::file_size(p) == b.size() && read_file_to_binary_buffer(p) == b && B(t.begin(), t.end()) == b && B(l.begin(), l.end()) == b);
         }
         std::filesystem::remove(p);
         return ok(r); }},
  });
  std::filesystem::remove_all(dir);
  return rc;
}
