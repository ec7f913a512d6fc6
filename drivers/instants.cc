#include "driver.h"

#include <sstream>

#include "soro/utls/result.h"
#include "soro/base/time.h"
#include "soro/utls/unixtime.h"

using namespace soro;
using soro::utls::unixtime;
using dur = soro::utls::duration;

static json cnt(int64_t const n) {
  int64_t d = n / 86400, s = n % 86400;
  if (s < 0) { s += 86400; --d; }
  return json::array({d, s});
}
static int64_t num(json const& j) { return j[0].get<int64_t>() * 86400 + j[1].get<int64_t>(); }
static json J(unixtime const& t) { return cnt(static_cast<time_t>(t)); }
static json J(dur const& t) { return cnt(static_cast<time_t>(t)); }
static json J(absolute_time const t) { return cnt(static_cast<int64_t>(absolute_time_to_rep(t))); }
static json J(relative_time const t) { return cnt(static_cast<int64_t>(t.count())); }
template <typename A, typename B>
static json three(A const& a, B const& b) {
  return {{"lt", a < b}, {"le", a <= b}, {"gt", a > b}, {"ge", a >= b}, {"eq", a == b}, {"ne", a != b}};
}
static absolute_time A(json const& j) { return rep_to_absolute_time(static_cast<absolute_time::rep>(num(j))); }
static relative_time R(json const& j) { return relative_time{static_cast<uint32_t>(num(j))}; }
static std::string cut(std::string const& s) {   // fraction digits of a whole second
  auto const p = s.find('.');
  if (p == std::string::npos) return s;
  return s.find_first_not_of('0', p + 1) == std::string::npos ? s.substr(0, p) : s;
}
template <typename T>
static std::string str(T const& t) { std::stringstream ss; ss << t; return ss.str(); }

int main() {
  using namespace soro::utls::literals;
  return run_driver({
      {"new", [](json const&) { return ok(); }},
      {"abs",
       [](json const& c) {
         auto const t = A(c.at("a"));
         auto const p = str_to_absolute_time(std::to_string(num(c.at("a"))));
         return ok(json{{"rep", J(t)}, {"mid", J(midnight(t))}, {"tod", J(absolute_to_relative(midnight(t), t))},
                        {"text", fmt::format("{}", t)}, {"valid", valid(t)},
                        {"again", J(relative_to_absolute(midnight(t), absolute_to_relative(midnight(t), t)))},
                        {"epoch", J(relative_to_absolute(absolute_time{}, R(c.at("a"))))},
                        {"str", p ? J(*p) : json("error")}});
       }},
      {"rel",
       [](json const& c) {
         auto const a = A(c.at("a"));
         auto const x = relative_to_absolute(a, R(c.at("r")));
         return ok(json{{"abs", J(x)}, {"rel", J(absolute_to_relative(a, x))}, {"cmp", three(a, x)}});
       }},
      {"ymd",
       [](json const& c) {
         return ok(J(ymd_to_abs(date::year_month_day{date::year{c.at("y").get<int>()}, date::month{c.at("m").get<unsigned>()},
                                                     date::day{c.at("d").get<unsigned>()}})));
       }},
      {"cmp", [](json const& c) {
         return ok(json{{"abs", three(A(c.at("a")), A(c.at("b")))}, {"rel", three(R(c.at("a")), R(c.at("b")))}});
       }},
      {"invalid",
       [](json const&) {
         return ok(json{{"abs", valid(INVALID<absolute_time>)}, {"rel", valid(INVALID<relative_time>)},
                        {"ut", utls::valid(utls::INVALID_TIME)}, {"du", utls::valid(utls::INVALID_DURATION)},
                        {"ut0", utls::valid(unixtime{})}, {"du0", utls::valid(dur{})},
                        {"utx", utls::valid(std::numeric_limits<unixtime>::max())}, {"dux", utls::valid(dur::INVALID)},
                        {"zero", utls::valid(utls::ZERO_DURATION) && utls::valid(dur::ZERO) && utls::valid(utls::EPOCH)},
                        {"zabs", valid(absolute_time{}) && valid(relative_time{0})},
                        {"epoch", J(utls::EPOCH)}, {"zdu", J(dur::ZERO + utls::ZERO_DURATION)},
                        {"max", std::numeric_limits<unixtime>::max() == utls::END_OF_TIME &&
                                    std::numeric_limits<unixtime>::min() < unixtime{-1} && std::numeric_limits<dur>::max() == dur::INVALID &&
                                    std::numeric_limits<dur>::min() < dur{-1} && std::numeric_limits<unixtime>::min() < utls::EPOCH &&
                                    !(utls::END_OF_TIME < utls::INVALID_TIME)},
                        {"text", utls::format_unix_time(utls::INVALID_TIME)}});
       }},
      {"ut",
       [](json const& c) {
         auto const x = num(c.at("a")), y = num(c.at("b"));
         unixtime const a{x}, b{y};
         dur const da{x}, db{y};
         unixtime p{a}; p += b;
         dur pd{da}; pd += db;
         dur md{da}; md -= db;
         if (pd != da + db) pd = dur{-12345};
         return ok(json{{"sum", J(a + b)}, {"diff", J(a - b)}, {"dsum", J(pd)}, {"ddiff", J(da - db)}, {"psum", J(p)},
                        {"mix", J(a + db)}, {"mixd", J(a - db)}, {"minus", J(md)}, {"count", cnt(static_cast<time_t>(a))},
                        {"dur", J(a.as_duration())}, {"valid", utls::valid(a) && utls::valid(da)},
                        {"same", cnt(static_cast<int64_t>(static_cast<size_t>(a)) + 0 * static_cast<int64_t>(static_cast<size_t>(da)))},
                        {"cmp", three(a, b)}, {"dcmp", three(da, db)}, {"ccmp", three(a, static_cast<time_t>(y))}});
       }},
      {"mul", [](json const& c) {
         auto const x = c.at("x").get<int64_t>(), y = c.at("y").get<int64_t>();
         return ok(json{{"ut", J(unixtime{x} * unixtime{y})}, {"du", J(dur{x} * dur{y})}});
       }},
      {"div", [](json const& c) {
         auto const x = c.at("x").get<int64_t>(), y = c.at("y").get<int64_t>();
         return ok(json{{"ut", J(unixtime{x} / unixtime{y})}, {"du", J(dur{x} / dur{y})},
                        {"utm", J(unixtime{x} % unixtime{y})}, {"dum", J(dur{x} % dur{y})}});
       }},
      {"unit", [](json const& c) {
         auto const x = c.at("x").get<int64_t>();
         return ok(json{{"s", J(utls::from_seconds(x))}, {"m", J(utls::from_minutes(x))}, {"h", J(utls::from_hours(x))},
                        {"d", J(utls::from_days(x))}, {"text", str(dur{x})}});
       }},
      {"literal", [](json const&) { return ok(json::array({J(7_s), J(7_m), J(7_h), J(0_s), J(90_m), J(25_h)})); }},
      {"in", [](json const& c) { return ok(unixtime{num(c.at("a"))}.in_interval(unixtime{num(c.at("from"))}, unixtime{num(c.at("to"))})); }},
      {"print", [](json const& c) {
         unixtime const t{num(c.at("a"))};
         return ok(json{{"long", cut(utls::format_unix_time(t))}, {"ymd", utls::format_unix_time(t, "%F")},
                        {"clock", cut(utls::format_unix_time(t, "%T"))}, {"hm", utls::format_unix_time(t, "%H:%M")}, {"out", cut(str(t))}});
       }},
      {"parse", [](json const& c) {
         auto const y = c.at("ymd").get<std::string>(), t = c.at("clock").get<std::string>();
         return ok(json{{"sp", J(unixtime{(y + " " + t).c_str(), utls::INPUT_FORMAT_STR})}, {"t", J(unixtime{y + "T" + t, "%FT%T"})},
                        {"day", J(unixtime{y, "%F"})}, {"str", J(unixtime{y + " " + t, utls::INPUT_FORMAT_STR})}});
       }},
  });
}
