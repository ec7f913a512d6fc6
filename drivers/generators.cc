#include "driver.h"

#include <memory>
#include <optional>
#include <vector>

#include "soro/utls/coroutine/collect.h"
#include "soro/utls/coroutine/coro_map.h"
#include "soro/utls/coroutine/generator.h"
#include "soro/utls/coroutine/iterator.h"
#include "soro/utls/coroutine/recursive_generator.h"

using namespace soro::utls;

struct instr;
using prog = std::vector<instr>;
struct instr {
  char k;
  int v;
  std::shared_ptr<prog> p;
};

static std::vector<std::shared_ptr<prog>> keep;
static std::vector<int> lg;
static int live = 0;
// something a body holds: counted, and on the heap so that a second release shows
struct held {
  held() : p{std::make_unique<int>(1)} { ++live; }
  ~held() { live -= *p; }
  std::unique_ptr<int> p;
};
// runs when the scope is left, whatever the way
struct error {};

static std::shared_ptr<prog> parse(json const& j) {
  auto p = std::make_shared<prog>();
  for (auto const& i : j)
    p->push_back({i.at("k").get<std::string>()[0], i.at("v").get<int>(), parse(i.at("p"))});
  keep.push_back(p);
  return p;
}

static recursive_generator<int> rec(prog const& p) {
  held h;
  for (auto const& i : p) {
    switch (i.k) {
      case 'm': lg.push_back(i.v); break;
      case 'y': { int x = i.v; co_yield x; break; }
      case 'r': co_yield int{i.v}; break;
      case 'w': { int x = i.v; co_yield x; lg.push_back(x); break; }
      case 'x': throw error{};
      case 'n': { recursive_generator<int> none; co_yield none; break; }
      case 'd': co_yield rec(*i.p); break;
      case 'D': { auto g = rec(*i.p); co_yield g; break; }
      case 't': {
        bool caught = false;
        try { co_yield rec(*i.p); } catch (error const&) { caught = true; }
        if (caught) lg.push_back(-1);
        break;
      }
      case 'l': for (auto& x : rec(*i.p)) co_yield x; break;
    }
  }
}

template <typename T>
static generator<T> gen(prog const& p) {
  held h;
  for (auto const& i : p) {
    switch (i.k) {
      case 'm': lg.push_back(i.v); break;
      case 'y': { int x = i.v; co_yield x; break; }
      case 'r': co_yield int{i.v}; break;
      case 'w': { int x = i.v; co_yield x; lg.push_back(x); break; }
      case 'l': for (auto& x : gen<T>(*i.p)) co_yield x; break;
    }
  }
}

static coro_it<int> it(prog const& p) {
  held h;
  for (auto const& i : p) {
    switch (i.k) {
      case 'm': lg.push_back(i.v); break;
      case 'y': { int x = i.v; co_yield x; break; }
      case 'r': co_yield int{i.v}; break;
      case 'w': { int x = i.v; co_yield x; lg.push_back(x); break; }
      case 'l': { auto a = it(*i.p); coro_it<int> e; for (; a != e; ++a) co_yield *a; break; }
    }
  }
}

static coro_it<int&> rit(prog const& p) {
  held h;
  for (auto const& i : p) {
    switch (i.k) {
      case 'm': lg.push_back(i.v); break;
      case 'y': case 'r': { int x = i.v; co_yield x; break; }
      case 'w': { int x = i.v; co_yield x; lg.push_back(x); break; }
      case 'l': { auto a = rit(*i.p); coro_it<int&> e; for (; a != e; ++a) co_yield *a; break; }
    }
  }
}

struct slot {
  std::string kind = "none";
  // generators live on the heap so that moving them is the only thing that moves
  std::unique_ptr<recursive_generator<int>> r;
  std::unique_ptr<generator<int>> g;
  std::unique_ptr<generator<int const>> c;
  std::unique_ptr<coro_it<int>> i;
  std::unique_ptr<coro_it<int&>> ri;
  std::optional<recursive_generator<int>::iterator> r_at;
  std::optional<generator<int>::iterator> g_at;
  std::optional<generator<int const>::iterator> c_at;
  bool at = false, used = false;
};
static slot sl[4];

static json out(char const* tag, std::vector<int> const& v) {
  json j = ok(json{{"r", tag}, {"v", v}, {"log", lg}, {"live", live}});
  lg.clear();
  return j;
}
static json na() { return out("na", {}); }

static int value(slot& s) {
  return s.r ? **s.r_at : s.g ? **s.g_at : s.c ? **s.c_at : s.i ? **s.i : **s.ri;
}
static bool is_end(slot& s) {
  if (s.r) return *s.r_at == s.r->end() && !(*s.r_at != s.r->end());
  if (s.g) return s.g_at == s.g->end() && !(*s.g_at != s.g->end()) && (s.g->end() == *s.g_at);
  if (s.c) return s.c_at == s.c->end() && !(*s.c_at != s.c->end()) && (s.c->end() == *s.c_at);
  if (s.i) { coro_it<int> e; return *s.i == e && e == *s.i && !(*s.i != e); }
  coro_it<int&> e;
  return *s.ri == e && e == *s.ri && !(*s.ri != e);
}
static json here(slot& s) {
  s.at = !is_end(s);
  return s.at ? out("value", {value(s)}) : out("end", {});
}

template <typename G>
static json whole(std::string const& op, G& g) {
  auto const f = [](int const x) { return 2 * x + 1; };
  std::vector<int> v;
  if (op == "drain") { for (auto const& x : g) v.push_back(x); }
  if (op == "collect") v = collect<std::vector<int>>(g);
  if (op == "collect2") v = collect<std::vector<int>>(g, f);
  if (op == "map") { for (auto const& x : coro_map(g, f)) v.push_back(x); }
  return out("all", v);
}

// would an error leave the body? (the spec leaves those out for map / fmap)
static bool fails(prog const& p) {
  for (auto const& i : p) {
    if (i.k == 'x') return true;
    if (i.k != 't' && fails(*i.p)) return true;
  }
  return false;
}

int main() {
  std::map<int, std::shared_ptr<prog>> progs;
  auto const S = [](json const& c, char const* k = "s") -> slot& { return sl[c.at(k).get<int>()]; };
  auto const drop = [](slot& s) { s = slot{}; };
  auto const consume = [&](json const& c) -> json {
    auto& s = S(c);
    auto const op = c.at("op").get<std::string>();
    if (s.r && !s.used) {
      if ((op == "map" || op == "fmap") && fails(*progs[c.at("s").get<int>()])) return na();
      s.used = true;
      s.at = false;
      try {
        if (op == "into") return out("all", s.r->emplace_back<std::vector<int>>());
        if (op == "fmap") {
          std::vector<int> v;
          {
            for (auto const& x : fmap([](int const x) { return 2 * x + 1; }, std::move(*s.r))) v.push_back(x);
          }
          drop(s);
          return out("all", v);
        }
        return whole(op, *s.r);
      } catch (error const&) {
        return out("error", {});
      }
    }
    if (op == "into" || op == "fmap" || !(s.g || s.c)) return na();
    s.at = false;
    if (s.g) return whole(op, *s.g);
    return whole(op, *s.c);
  };
  return run_driver({
      {"new",
       [&](json const&) {
         for (auto& s : sl) drop(s);
         if (live != 0) { std::cout << "@[\"leak\"]" << std::endl; }
         lg.clear();
         live = 0;
         progs.clear();
         keep.clear();
         return ok();
       }},
      {"make",
       [&](json const& c) {
         auto& s = S(c);
         drop(s);
         lg.clear();
         auto const p = parse(c.at("p"));
         progs[c.at("s").get<int>()] = p;
         auto const k = c.at("kind").get<std::string>();
         s.kind = k;
         if (k == "rec") s.r = std::make_unique<recursive_generator<int>>(rec(*p));
         if (k == "gen") { s.g = std::make_unique<generator<int>>(gen<int>(*p)); s.g_at = s.g->begin(); }
         if (k == "cgen") { s.c = std::make_unique<generator<int const>>(gen<int const>(*p)); s.c_at = s.c->begin(); }
         if (k == "it") s.i.reset(new coro_it<int>(it(*p)));
         if (k == "rit") s.ri.reset(new coro_it<int&>(rit(*p)));
         if (k != "rec") s.at = !is_end(s);
         return out("made", {});
       }},
      {"begin",
       [&](json const& c) {
         auto& s = S(c);
         if (s.r) {
           if (s.used) return na();
           s.used = true;
           try { s.r_at = s.r->begin(); } catch (error const&) { s.at = false; return out("error", {}); }
           return here(s);
         }
         if (s.g) {
           auto const x = std::as_const(*s.g).begin();
           bool const end = x == std::as_const(*s.g).end();
           s.g_at = s.g->begin();
           if (end != is_end(s)) return out("const differs", {});
           if (!end && *x != value(s)) return out("const differs", {*x});
           return here(s);
         }
         if (s.c) { s.c_at = s.c->begin(); return here(s); }
         return na();
       }},
      {"next",
       [&](json const& c) {
         auto& s = S(c);
         if (!s.at) return na();
         try {
           if (s.r) { if (c.value("post", false)) (*s.r_at)++; else ++*s.r_at; }
           if (s.g) { if (c.value("post", false)) (*s.g_at)++; else ++*s.g_at; }
           if (s.c) ++*s.c_at;
           if (s.i) ++*s.i;
           if (s.ri) ++*s.ri;
         } catch (error const&) {
           s.at = false;
           return out("error", {});
         }
         return here(s);
       }},
      {"get",
       [&](json const& c) {
         auto& s = S(c);
         if (!s.at) return na();
         int const a = value(s);
         if (s.r && s.r_at->operator->() != &**s.r_at) return out("pointer", {});
         if (s.g && s.g_at->operator->() != &**s.g_at) return out("pointer", {});
         return out("value", {a, value(s)});
       }},
      {"put",
       [&](json const& c) {
         auto& s = S(c);
         int const v = c.at("v").get<int>();
         if (!s.at || !(s.r || s.g || s.ri)) return na();
         if (s.r) **s.r_at = v;
         if (s.g) **s.g_at = v;
         if (s.ri) **s.ri = v;
         return out("value", {value(s)});
       }},
      {"drop", [&](json const& c) { drop(S(c)); progs.erase(c.at("s").get<int>()); return out("dropped", {}); }},
      {"move",
       [&](json const& c) {
         auto &s = S(c), &t = S(c, "t");
         if (&s == &t) return na();
         drop(t);
         t.kind = s.kind;
         if (s.r) t.r = std::make_unique<recursive_generator<int>>(std::move(*s.r));
         if (s.g) t.g = std::make_unique<generator<int>>(std::move(*s.g));
         if (s.c) t.c = std::make_unique<generator<int const>>(std::move(*s.c));
         if (s.i) t.i = std::make_unique<coro_it<int>>(std::move(*s.i));
         if (s.ri) t.ri = std::make_unique<coro_it<int&>>(std::move(*s.ri));
         t.r_at = s.r_at; t.g_at = s.g_at; t.c_at = s.c_at;
         t.at = s.at; t.used = s.used;
         if (s.r && (s.r->begin() != s.r->end())) return out("moved-from not empty", {});
         drop(s);
         progs[c.at("t").get<int>()] = progs[c.at("s").get<int>()];
         return out("moved", {});
       }},
      {"assign",
       [&](json const& c) {
         auto &s = S(c), &t = S(c, "t");
         if (!s.r || !t.r) return na();
         *t.r = std::move(*s.r);
         if (&s != &t) {
           t.r_at = s.r_at; t.at = s.at; t.used = s.used;
           if (s.r->begin() != s.r->end()) return out("moved-from not empty", {});
           drop(s);
           progs[c.at("t").get<int>()] = progs[c.at("s").get<int>()];
         }
         return out("moved", {});
       }},
      {"swap",
       [&](json const& c) {
         auto &s = S(c), &t = S(c, "t");
         if (!s.r || !t.r) return na();
         if (&s != &t) {
           swap(*s.r, *t.r);
           std::swap(s.r_at, t.r_at); std::swap(s.at, t.at); std::swap(s.used, t.used);
           std::swap(progs[c.at("s").get<int>()], progs[c.at("t").get<int>()]);
         }
         return out("moved", {});
       }},
      {"drain", consume}, {"collect", consume}, {"collect2", consume}, {"map", consume}, {"into", consume}, {"fmap", consume},
  });
}
