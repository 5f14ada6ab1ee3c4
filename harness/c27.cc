// C27: generators
#include "sx.h"
#include "utl/generator.h"
#include <memory>
#include <string>
#include <utility>

static int live, steps;          // objects alive in bodies; positions the body has passed
static unsigned plan[8];         // 0 yield, 1 throw, 2 return, 3 yield inside an inner scope
static int vals[8];
static unsigned len;
struct local {
  explicit local(int v) : p_{new int(v)} { ++live; }
  local(local const&) = delete;
  ~local() { sx_assert(p_ != nullptr && *p_ == 77, "local intact and destroyed once"); delete p_; p_ = nullptr; --live; }
  int* p_;
};
struct boom { int at; };
static utl::generator<int> body(unsigned n) {
  local l{77};
  for (unsigned i = 0; i < n; ++i) {
    steps = static_cast<int>(i) + 1;
    switch (plan[i]) {
      case 0: co_yield vals[i]; break;
      case 1: { local q{77}; throw boom{static_cast<int>(i)}; }
      case 2: co_return;
      default: { local q{77}; co_yield vals[i]; }
    }
  }
  steps = static_cast<int>(n) + 1;
}
static utl::generator<std::string> strings(unsigned n) {
  for (unsigned i = 0; i < n; ++i) co_yield std::string(i == 1 ? 20 : 3, static_cast<char>(vals[i]));
}
static utl::generator<int> outer(unsigned n) {  // a generator drawing from another one
  auto g = body(n);
  while (g) co_yield g();
}

static utl::generator<int> counter(int from, int count) {
  local l{77};
  for (int i = 0; i < count; ++i) co_yield from + i;
}
static void history() {
  unsigned const n = sx::choose("n", len + 1);
  for (unsigned i = 0; i < n; ++i) { plan[i] = sx::choose("plan", 4); vals[i] = sx::any<int>("v"); }
  // expected history
  unsigned avail = n;  // number of values
  bool throws = false;
  for (unsigned i = 0; i < n; ++i)
    if (plan[i] == 1 || plan[i] == 2) { avail = i; throws = plan[i] == 1; break; }
  bool const nested = sx::choose("nested", 2) == 1;
  steps = 0;
  live = 0;
  auto const base = sx_heap_live();
  {
    auto g = nested ? outer(n) : body(n);
    sx_assert(steps == 0 && live == 0, "nothing runs before the first request");
    unsigned pos = 0;
    bool over = false, filled = false;
    unsigned const budget = sx::param("ops", 5);
    auto other = body(0);
    for (unsigned k = 0; k < budget; ++k) {
      auto const op = sx::choose("op", 5);
      if (op == 0 || (op == 1 && (over || (pos == avail && !throws)))) {  // query; a request needs a value
        for (unsigned r = 0; r < 2; ++r) {
          try {
            bool const b = static_cast<bool>(g);
            sx_assert(!(pos == avail && throws && !over), "error surfaces");
            sx_assert(b == (!over && pos < avail), "exhaustion exactly after the last value");
            if (b) filled = true;
            else { over = true; sx_reach("exhausted"); }
          } catch (boom const& e) {
            sx_assert(throws && pos == avail && !over && e.at == static_cast<int>(avail), "the exception of the body");
            over = true;
            sx_reach("exception from query");
          }
        }
      } else if (op == 1) {
        try {
          int const v = g();
          sx_assert(pos < avail, "value only if there is one");
          sx_assert(v == vals[pos], "yielded values in order");
          sx_observe(static_cast<unsigned>(v));
          ++pos;
          filled = false;
          sx_reach("value");
        } catch (boom const& e) {
          sx_assert(throws && pos == avail && e.at == static_cast<int>(avail), "the exception of the body");
          over = true;
          sx_reach("exception from request");
        }
      } else if (op == 2) {  // move around
        auto h = std::move(g);
        g = std::move(h);
      } else if (op == 3) {  // the target of an assignment is itself in the middle of something
        auto h = counter(5, 3);
        auto const how = sx::choose("target", 3);
        if (how != 0) sx_assert(h() == 5, "first value");
        if (how == 2) sx_assert(static_cast<bool>(h), "another one");
        h = std::move(g);
        g = std::move(h);
        sx_reach("assigned to a running generator");
      } else {
        break;
      }
      // lazy: the body stands exactly at the last value asked for
      if (!over) sx_assert(steps == static_cast<int>(pos + (filled ? 1 : 0)), "body advances only on demand");
      sx_assert(over || live == ((pos || filled) ? (plan[pos + filled - 1] == 3 ? 2 : 1) : 0), "locals of the suspended body alive");
    }
    if (!over) sx_reach("destroyed early");
    (void)other;
  }
  sx_assert(live == 0, "all locals released");
  sx_assert(sx_heap_live() == base, "frame released");
}
static void collect() {
  unsigned const n = sx::choose("n", len + 1);
  for (unsigned i = 0; i < n; ++i) { plan[i] = 2 * sx::choose("plan", 2); vals[i] = sx::any<int>("v"); }
  unsigned avail = n;
  for (unsigned i = 0; i < n; ++i) if (plan[i] == 2) { avail = i; break; }
  live = 0;
  {
    auto g = body(n);
    unsigned const skip = sx::choose("skip", avail + 1);
    for (unsigned i = 0; i < skip; ++i) sx_assert(g() == vals[i], "value");
    if (sx::choose("peek", 2)) (void)static_cast<bool>(g);
    auto const v = g.to_vec();
    sx_assert(v.size() == avail - skip, "all remaining values");
    for (unsigned i = 0; i < v.size(); ++i) sx_assert(v[i] == vals[skip + i], "collected in order");
    sx_assert(!g, "exhausted");
    sx_reach("collected");
  }
  sx_assert(live == 0, "released");
}
static void text() {
  unsigned const n = sx::choose("n", len + 1);
  for (unsigned i = 0; i < n; ++i) vals[i] = sx::any<int8_t>("v");
  auto g = strings(n);
  unsigned pos = 0;
  while (g) {
    if (sx::choose("again", 2)) sx_assert(static_cast<bool>(g), "still there");
    auto s = g();
    sx_assert(pos < n && s.size() == (pos == 1 ? 20 : 3), "string value");
    for (auto c : s) sx_assert(c == static_cast<char>(vals[pos]), "string contents");
    ++pos;
  }
  sx_assert(pos == n, "all strings");
  sx_reach("strings");
}
// yields its own variables and needs them afterwards
static bool kept;
static utl::generator<std::string> own(char c, unsigned n) {
  std::string s(20, c);
  std::string const t(18, c);
  for (unsigned i = 0; i < n; ++i) {
    co_yield s;
    kept = kept && s.size() == 20 && s[0] == c && s[19] == c;
    co_yield t;
    kept = kept && t.size() == 18 && t[17] == c;
    std::string u(19, c);
    co_yield std::move(u);
  }
}
static void variables() {
  auto const c = sx::any<char>("c");
  unsigned const n = sx::choose("n", 3);
  kept = true;
  auto g = own(c, n);
  if (sx::choose("collect", 2)) {
    auto const v = g.to_vec();
    sx_assert(v.size() == 3 * n, "all values");
    for (unsigned i = 0; i < v.size(); ++i) sx_assert(v[i].size() == (i % 3 == 0 ? 20 : i % 3 == 1 ? 18 : 19) && v[i][0] == c, "value of a variable");
  } else {
    for (unsigned i = 0; i < 3 * n; ++i) {
      auto const s = g();
      sx_assert(s.size() == (i % 3 == 0 ? 20 : i % 3 == 1 ? 18 : 19) && s[0] == c && s[17] == c, "value of a variable");
    }
    sx_assert(!g, "exhausted");
  }
  sx_assert(kept, "yielded variables keep their value");
  sx_reach("variables");
}
// values that can only be moved
static utl::generator<std::unique_ptr<int>> pointers(int v, unsigned n) {
  for (unsigned i = 0; i < n; ++i) co_yield std::make_unique<int>(v);
}
static void movable() {
  auto const v = sx::any<int>("v");
  auto const base = sx_heap_live();
  {
    auto g = pointers(v, 3);
    auto p = g();
    sx_assert(p != nullptr && *p == v, "move-only value");
    if (sx::choose("collect", 2)) {
      auto const rest = g.to_vec();
      sx_assert(rest.size() == 2 && *rest[0] == v && *rest[1] == v, "move-only values collected");
    } else {
      auto q = g();
      sx_assert(q != nullptr && *q == v && q != p, "next move-only value");
    }
  }
  sx_assert(sx_heap_live() == base, "released");
  sx_reach("move-only");
}
static void many() {
  static int const counts[] = {127, 128, 255, 256, 257, 300};
  int const k = counts[sx::choose("count", 6)];
  auto const from = sx::in<int>("from", -1000000, 1000000);
  live = 0;
  {
    auto g = counter(from, k);
    int i = 0;
    for (; g; ++i) sx_assert(g() == from + i, "the next of many values");
    sx_assert(i == k, "all of many values");
    auto const v = counter(from, k).to_vec();
    sx_assert(v.size() == static_cast<size_t>(k) && v[static_cast<size_t>(k) - 1] == from + k - 1, "collected");
  }
  sx_assert(live == 0, "released");
  sx_reach("many values");
}
extern "C" void sx_main() {
  if (sx::param("big", 0)) return many();
  len = sx::param("n", 3);
  switch (sx::choose("mode", 5)) {
    case 0: history(); break;
    case 1: collect(); break;
    case 2: text(); break;
    case 3: variables(); break;
    default: movable();
  }
}
