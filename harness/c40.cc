// C40: container conversion helpers
#include "sx.h"
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "utl/concat.h"
#include "utl/repeat_n.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
#include <iterator>

static size_t n;
static std::vector<int8_t> in;
static std::vector<int8_t> log_;
static int f(int8_t v) { return v * 3 + 1; }
struct op {
  int operator()(int8_t const& v) { log_.push_back(v); return f(v); }
};
static void check_log() {
  sx_assert(log_.size() == n, "function called once per element");
  for (size_t i = 0; i < log_.size() && i < n; ++i) sx_assert(log_[i] == in[i], "in order");
}
template <typename V>
static void check(V const& v, size_t skip = 0) {
  size_t i = 0;
  for (auto const& x : v) {
    if (i >= skip && i - skip < n) sx_assert(x == f(in[i - skip]), "exactly the results, in order");
    ++i;
  }
  sx_assert(i == n + skip, "as many results as elements");
  check_log();
}
template <typename C>
static void unchanged(C const& c) {
  size_t i = 0;
  for (auto const& x : c) { sx_assert(i < n && x == in[i], "input unchanged"); ++i; }
  sx_assert(i == n, "input length unchanged");
}
template <typename C>
static void forms(C& c) {
  switch (sx::choose("form", 12)) {
    case 0: check(utl::to_vec(c, op{})); break;
    case 1: check(utl::to_vec(std::begin(c), std::end(c), op{})); break;
    case 2: check(utl::to_vec(static_cast<C const&>(c), op{})); break;
    case 3: {
      auto const v = utl::to_vec(c);
      static_assert(std::is_same_v<decltype(v), std::vector<int8_t> const>);
      unchanged(v);
      break;
    }
    case 4: check(utl::transform_to<std::vector<long>>(c, op{})); break;
    case 5: {
      std::vector<int> out{77, 78};
      utl::transform_to(c, out, op{});
      check(out, 2);
      sx_assert(out[0] == 77 && out[1] == 78, "what was in the output stays");
      break;
    }
    case 6: {
      auto o = op{};
      auto const v = utl::to_vec(c, [&](int8_t& x) { return std::make_unique<int>(o(x)); });
      sx_assert(v.size() == n, "results that can only be moved");
      for (size_t i = 0; i < n && i < v.size(); ++i) sx_assert(*v[i] == f(in[i]), "move-only results");
      check_log();
      break;
    }
    case 10: case 11: {  // results that are never empty
      struct made {
        explicit made(int v) : v_{v} {}
        int v_;
      };
      auto o = op{};
      auto const fn = [&](int8_t& x) { return made{o(x)}; };
      auto const v = sx::choose("iterators", 2) ? utl::to_vec(std::begin(c), std::end(c), fn) : sx::choose("to", 2) ? utl::to_vec(c, fn) : utl::transform_to<std::vector<made>>(c, fn);
      sx_assert(v.size() == n, "results without a default");
      for (size_t i = 0; i < n && i < v.size(); ++i) sx_assert(v[i].v_ == f(in[i]), "the results");
      check_log();
      break;
    }
    case 7: {  // results by reference are copied
      auto v = utl::to_vec(c, [](int8_t& x) -> int8_t& { log_.push_back(x); return x; });
      static_assert(std::is_same_v<decltype(v), std::vector<int8_t>>);
      unchanged(v);
      check_log();
      for (auto& x : v) x = static_cast<int8_t>(x + 1);
      break;
    }
    case 8: case 9: {
      auto key = [](int8_t const& v) { log_.push_back(v); return v / 4; };
      auto const s = sx::choose("iterators", 2) ? utl::to_set(std::begin(c), std::end(c), key) : utl::to_set(c, key);
      check_log();
      for (auto x : in) {
        bool found = false;
        for (auto y : s) found = found | (y == x / 4);
        sx_assert(found, "every result in the set");
      }
      bool first = true;
      int last = 0;
      for (auto y : s) {
        bool some = false;
        for (auto x : in) some = some | (y == x / 4);
        sx_assert(some, "nothing else in the set");
        sx_assert(first || last < y, "ascending, once each");
        first = false;
        last = y;
      }
      if (s.size() < n) sx_reach("equal results");
      break;
    }
  }
  unchanged(c);
}
static void concats() {
  size_t const m = sx::choose("m", sx::param("n", 4) + 1);
  std::vector<int8_t> b(m);
  for (auto& x : b) x = sx::any<int8_t>("b");
  auto go = [&]<typename C1, typename C2>(C1 c1, C2 const& c2) {
    auto& r = utl::concat(c1, c2);
    sx_assert(&r == &c1, "returns the first container");
    size_t i = 0;
    for (auto x : c1) { sx_assert(i < n + m && x == (i < n ? in[i] : b[i - n]), "first, then second"); ++i; }
    sx_assert(i == n + m, "all elements");
    i = 0;
    for (auto x : c2) { sx_assert(x == b[i], "second unchanged"); ++i; }
    sx_assert(i == m, "second unchanged (length)");
  };
  switch (sx::choose("types", 4)) {
    case 0: go(std::vector<int8_t>(in), b); break;
    case 1: go(std::vector<long>(in.begin(), in.end()), std::list<int8_t>(b.begin(), b.end())); break;
    case 2: go(std::list<int8_t>(in.begin(), in.end()), b); break;
    default: go(std::deque<int8_t>(in.begin(), in.end()), b); break;
  }
  sx_reach("concat");
}
static void repeats() {
  auto const v = sx::any<int>("v");
  auto const k = sx::choose("count", 2 * sx::param("n", 4) + 1);
  auto const r = utl::repeat_n(v, k);
  sx_assert(r.size() == k, "n copies");
  for (auto x : r) sx_assert(x == v, "copies");
  auto const l = utl::repeat_n<int, std::list<int>>(v, k);
  sx_assert(l.size() == k, "n copies in another container");
  for (auto x : l) sx_assert(x == v, "copies in another container");
  std::string const s(1, static_cast<char>(v));
  auto const t = utl::repeat_n(s, k);
  sx_assert(t.size() == k, "n copies of an object");
  for (auto const& x : t) sx_assert(x == s, "copies of an object");
  sx_reach("repeat");
}
// the function fails in the middle: nothing is lost, nothing stays allocated
static void throwing() {
  if (n == 0) return;
  size_t const at = sx::choose("at", static_cast<unsigned>(n));
  size_t calls = 0;
  auto bad = [&](int8_t v) { if (calls++ == at) throw 1; return std::string(20, static_cast<char>(v)); };
  auto const live = sx_heap_live();
  try {
    switch (sx::choose("where", 3)) {
      case 0: utl::to_vec(in, bad); break;
      case 1: utl::transform_to<std::vector<std::string>>(in, bad); break;
      default: utl::to_set(in, bad); break;
    }
    sx_fail("exception lost");
  } catch (int) {
  }
  sx_assert(calls == at + 1, "stops at the failure");
  sx_assert(sx_heap_live() == live, "nothing leaks");
  sx_reach("throwing");
}
// elements that notice being moved from; named containers keep theirs
struct tok {
  tok() = default;
  explicit tok(int8_t v) : v_{v} {}
  tok(tok const& o) : v_{o.v_} {}
  tok(tok&& o) noexcept : v_{o.v_} { o.gone_ = true; }
  tok& operator=(tok const& o) { v_ = o.v_; gone_ = o.gone_; return *this; }
  tok& operator=(tok&& o) noexcept { v_ = o.v_; gone_ = o.gone_; if (this != &o) o.gone_ = true; return *this; }
  bool operator<(tok const& o) const { return v_ < o.v_; }
  bool operator>(tok const& o) const { return o.v_ < v_; }
  bool operator<=(tok const& o) const { return !(o.v_ < v_); }
  bool operator>=(tok const& o) const { return !(v_ < o.v_); }
  bool operator==(tok const& o) const { return v_ == o.v_; }
  int8_t v_{0};
  bool gone_{false};
};
template <typename C>
static void whole(C const& c, size_t const count, char const* what) {
  size_t i = 0;
  bool ok = true;
  for (auto const& x : c) { ok &= i < count && x.v_ == in[i] && !x.gone_; ++i; }
  sx_assert(ok & (i == count), what);
}
template <typename C>
static void owned() {
  C c;
  for (auto const x : in) c.emplace_back(x);
  switch (sx::choose("form", 8)) {
    case 0: whole(utl::to_vec(c), n, "copies"); break;
    case 1: whole(utl::to_vec(std::as_const(c)), n, "copies of a constant container"); break;
    case 2: whole(utl::to_vec(c, [](auto&& x) { return x; }), n, "function results"); break;
    case 3: whole(utl::to_vec(begin(c), end(c), [](auto&& x) -> decltype(auto) { return (x); }), n, "function results by reference"); break;
    case 4: { std::deque<tok> d; for (auto const x : in) d.emplace_back(x); utl::concat(d, c); sx_assert(d.size() == 2 * n, "all elements"); for (size_t i = 0; i < d.size(); ++i) sx_assert(!d[i].gone_ & (d[i].v_ == in[i % n]), "first, then second"); break; }
    case 5: { std::vector<tok> o; utl::transform_to(c, o, [](auto&& x) { return x; }); whole(o, n, "given output"); break; }
    case 6: { auto const s = utl::to_set(c, [](auto&& x) { return x.v_; }); for (auto const x : in) sx_assert(s.count(x) == 1, "in the set"); break; }
    case 7: if (n != 0) { auto const r = utl::repeat_n(c.front(), 3); for (auto const& x : r) sx_assert(!x.gone_ & (x.v_ == in[0]), "copies"); sx_reach("element objects"); } break;
  }
  whole(c, n, "a named source keeps its elements");
}
// long containers: a few elements are symbolic
static void large() {
  static unsigned const bigs[] = {15, 16, 17, 127, 128, 129, 255, 256, 257, 300};
  n = bigs[sx::choose("length", 10)];
  std::vector<int> x(n);
  for (size_t i = 0; i < n; ++i) x[i] = i == n / 3 || i + 1 == n ? sx::any<int>("x") : static_cast<int>(i);
  auto same = [&](auto const& v, size_t const skip, char const* what) {
    bool ok = v.size() == n + skip;
    size_t i = 0;
    for (auto const& e : v) { if (i >= skip && i - skip < n) ok &= e == (x[i - skip] ^ 21); ++i; }
    sx_assert(ok, what);
  };
  size_t calls = 0;
  auto fn = [&](int v) { ++calls; return v ^ 21; };
  std::list<int> const l(x.begin(), x.end());
  same(utl::to_vec(x, fn), 0, "many results");
  same(utl::to_vec(l, fn), 0, "many results of a list");
  std::vector<int> out{5, 6};
  utl::transform_to(l, out, fn);
  same(out, 2, "many results in a given output");
  sx_assert(calls == 3 * n, "once per element");
  std::vector<int> c{1, 2, 3};
  utl::concat(c, x);
  bool ok = c.size() == n + 3;
  for (size_t i = 0; i < n; ++i) ok &= c[i + 3] == x[i];
  sx_assert(ok, "all elements of a long second container");
  auto d = x;
  utl::concat(d, l);
  ok = d.size() == 2 * n;
  for (size_t i = 0; i < d.size(); ++i) ok &= d[i] == x[i % n];
  sx_assert(ok, "two long containers");
  auto const s = utl::to_set(l, [](int v) { return v / 2 * 0 + (v & 7); });
  sx_assert(s.size() == 8, "distinct results of a long container");
  sx_assert(utl::to_set(std::vector<int>(n, x[0]), fn).size() == 1, "one distinct result");
  auto const r = utl::repeat_n(x[n / 3], n);
  ok = r.size() == n;
  for (auto const e : r) ok &= e == x[n / 3];
  sx_assert(ok, "many copies");
  sx_reach("long");
}
extern "C" void sx_main() {
  if (sx::param("big", 0)) return large();
  n = sx::choose("n", sx::param("n", 4) + 1);
  in.resize(n);
  for (auto& x : in) x = sx::any<int8_t>("a");
  log_.reserve(64);
  switch (sx::choose("what", 9)) {
    case 0: { auto c = in; forms(c); break; }
    case 1: { std::list<int8_t> c(in.begin(), in.end()); forms(c); break; }
    case 2: { std::deque<int8_t> c(in.begin(), in.end()); forms(c); break; }
    case 3: {
      int8_t a[3];
      n = 3;
      in.resize(3);
      for (int i = 0; i < 3; ++i) in[i] = a[i] = sx::any<int8_t>("arr");
      forms(a);
      break;
    }
    case 4: concats(); break;
    case 5: repeats(); break;
    case 6: owned<std::vector<tok>>(); break;
    case 7: owned<std::list<tok>>(); break;
    default: throwing();
  }
}
