// C25: pipeline sinks
#include "sx.h"
#include "utl/pipes.h"
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

static bool same_double(double a, double b) {
  uint64_t x, y;
  std::memcpy(&x, &a, 8);
  std::memcpy(&y, &b, 8);
  return x == y || (a != a && b != b) || a == b;
}
// the sinks that accept a range, a container or a pointer to a container
template <typename T, typename Src>
static void any_source(std::vector<T> const& x, Src src, unsigned what) {
  switch (what) {
    case 0: {
      T const lim = sx::any<T>("lim");
      size_t want = 0;
      unsigned calls = 0;
      for (auto const& e : x) want += e < lim ? 1 : 0;
      size_t const got = src() | utl::count([&](T const& e) { ++calls; return e < lim; });
      size_t const got2 = src() | utl::count([&](T const& e) { return e < lim ? -2 : 0; });
      sx_assert(got2 == want, "count with a predicate that returns a number");
      sx_assert(got == want && calls == x.size(), "count");
      sx_reach("count");
      break;
    }
    case 1: {
      if constexpr (std::is_same_v<T, float>) {
        double want = 0;
        for (auto const e : x) want += e;
        sx_assert(same_double(src() | utl::sum(), want), "sum of fractional numbers");
      } else if constexpr (std::is_floating_point_v<T>) {
        T want = 0;
        for (auto const e : x) want += e;
        sx_assert(same_double(src() | utl::sum(), want), "sum of fractional numbers");
        if (x.size() > 1) sx_reach("fractional sum");
      } else {
        long long want = 0;
        for (auto const e : x) want += e;
        auto const got = src() | utl::sum();
        sx_assert(static_cast<long long>(got) == want && (std::is_unsigned_v<T> || (got < 0) == (want < 0)), "sum of integers");
        if (x.size() > 1) sx_reach("integer sum");
      }
      break;
    }
    case 2: {
      T const start = sx::any<T>("start");
      T want = start;
      for (auto const& e : x) want = want < e ? e : want;
      T const got = src() | utl::max<T>{start};
      sx_assert(got == want || (want != want && got != got), "maximum");
      T zero{};
      for (auto const& e : x) zero = zero < e ? e : zero;
      T const got0 = src() | utl::max<T>();
      sx_assert(got0 == zero, "maximum from zero");
      if (x.size() > 1) sx_reach("max");
      break;
    }
    case 3: {  // a fold that is neither commutative nor associative
      std::vector<T> want{T{7}}, got = src() | utl::accumulate([](std::vector<T> a, T const& e) { a.push_back(e); return a; }, std::vector<T>{T{7}});
      for (auto const& e : x) want.push_back(e);
      sx_assert(got.size() == want.size(), "fold sees every element once");
      for (size_t i = 0; i < want.size(); ++i) sx_assert(std::memcmp(&got[i], &want[i], sizeof(T)) == 0, "fold in order");
      break;
    }
    case 4: {
      T const v = sx::any<T>("v");
      unsigned calls = 0;
      auto const got = src() | utl::find([&](T const& e) { ++calls; return e < v ? nullptr : &v; });
      size_t i = 0;
      while (i < x.size() && sx::fork(x[i] < v)) ++i;
      sx_assert(got.has_value() == (i < x.size()), "found exactly if present");
      if (i < x.size()) { sx_assert(std::memcmp(&*got, &x[i], sizeof(T)) == 0, "first match"); sx_reach("found"); }
      sx_assert(calls == (i < x.size() ? i + 1 : x.size()), "search stops at the match");
      break;
    }
    case 5: {
      if constexpr (std::is_integral_v<T>) {
        auto const got = src() | utl::insert<std::multiset<T>>();
        auto const want = std::multiset<T>(x.begin(), x.end());
        sx_assert(got.size() == want.size(), "inserted elements");
        auto it = got.begin();
        for (auto const& e : want) { sx_assert(*it == e, "inserted elements"); ++it; }
        auto const got2 = src() | utl::emplace<std::multiset<T>>();
        sx_assert(got2.size() == want.size(), "emplaced elements");
        it = got2.begin();
        for (auto const& e : want) { sx_assert(*it == e, "emplaced elements"); ++it; }
        sx_reach("inserted");
      }
    }
  }
}
// the sinks that take a range
template <typename T, typename Src>
static void range_source(std::vector<T> const& x, Src src, unsigned what) {
  switch (what) {
    case 6: {
      if (std::is_floating_point_v<T>) {
        using S = decltype(T{} + double{});
        S want = 0;
        for (auto const e : x) want += e;
        auto const got = src() | utl::avg();
        sx_assert(x.empty() ? got != got : same_double(got, static_cast<double>(want) / static_cast<double>(x.size())), "average of fractional numbers");
      } else {
        long long want = 0;
        for (auto const e : x) want += e;
        auto const got = src() | utl::avg();
        auto const dw = std::is_signed_v<T> ? static_cast<double>(want) : static_cast<double>(static_cast<size_t>(want));
        sx_assert(x.empty() ? got != got : same_double(got, dw / static_cast<double>(x.size())), "average of integers");
        if (x.size() > 1) sx_reach("average");
      }
      break;
    }
    case 7: {
      size_t i = 0;
      src() | utl::for_each([&](T const& e) { sx_assert(i < x.size() && std::memcmp(&e, &x[i], sizeof(T)) == 0, "each element in order"); ++i; });
      sx_assert(i == x.size(), "each element once");
      break;
    }
    case 8: {
      auto seq = [&](auto const& got) {
        sx_assert(got.size() == x.size(), "collected elements");
        size_t i = 0;
        for (auto const& e : got) { sx_assert(std::memcmp(&e, &x[i], sizeof(T)) == 0, "collected in order"); ++i; }
      };
      seq(src() | utl::vec());
      seq(src() | utl::emplace_back<std::list<T>>());
      seq(src() | utl::emplace_back_to<std::deque<T>>());
      if constexpr (std::is_integral_v<T>) {
        auto const got = src() | utl::to<std::set<T>>();
        auto const want = std::set<T>(x.begin(), x.end());
        sx_assert(got.size() == want.size(), "set of elements");
        auto it = got.begin();
        for (auto const& e : want) { sx_assert(*it == e, "set of elements"); ++it; }
      }
      sx_reach("collected");
      break;
    }
    case 9: {  // a map: the first entry of a key wins
      if constexpr (std::is_integral_v<T>) {
        unsigned i = 0;
        std::map<T, unsigned> want;
        for (auto const& e : x) want.emplace(e, i++);
        i = 0;
        auto const got = src() | utl::transform([&](T const& e) {
          unsigned idx = 0;
          while (idx < x.size() && x[idx] != e) ++idx;
          return std::pair<T const, unsigned>{e, idx}; }) | utl::emplace<std::map<T, unsigned>>();
        sx_assert(got.size() == want.size(), "map of elements");
        auto it = got.begin();
        for (auto const& e : want) { sx_assert(it->first == e.first && it->second == e.second, "map of elements"); ++it; }
        sx_reach("map");
      }
    }
  }
}
template <typename T>
static void run(unsigned what) {
  std::vector<T> x(sx::choose("m", sx::param("n", 3) + 1));
  for (auto& e : x) {
    e = sx::any<T>("x");
    if constexpr (std::is_floating_point_v<T>) sx_assume(e == e);
    else if (sizeof(T) == 8 && (what == 1 || what == 6)) { sx_assume(e >= (std::is_signed_v<T> ? static_cast<T>(-(1LL << 60)) : T{0})); sx_assume(e <= static_cast<T>(1LL << 60)); }
  }
  auto const x0 = x;
  if (what < 6) {
    switch (sx::choose("source", 7)) {
      case 0: any_source(x0, [&] { return utl::all(x); }, what); break;
      case 1: any_source(x0, [&]() -> std::vector<T>& { return x; }, what); break;
      case 2: any_source(x0, [&] { return &x; }, what); break;
      case 3: any_source(x0, [&] { return std::vector<T>(x); }, what); break;
      case 4: any_source(x0, [&]() -> std::vector<T> const& { return x; }, what); break;
      case 5: any_source(x0, [&] { return utl::all(x) | utl::remove_if([](T const&) { return false; }); }, what); break;
      case 6: any_source(x0, [&] { return static_cast<std::vector<T> const*>(&x); }, what); break;
    }
  } else {
    switch (sx::choose("source", 4)) {
      case 0: range_source(x0, [&] { return utl::all(x); }, what); break;
      case 1: range_source(x0, [&] { return utl::all(std::vector<T>(x)); }, what); break;
      case 2: { auto r = utl::all(x); range_source(x0, [&]() -> auto& { return r; }, what); break; }
      case 3: range_source(x0, [&] { return utl::all(x) | utl::transform([](T const& e) { return e; }); }, what); break;
    }
  }
  sx_assert(x.size() == x0.size(), "source unchanged");
  for (size_t i = 0; i < x.size(); ++i) sx_assert(std::memcmp(&x[i], &x0[i], sizeof(T)) == 0, "source unchanged");
}
// elements that notice being moved from
struct M {
  M() = default;
  explicit M(int x) : v{x} {}
  M(M const&) = default;
  M(M&& o) noexcept : v{o.v} { o.gone = true; }
  M& operator=(M const&) = default;
  M& operator=(M&& o) noexcept { v = o.v; gone = o.gone; o.gone = true; return *this; }
  friend bool operator<(M const& a, M const& b) { return a.v < b.v; }
  friend bool operator>(M const& a, M const& b) { return b < a; }
  friend bool operator==(M const& a, M const& b) { return a.v == b.v; }
  friend bool operator!=(M const& a, M const& b) { return !(a == b); }
  int v{0};
  bool gone{false};
};
template <typename C, typename Src>
static void keeps(C& x, Src src) {
  std::vector<int> x0;
  for (auto const& e : x) x0.push_back(e.v);
  auto const m = x0.size();
  auto const intact = [&](auto const& got, char const* what) {
    sx_assert(got.size() == m, what);
    for (auto const& e : got) sx_assert(!e.gone, what);
  };
  auto const lim = sx::any<int>("lim");
  auto const sink = sx::choose("sink", 10);
  switch (sink) {
    case 0: { auto const f = src() | utl::find([&](M e) { return e.v < lim; }); sx_assert(!f.has_value() || (!f->gone && f->v < lim), "found"); break; }
    case 1: intact(src() | utl::insert<std::multiset<M>>(), "inserted"); break;
    case 2: intact(src() | utl::emplace<std::multiset<M>>(), "emplaced"); break;
    case 3: (void)(src() | utl::count([&](M e) { return e.v < lim; })); break;
    case 4: { auto const f = src() | utl::max<M>(); sx_assert(!f.gone, "maximum"); break; }
    case 5: intact(src() | utl::accumulate([](std::vector<M> a, M e) { a.push_back(e); return a; }, std::vector<M>{}), "folded"); break;
    default:
      if constexpr (requires(std::remove_cvref_t<decltype(src())> r, decltype(src().begin()) it) { r.valid(it); }) {
        auto r = src();
        switch (sink) {
          case 6: intact(r | utl::vec(), "collected"); break;
          case 7: intact(r | utl::emplace_back<std::list<M>>(), "collected"); break;
          case 8: intact(r | utl::to<std::multiset<M>>(), "collected"); intact(r | utl::emplace_back_to<std::deque<M>>(), "collected"); break;
          default: { unsigned k = 0; r | utl::for_each([&](M e) { sx_assert(k < m && e.v == x0[k] && !e.gone, "each"); ++k; }); sx_assert(k == m, "each"); }
        }
      }
  }
  size_t i = 0;
  for (auto const& e : x) { sx_assert(!e.gone && e.v == x0[i], "source unchanged"); ++i; }
  sx_assert(i == m, "source unchanged");
  sx_reach("keeps its elements");
}
static void borrowed() {
  unsigned const m = sx::choose("m", sx::param("n", 3) + 1);
  if (sx::choose("list", 2)) {
    std::list<M> x;
    for (unsigned i = 0; i < m; ++i) x.emplace_back(sx::any<int>("x"));
    switch (sx::choose("source", 3)) {
      case 0: keeps(x, [&] { return utl::all(x); }); break;
      case 1: keeps(x, [&] { return utl::all(x.begin(), x.end()); }); break;
      case 2: keeps(x, [&]() -> std::list<M>& { return x; }); break;
    }
  } else {
    std::vector<M> x;
    x.reserve(m);
    for (unsigned i = 0; i < m; ++i) x.emplace_back(sx::any<int>("x"));
    switch (sx::choose("source", 5)) {
      case 0: keeps(x, [&] { return utl::all(x); }); break;
      case 1: keeps(x, [&]() -> std::vector<M>& { return x; }); break;
      case 2: keeps(x, [&] { return &x; }); break;
      case 3: keeps(x, [&] { return utl::all(x) | utl::remove_if([](M) { return false; }) | utl::take_while([](M) { return true; }); }); break;
      case 4: keeps(x, [&] { return utl::all(x) | utl::transform([](M e) { return e; }); }); break;
    }
  }
}
// long sources
static void large() {
  static unsigned const bigs[] = {127, 128, 255, 256, 257, 300};
  unsigned const n = bigs[sx::choose("length", 6)];
  std::vector<int> x(n);
  int64_t total = 0;
  for (unsigned i = 0; i < n; ++i) { x[i] = static_cast<int>(i) - 60; total += x[i]; }
  auto const s = sx::in<int>("x", -1000000, 1000000);
  total += s - x[n / 2];
  x[n / 2] = s;
  sx_assert((x | utl::count([](int) { return true; })) == n && (utl::all(x) | utl::count([](int v) { return v >= -2000000; })) == n, "count of many");
  sx_assert((utl::all(x) | utl::sum()) == total && (&x | utl::sum()) == total, "sum of many");
  auto const top = static_cast<int>(n) - 61;
  {
    auto y = x;
    y[n / 2] = 1;
    y[n - 2] = s;
    sx_assert((utl::all(y) | utl::max<int>()) == (s > top ? s : top), "maximum of many");
  }
  sx_assert((utl::all(x) | utl::vec()) == x, "collected");
  unsigned calls = 0;
  utl::all(x) | utl::for_each([&](int const& v) { sx_assert(&v == &x[calls], "each in order"); ++calls; });
  sx_assert(calls == n, "each of many");
  auto const f = utl::all(x) | utl::find([&](int const& v) { return v == top; });
  sx_assert(f.has_value() && *f == top, "found among many");
  total += 7 - s;
  x[n / 2] = 7;
  sx_assert(same_double(utl::all(x) | utl::avg(), static_cast<double>(total) / static_cast<double>(n)), "average of many");
  sx_assert((utl::all(x) | utl::insert<std::multiset<int>>()).size() == n, "many inserted");
  sx_reach("long");
}
extern "C" void sx_main() {
  if (sx::param("big", 0)) return large();
  if (sx::param("moved", 0)) return borrowed();
  auto const what = sx::choose("sink", 10);
  switch (sx::choose("type", 6)) {
    case 0: run<int>(what); break;
    case 1: run<unsigned>(what); break;
    case 2: run<int64_t>(what); break;
    case 3: run<uint64_t>(what); break;
    case 4: run<double>(what); break;
    case 5: run<float>(what); break;
  }
}
