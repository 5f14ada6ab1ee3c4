// C41: whole-collection algorithms
#include "sx.h"
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <vector>
#include "utl/helpers/algorithm.h"
#include <iterator>

using T = int8_t;
static size_t n;
static std::vector<T> in;
static T at(size_t i) { return in[i]; }

template <typename C>
static void same(C const& c) {
  size_t i = 0;
  for (auto x : c) { sx_assert(i < n && x == at(i), "collection unchanged"); ++i; }
  sx_assert(i == n, "length unchanged");
}
template <typename C>
static void queries(C& c) {
  auto const t = sx::any<T>("threshold");
  auto p = [&](T x) { return x < t; };
  size_t k = 0, first = n, eq = n;
  for (size_t i = 0; i < n; ++i) {
    k += at(i) < t ? 1 : 0;
    if (first == n) first = at(i) < t ? i : n;
    if (eq == n) eq = at(i) == t ? i : n;
  }
  auto pos = [&](auto it) { return static_cast<size_t>(std::distance(std::begin(c), it)); };
  switch (sx::choose("q", 9)) {
    case 0: sx_assert(utl::all_of(c, p) == (k == n), "all_of"); break;
    case 1: sx_assert(utl::any_of(c, p) == (k != 0), "any_of"); break;
    case 2: sx_assert(utl::none_of(c, p) == (k == 0), "none_of"); break;
    case 3: sx_assert(pos(utl::find_if(c, p)) == first, "find_if: the first"); break;
    case 4: sx_assert(pos(utl::find(c, t)) == eq, "find: the first"); break;
    case 5: sx_assert(static_cast<size_t>(utl::count_if(c, p)) == k, "count_if"); break;
    case 6: {
      bool up = true, down = true;
      for (size_t i = 1; i < n; ++i) { up = up & (at(i - 1) <= at(i)); down = down & (at(i - 1) >= at(i)); }
      sx_assert(utl::is_sorted(c, std::less<>{}) == up, "is_sorted");
      sx_assert(utl::is_sorted(c, [](T a, T b) { return a > b; }) == down, "is_sorted, other order");
      break;
    }
    case 7: {
      auto cmp = [](T a, T b) { return a / 2 < b / 2; };
      size_t lo = 0, hi = 0;
      for (size_t i = 1; i < n; ++i) { lo = cmp(at(i), at(lo)) ? i : lo; hi = cmp(at(hi), at(i)) ? i : hi; }
      sx_assert(pos(utl::min_element(c, cmp)) == lo, "min_element: the first smallest");
      sx_assert(pos(utl::max_element(c, cmp)) == hi, "max_element: the first largest");
      break;
    }
    default: {
      size_t const m = sx::choose("m", sx::param("n", 4) + 1);
      std::vector<T> d(m);
      for (auto& x : d) x = sx::any<T>("d");
      bool e = m == n;
      for (size_t i = 0; i < n && i < m; ++i) e = e & (d[i] == at(i));
      sx_assert(utl::equal(c, d) == e, "equal");
      sx_assert(utl::equal(d, c) == e, "equal, other way round");
      if (e && n > 1) sx_reach("equal");
    }
  }
  same(c);
  sx_observe(k);
}
template <typename C>
static void permuted(C const& c) {
  for (size_t i = 0; i < n; ++i) {
    int a = 0, b = 0;
    for (auto x : c) a += x == at(i) ? 1 : 0;
    for (auto x : in) b += x == at(i) ? 1 : 0;
    sx_assert(a == b, "a permutation of the collection");
  }
  sx_assert(static_cast<size_t>(std::distance(std::begin(c), std::end(c))) == n, "as long as before");
}
template <typename C>
static void changes(C& c) {
  switch (sx::choose("change", 5)) {
    case 0:
      utl::sort(c);
      for (size_t i = 1; i < n; ++i) sx_assert(c[i - 1] <= c[i], "sorted");
      break;
    case 1:
      utl::sort(c, [](T a, T b) { return a > b; });
      for (size_t i = 1; i < n; ++i) sx_assert(c[i - 1] >= c[i], "sorted the other way");
      break;
    case 2: case 3: {
      size_t const k = sx::choose("k", static_cast<unsigned>(n) + 1);
      bool const down = sx::choose("down", 2);
      if (down) utl::nth_element(c, k, [](T a, T b) { return a > b; });
      else utl::nth_element(c, k);
      if (k == n) { permuted(c); return; }
      for (size_t i = 0; i < n; ++i) {
        bool const le = down ? c[i] >= c[k] : c[i] <= c[k], ge = down ? c[i] <= c[k] : c[i] >= c[k];
        sx_assert(i <= k ? le : ge, "partitioned around the n-th");
      }
      sx_reach("nth");
      break;
    }
    default: {
      auto const v = sx::any<T>("fill");
      utl::fill(c, v);
      for (size_t i = 0; i < n; ++i) sx_assert(c[i] == v, "filled");
      sx_assert(static_cast<size_t>(std::distance(std::begin(c), std::end(c))) == n, "as long as before");
      return;
    }
  }
  permuted(c);
}
// long collections: one element is symbolic
static void large() {
  static unsigned const bigs[] = {15, 16, 17, 127, 128, 129, 255, 256, 257, 300};
  n = bigs[sx::choose("length", 10)];
  size_t const k = sx::choose("at", 4) * (n - 1) / 3;
  std::vector<int> x(n);
  for (size_t i = 0; i < n; ++i) x[i] = static_cast<int>(2 * i);
  x[k] = sx::any<int>("x");
  auto const x0 = x;
  auto const special = [](int v) { return (v & 1) != 0; };
  bool const odd = sx::fork((x[k] & 1) != 0);
  auto go = [&](auto const& c) {
    auto const pos = [&](auto it) { return static_cast<size_t>(std::distance(std::begin(c), it)); };
    sx_assert(utl::any_of(c, special) == odd && utl::none_of(c, special) == !odd && utl::all_of(c, special) == (odd && n == 1), "any, none and all of a long collection");
    sx_assert(pos(utl::find_if(c, special)) == (odd ? k : n), "find_if in a long collection");
    sx_assert(static_cast<size_t>(utl::count_if(c, special)) == (odd ? 1U : 0U) && static_cast<size_t>(utl::count_if(c, [](int) { return true; })) == n, "count_if in a long collection");
    sx_assert(pos(utl::find(c, static_cast<int>(2 * (n - 1)))) == (k == n - 1 ? (sx::fork(x0[k] == static_cast<int>(2 * n - 2)) ? n - 1 : n) : (sx::fork(x0[k] == static_cast<int>(2 * n - 2)) ? k : n - 1)), "find in a long collection");
    bool const sorted = (k == 0 || x0[k] >= static_cast<int>(2 * k - 2)) & (k + 1 == n || x0[k] <= static_cast<int>(2 * k + 2));
    sx_assert(utl::is_sorted(c, std::less<>{}) == sorted, "is_sorted of a long collection");
    std::vector<int> d(n);
    for (size_t i = 0; i < n; ++i) d[i] = static_cast<int>(2 * i);
    sx_assert(utl::equal(c, d) == (x0[k] == static_cast<int>(2 * k)), "equal of long collections");
    d.push_back(1);
    sx_assert(!utl::equal(c, d) && !utl::equal(d, c), "different lengths");
    auto const lo = k == 0 ? 2 : 0, hi = static_cast<int>(k == n - 1 ? 2 * n - 4 : 2 * n - 2);
    sx_assert(pos(utl::min_element(c, std::less<>{})) == (sx::fork(x0[k] < lo || (k == 0 && x0[k] == lo)) ? k : k == 0 ? 1U : 0U), "min_element of a long collection");
    sx_assert(pos(utl::max_element(c, std::less<>{})) == (sx::fork(x0[k] > hi || (k < n - 1 && x0[k] == hi)) ? k : k == n - 1 ? n - 2 : n - 1), "max_element of a long collection");
  };
  go(x);
  go(std::list<int>(x.begin(), x.end()));
  auto y = x;
  utl::fill(y, 5);
  sx_assert(static_cast<size_t>(utl::count_if(y, [](int v) { return v == 5; })) == n && y.size() == n, "filled");
  sx_reach("long");
}
// more elements than 16 bits can count
static void huge() {
  constexpr auto N = 65600U;
  auto const where = sx::choose("where", 3) * (N - 1) / 2;
  std::vector<uint8_t> v(N, 1);
  v[where] = 2;
  v[N - 1] = 2;
  v[N - 2] = 0;
  auto const t = static_cast<unsigned>(utl::count_if(v, [](uint8_t x) { return x == 1; }));
  sx_assert(t == N - (where == N - 1 ? 2U : 3U), "count_if in a huge collection");
  auto const pos = [&](auto it) { return static_cast<size_t>(it - v.begin()); };
  sx_assert(pos(utl::find(v, 0)) == N - 2 && pos(utl::find_if(v, [](uint8_t x) { return x == 0; })) == N - 2 && pos(utl::find(v, 3)) == N, "find in a huge collection");
  sx_assert(pos(utl::max_element(v, std::less<>{})) == where && pos(utl::min_element(v, std::less<>{})) == N - 2, "extremes of a huge collection");
  sx_assert(!utl::none_of(v, [](uint8_t x) { return x == 0; }) && utl::any_of(v, [](uint8_t x) { return x == 0; }) && !utl::all_of(v, [](uint8_t x) { return x != 0; }), "any, none and all of a huge collection");
  auto w = v;
  sx_assert(utl::equal(v, w), "equal huge collections");
  ++w[N - 1];
  sx_assert(!utl::equal(v, w), "huge collections that differ at the end");
  utl::fill(w, 7);
  sx_assert(w.size() == N && w[0] == 7 && w[N - 1] == 7 && w[32768] == 7, "filled");
  sx_reach("huge");
}
// C arrays
static void arrays() {
  int a[3];
  for (auto& x : a) x = sx::in<int8_t>("a", -100, 100);
  int const t = sx::any<int8_t>("threshold");
  auto const p = [&](int x) { return x < t; };
  unsigned k = 0;
  for (auto const x : a) k += x < t ? 1U : 0U;
  sx_assert(utl::all_of(a, p) == (k == 3) && utl::any_of(a, p) == (k != 0) && utl::none_of(a, p) == (k == 0) && static_cast<unsigned>(utl::count_if(a, p)) == k, "all, any, none and count of an array");
  auto const f = utl::find_if(a, p);
  for (int i = 0; i < 3; ++i) if (a + i < f) sx_assert(a[i] >= t, "find_if in an array: the first");
  sx_assert(f == a + 3 || *f < t, "find_if in an array");
  auto const e = utl::find(a, t);
  for (int i = 0; i < 3; ++i) if (a + i < e) sx_assert(a[i] != t, "find in an array: the first");
  sx_assert(e == a + 3 || *e == t, "find in an array");
  sx_assert(utl::is_sorted(a, std::less<>{}) == ((a[0] <= a[1]) & (a[1] <= a[2])), "is_sorted of an array");
  int const b[3] = {a[0], a[1], a[2]};
  if (sx::choose("down", 2)) {
    utl::sort(a, std::greater<>{});
    sx_assert((a[0] >= a[1]) & (a[1] >= a[2]), "array sorted the other way");
  } else {
    utl::sort(a);
    sx_assert((a[0] <= a[1]) & (a[1] <= a[2]), "array sorted");
  }
  for (auto const x : b) sx_assert((x == a[0]) + (x == a[1]) + (x == a[2]) == (x == b[0]) + (x == b[1]) + (x == b[2]), "the same elements");
  sx_reach("array");
}
extern "C" void sx_main() {
  if (sx::param("big", 0) == 2) return huge();
  if (sx::param("big", 0)) return large();
  if (sx::choose("array", 2)) return arrays();
  bool const change = sx::choose("mutating", 2);
  n = sx::choose("n", sx::param(change ? "sort" : "n", 4) + 1);
  in.resize(n);
  for (auto& x : in) x = sx::any<T>("a");
  if (change) {
    if (sx::choose("deque", 2)) { std::deque<T> c(in.begin(), in.end()); changes(c); }
    else { auto c = in; changes(c); }
    return;
  }
  switch (sx::choose("type", 4)) {
    case 0: { auto c = in; queries(c); break; }
    case 1: { auto const c = in; queries(c); break; }
    case 2: { std::list<T> c(in.begin(), in.end()); queries(c); break; }
    default: { std::deque<T> c(in.begin(), in.end()); queries(c); break; }
  }
}
