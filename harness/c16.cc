// C16: equal ranges
#include "sx.h"
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"
#include <list>
#include <vector>
#include <iterator>
using namespace utl;

struct E { int k; unsigned id; };
static bool operator==(E const& a, E const& b) { return a.k == b.k; }
static bool operator!=(E const& a, E const& b) { return a.k != b.k; }
static bool operator<(E const& a, E const& b) { return a.k < b.k; }
[[maybe_unused]] static bool operator>(E const& a, E const& b) { return b < a; }
[[maybe_unused]] static bool operator<=(E const& a, E const& b) { return !(b < a); }
[[maybe_unused]] static bool operator>=(E const& a, E const& b) { return !(a < b); }

template <typename C>
static void linear(std::vector<E> const& x, unsigned form) {
  C c(x.begin(), x.end());
  std::vector<std::pair<size_t, size_t>> runs;
  auto fn = [&](auto lo, auto hi) { runs.emplace_back(std::distance(c.begin(), lo), std::distance(c.begin(), hi)); };
  // not transitive: a run holds what equals its first element
  auto eq = [](E const& a, E const& b) { auto const d = static_cast<long>(a.k) - b.k; return (d >= -1) & (d <= 1); };
  bool const coarse = form >= 2;
  switch (form) {
    case 0: equal_ranges_linear(c, fn); break;
    case 1: equal_ranges_linear(c.begin(), c.end(), fn); break;
    case 2: equal_ranges_linear(c, eq, fn); break;
    case 3: equal_ranges_linear(c.begin(), c.end(), eq, fn); break;
  }
  size_t i = 0, r = 0;
  while (i < x.size()) {
    size_t j = i + 1;
    while (j < x.size() && sx::fork(coarse ? eq(x[i], x[j]) : x[i].k == x[j].k)) ++j;
    sx_assert(r < runs.size() && runs[r].first == i && runs[r].second == j, "maximal run of equal elements");
    ++r;
    if (j - i > 1) sx_reach("long run");
    i = j;
  }
  sx_assert(r == runs.size(), "no further runs");
  sx_observe(r);
}
static void sorting(std::vector<E> const& x, unsigned form) {
  auto c = x;
  std::vector<std::pair<size_t, size_t>> runs;
  auto fn = [&](auto lo, auto hi) { runs.emplace_back(lo - c.begin(), hi - c.begin()); };
  auto desc = [](E const& a, E const& b) { return a.k > b.k; };
  auto coarse = [](E const& a, E const& b) { return (a.k >> 1) < (b.k >> 1); };
  if (form == 2) equal_ranges(c, coarse, fn); else if (form) equal_ranges(c, desc, fn); else equal_ranges(c, fn);
  auto key = [&](E const& e) { return form == 2 ? e.k >> 1 : e.k; };
  bool seen[320] = {};
  sx_assert(c.size() == x.size(), "size unchanged");
  for (auto const& e : c) {
    auto const id = sx_concretize(e.id);
    sx_assert(id < x.size() && !seen[id] && x[id].k == e.k, "permutation of the input");
    seen[id] = true;
  }
  size_t pos = 0;
  int prev = 0;
  for (size_t r = 0; r < runs.size(); ++r) {
    auto const [lo, hi] = runs[r];
    sx_assert(lo == pos && hi > lo && hi <= c.size(), "runs are consecutive and non-empty");
    for (size_t i = lo; i < hi; ++i) sx_assert(key(c[i]) == key(c[lo]), "elements of a run are equal");
    if (r) sx_assert(form == 1 ? key(c[lo]) < prev : key(c[lo]) > prev, "one run per key, in order");
    prev = key(c[lo]);
    pos = hi;
    if (hi - lo > 1) sx_reach("sorted long run");
  }
  sx_assert(pos == c.size(), "runs cover the sequence");
  sx_observe(runs.size());
}

extern "C" void sx_main() {
  unsigned const n = sx::param("n", 4);
  if (unsigned const big = sx::param("big", 0); big) {
    std::vector<E> y;
    if (sx::param("sorting", 0)) {  // long, one symbolic element
      for (unsigned i = 0; i < big; ++i) y.push_back({static_cast<int>((i * 7) % (big < 100 ? 5 : 2)) * 4, i});
      y[sx::choose("at", 3) * (big / 3)].k = sx::any<int>("k");
      return sorting(y, sx::choose("form", 3));
    }
    int prev = 0;
    for (unsigned g = 0; g < 3; ++g) {  // long runs
      int const k = sx::any<int>("k");
      if (g) sx_assume(static_cast<long>(prev) - k > 1 || static_cast<long>(k) - prev > 1);
      prev = k;
      for (unsigned i = sx::choose("count", 2) ? big : 1; i; --i) y.push_back({k, static_cast<unsigned>(y.size())});
    }
    return linear<std::vector<E>>(y, sx::choose("form", 4));
  }
  std::vector<E> x(sx::choose("n", n + 1));
  for (unsigned i = 0; i < x.size(); ++i) x[i] = {sx::any<int>("k"), i};
  if (sx::param("sorting", 0)) return sorting(x, sx::choose("form", 3));
  auto const form = sx::choose("form", 4);
  if (sx::choose("list", 2)) linear<std::list<E>>(x, form); else linear<std::vector<E>>(x, form);
}
