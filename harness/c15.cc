// C15: power set intersection
#include "sx.h"
#include "utl/power_set_intersection.h"
#include <vector>
using namespace utl;

struct E { int k; unsigned id; };
static bool operator==(E const& a, E const& b) { return a.k == b.k && a.id == b.id; }
static bool operator!=(E const& a, E const& b) { return !(a == b); }
static bool operator<(E const& a, E const& b) { return a.k < b.k || (a.k == b.k && a.id < b.id); }
[[maybe_unused]] static bool operator>(E const& a, E const& b) { return b < a; }
[[maybe_unused]] static bool operator<=(E const& a, E const& b) { return !(b < a); }
[[maybe_unused]] static bool operator>=(E const& a, E const& b) { return !(a < b); }

extern "C" void sx_main() {
  unsigned const n = sx::param("n", 3), m = sx::param("m", 3);
  auto const form = sx::choose("form", 3);
  std::vector<E> a, b;
  bool const desc = form == 1;
  unsigned const big = sx::param("big", 0);
  if (big) {  // long runs of two symbolic keys
    int prev = 0;
    for (unsigned g = 0; g < 2; ++g) {
      int const k = sx::any<int>("k");
      if (g) sx_assume(desc ? prev > k : prev < k);
      prev = k;
      unsigned const ca = sx::choose("ca", 3), cb = sx::choose("cb", 3);
      for (unsigned i = 0; i < (ca == 2 ? big : ca); ++i) a.push_back({k, static_cast<unsigned>(a.size())});
      for (unsigned i = 0; i < (cb == 2 ? big + 1 : cb); ++i) b.push_back({k, static_cast<unsigned>(b.size())});
    }
  } else {
    a.resize(sx::choose("n", n + 1));
    b.resize(sx::choose("m", m + 1));
  }
  if (!big) for (auto* x : {&a, &b})
    for (unsigned i = 0; i < x->size(); ++i) {
      (*x)[i] = {sx::any<int>("k"), i};
      if (i) sx_assume(desc ? (*x)[i - 1].k >= (*x)[i].k : (*x)[i - 1].k <= (*x)[i].k);
    }
  unsigned hits[44][44] = {};
  auto fn = [&](E const& x, E const& y) {
    sx_assert(&x == &a[x.id < a.size() ? x.id : 0], "first argument is an element of the first sequence");
    sx_assert(&y == &b[y.id < b.size() ? y.id : 0], "second argument is an element of the second sequence");
    ++hits[x.id][y.id];
  };
  auto lt = [](E const& x, E const& y) { return x.k < y.k; };
  auto gt = [](E const& x, E const& y) { return x.k > y.k; };
  if (form == 0) power_set_intersection(a, b, fn, lt);
  if (form == 1) power_set_intersection(a, b, fn, gt);
  if (form == 2) power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), fn, lt);
  unsigned total = 0;
  for (unsigned i = 0; i < a.size(); ++i)
    for (unsigned j = 0; j < b.size(); ++j) {
      bool const eq = sx::fork(a[i].k == b[j].k);
      sx_assert(hits[i][j] == (eq ? 1U : 0U), "every equal pair exactly once, nothing else");
      total += hits[i][j];
    }
  // default order
  std::vector<int> ia, ib;
  for (auto const& x : a) ia.push_back(desc ? -(x.k >> 1) : x.k);
  for (auto const& x : b) ib.push_back(desc ? -(x.k >> 1) : x.k);
  if (!desc) {
    unsigned cnt = 0;
    power_set_intersection(ia, ib, [&](int x, int y) { sx_assert(x == y, "default order: equal pair"); ++cnt; });
    sx_assert(cnt == total, "default order: same number of pairs");
  }
  sx_observe(total);
  if (total > 3) sx_reach("several pairs");
  if (total == 0 && !a.empty() && !b.empty()) sx_reach("disjoint");
}
