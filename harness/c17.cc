// C17: erase, erase_if, erase_duplicates, insert_sorted
#include "sx.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/insert_sorted.h"
#include <deque>
#include <set>
#include <utility>
#include <vector>

struct E { int k; unsigned id; };
static bool operator==(E const& a, E const& b) { return a.k == b.k; }
static bool operator!=(E const& a, E const& b) { return a.k != b.k; }
static bool operator<(E const& a, E const& b) { return a.k < b.k; }
[[maybe_unused]] static bool operator>(E const& a, E const& b) { return b < a; }
[[maybe_unused]] static bool operator<=(E const& a, E const& b) { return !(b < a); }
[[maybe_unused]] static bool operator>=(E const& a, E const& b) { return !(a < b); }

static std::vector<E> gen(unsigned n) {
  if (unsigned const big = sx::param("big", 0); big) {  // long, one symbolic element
    std::vector<E> y(big);
    bool const asc = sx::param("mode", 0) == 3;
    for (unsigned i = 0; i < big; ++i) y[i] = {static_cast<int>(asc ? 4 * (i / 2) : (i * 7) % 11), i};
    y[sx::choose("at", 3) * (big / 3)].k = sx::any<int>("k");
    return y;
  }
  std::vector<E> x(sx::choose("n", n + 1));
  for (unsigned i = 0; i < x.size(); ++i) x[i] = {sx::any<int>("k"), i};
  return x;
}
template <typename C, typename Keep>
static void kept(C const& c, std::vector<E> const& x, Keep keep) {
  std::vector<unsigned> want;
  for (auto const& e : x) if (sx::fork(keep(e))) want.push_back(e.id);
  sx_assert(c.size() == want.size(), "exactly the matching elements are removed");
  unsigned i = 0;
  for (auto const& e : c) {
    sx_assert(e.id == want[i] && e.k == x[want[i]].k, "the rest keeps its order");
    ++i;
  }
  if (want.size() < x.size() && !want.empty()) sx_reach("some removed");
  sx_observe(want.size());
}
template <typename C>
static void er(std::vector<E> const& x, unsigned form) {
  C c(x.begin(), x.end());
  if (form == 0) {
    int const v = sx::any<int>("v");
    if (sx::choose("reference", 2)) utl::erase(std::move(c), E{v, 77}); else utl::erase(c, E{v, 77});
    kept(c, x, [&](E const& e) { return e.k != v; });
  } else if (form == 1) {  // the value is one of the elements itself
    if (x.empty()) return;
    auto const at = sx::choose("at", x.size());
    int const v = x[at].k;
    utl::erase(c, c[at]);
    kept(c, x, [&](E const& e) { return e.k != v; });
    sx_reach("own element");
  } else if (form == 2) {
    auto const m = sx::any<int>("m");
    utl::erase_if(c, [&](E const& e) { return (e.k & m) != 0; });
    kept(c, x, [&](E const& e) { return (e.k & m) == 0; });
  } else {  // predicate with one call per element, in order
    unsigned calls = 0;
    utl::erase_if(c, [&](E const& e) { ++calls; return e.k < 0; });
    kept(c, x, [&](E const& e) { return e.k >= 0; });
    sx_assert(calls == x.size(), "one call per element");
  }
}
static void er_set(std::vector<E> const& x) {
  std::set<int> s;
  for (auto const& e : x) s.insert(e.k);
  auto const before = s;
  int const v = sx::any<int>("v");
  if (sx::choose("reference", 2)) utl::erase(std::move(s), v); else utl::erase(s, v);
  bool had = false;
  auto it = s.begin();
  for (auto const k : before) {
    if (sx::fork(k == v)) { had = true; continue; }
    sx_assert(it != s.end() && *it == k, "other set elements stay");
    ++it;
  }
  sx_assert(it == s.end(), "the element is gone");
  if (had) sx_reach("set erased");
}
static void dup(std::vector<E> const& x, unsigned form) {
  auto c = x;
  unsigned lo = 0, hi = x.size();
  auto less = [](E const& a, E const& b) { return a.k > b.k; };
  auto eq = [](E const& a, E const& b) { return a.k == b.k; };
  if (form == 0) {
    utl::erase_duplicates(c);
  } else if (form == 3) {  // a coarser notion of equality: neighbours in the order given by less
    auto const coarse = [](E const& a, E const& b) { return (a.k >> 1) == (b.k >> 1); };
    utl::erase_duplicates(c, less, coarse);
    for (unsigned i = 0; i < c.size(); ++i) {
      auto const id = sx_concretize(c[i].id);
      sx_assert(id < x.size() && x[id].k == c[i].k, "an element of the input");
      if (i) sx_assert((c[i].k >> 1) < (c[i - 1].k >> 1), "strictly ascending classes");
    }
    for (auto const& e : x) {
      bool found = false;
      for (auto const& f : c) found |= coarse(e, f);
      sx_assert(found, "every class stays");
    }
    sx_reach("coarse");
    return;
  } else if (form == 1) {
    utl::erase_duplicates(c, less, eq);
  } else {
    lo = sx::choose("lo", x.size() + 1);
    hi = lo + sx::choose("hi", x.size() - lo + 1);
    utl::erase_duplicates(c, c.begin() + lo, c.begin() + hi, less, eq);
    if (lo > 0 && hi < x.size() && hi - lo > 1) sx_reach("inner range");
  }
  // what lies outside the range is untouched
  unsigned const tail = x.size() - hi;
  sx_assert(c.size() >= lo + tail, "nothing outside the range is lost");
  for (unsigned i = 0; i < lo; ++i) sx_assert(c[i].id == x[i].id && c[i].k == x[i].k, "before the range");
  for (unsigned i = 0; i < tail; ++i) {
    auto const& e = c[c.size() - tail + i];
    sx_assert(e.id == x[hi + i].id && e.k == x[hi + i].k, "after the range");
  }
  // the range: strictly ascending, every element is one of the input, every key is present
  unsigned const m = c.size() - lo - tail;
  for (unsigned i = lo; i < lo + m; ++i) {
    auto const id = sx_concretize(c[i].id);
    sx_assert(id >= lo && id < hi && x[id].k == c[i].k, "an element of the range");
    if (i > lo) sx_assert(form ? c[i].k < c[i - 1].k : c[i].k > c[i - 1].k, "strictly ascending");
  }
  for (unsigned i = lo; i < hi; ++i) {
    bool found = false;
    for (unsigned j = lo; j < lo + m; ++j) found |= c[j].k == x[i].k;
    sx_assert(found, "every distinct element stays");
  }
  if (m + 1 < hi - lo) sx_reach("duplicates removed");
  sx_observe(m);
}
template <typename C, bool Desc>
static void ins(std::vector<E> const& x) {
  C c(x.begin(), x.end());
  for (unsigned i = 1; i < x.size(); ++i) sx_assume(Desc ? x[i - 1].k >= x[i].k : x[i - 1].k <= x[i].k);
  int const v = sx::any<int>("v");
  std::pair<typename C::iterator, bool> r;
  if constexpr (Desc) r = utl::insert_sorted(c, E{v, 99}, [](E const& a, E const& b) { return a.k > b.k; });
  else r = utl::insert_sorted(c, E{v, 99});
  bool present = false;
  for (auto const& e : x) present |= e.k == v;
  present = sx::fork(present);
  sx_assert(r.second == !present, "inserted exactly if not present");
  auto const pos = static_cast<size_t>(r.first - c.begin());
  sx_assert(c.size() == x.size() + (present ? 0 : 1), "size");
  sx_assert(pos < c.size() && c[pos].k == v, "position of the element");
  if (!present) sx_assert(c[pos].id == 99, "the new element is at the position");
  unsigned j = 0;
  for (unsigned i = 0; i < c.size(); ++i) {
    if (!present && i == pos) continue;
    sx_assert(c[i].id == j && c[i].k == x[j].k, "other elements unchanged");
    ++j;
  }
  for (unsigned i = 1; i < c.size(); ++i) sx_assert(Desc ? c[i - 1].k >= c[i].k : c[i - 1].k <= c[i].k, "still sorted");
  sx_reach(present ? "present" : "inserted");
  sx_observe(pos);
}
extern "C" void sx_main() {
  unsigned const n = sx::param("n", 4);
  switch (sx::param("mode", 0)) {
    case 0: { auto x = gen(n); auto f = sx::choose("form", 4); if (sx::choose("deque", 2)) er<std::deque<E>>(x, f); else er<std::vector<E>>(x, f); break; }
    case 1: er_set(gen(n)); break;
    case 2: { auto x = gen(n); dup(x, sx::choose("form", 4)); break; }
    case 3: { auto x = gen(n); switch (sx::choose("form", 3)) { case 0: ins<std::vector<E>, false>(x); break; case 1: ins<std::vector<E>, true>(x); break; case 2: ins<std::deque<E>, false>(x); } break; }
  }
}
