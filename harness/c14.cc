// C14: sorted diff
#include "sx.h"
#include "utl/sorted_diff.h"
#include <list>
#include <vector>
using namespace utl;

struct E { int k, v; };
static bool operator==(E const& a, E const& b) { return a.k == b.k && a.v == b.v; }
static bool operator!=(E const& a, E const& b) { return !(a == b); }
static bool operator<(E const& a, E const& b) { return a.k < b.k || (a.k == b.k && a.v < b.v); }
[[maybe_unused]] static bool operator>(E const& a, E const& b) { return b < a; }
[[maybe_unused]] static bool operator<=(E const& a, E const& b) { return !(b < a); }
[[maybe_unused]] static bool operator>=(E const& a, E const& b) { return !(a < b); }

template <typename C>
static void check(std::vector<E> const& xa, std::vector<E> const& xb, bool its) {
  C const a(xa.begin(), xa.end()), b(xb.begin(), xb.end());
  struct rep { int kind; E x, y; };  // 0 add, 1 del, 2 change
  std::vector<rep> out;
  struct sink {
    void operator()(op o, E const& e) { out.push_back({o == op::kAdd ? 0 : 1, e, e}); }
    void operator()(E const& x, E const& y) { out.push_back({2, x, y}); }
    std::vector<rep>& out;
  } s{out};
  auto lt = [](E const& x, E const& y) { return x.k < y.k; };
  auto eq = [](E const& x, E const& y) { return x.k == y.k && x.v == y.v; };
  if (its) sorted_diff(a.begin(), a.end(), b.begin(), b.end(), lt, eq, s);
  else sorted_diff(a, b, lt, eq, s);
  // expected report
  size_t i = 0, j = 0, c = 0;
  bool same = xa.size() == xb.size();
  while (i < xa.size() || j < xb.size()) {
    if (j == xb.size() || (i < xa.size() && sx::fork(xa[i].k < xb[j].k))) {
      sx_assert(c < out.size() && out[c].kind == 1 && out[c].x.k == xa[i].k && out[c].x.v == xa[i].v, "element without partner is reported deleted");
      ++c; ++i; same = false;
      sx_reach("deleted");
    } else if (i == xa.size() || sx::fork(xb[j].k < xa[i].k)) {
      sx_assert(c < out.size() && out[c].kind == 0 && out[c].x.k == xb[j].k && out[c].x.v == xb[j].v, "new element is reported added");
      ++c; ++j; same = false;
      sx_reach("added");
    } else {
      if (sx::fork(xa[i].v != xb[j].v)) {
        sx_assert(c < out.size() && out[c].kind == 2 && out[c].x.v == xa[i].v && out[c].y.v == xb[j].v && out[c].x.k == xa[i].k && out[c].y.k == xb[j].k, "partner that is not deeply equal is reported changed");
        ++c; same = false;
        sx_reach("changed");
      }
      ++i; ++j;
    }
  }
  sx_assert(c == out.size(), "nothing else is reported");
  if (same) { sx_assert(out.empty(), "equal sequences: no report"); sx_reach("equal"); }
  // replay
  std::vector<E> r;
  size_t p = 0;
  for (auto const& o : out) {
    while (p < xa.size() && sx::fork(xa[p].k < o.x.k)) r.push_back(xa[p++]);
    if (o.kind == 0) {
      r.push_back(o.x);
    } else if (o.kind == 1) {
      ++p;
    } else {
      // the first unchanged partners of the same key stay
      while (p < xa.size() && sx::fork(xa[p].k == o.x.k && xa[p].v != o.x.v)) r.push_back(xa[p++]);
      r.push_back(o.y);
      ++p;
    }
  }
  if (sx::param("replay", 0)) {
    while (p < xa.size()) r.push_back(xa[p++]);
    sx_assert(r.size() == xb.size(), "replay gives as many elements");
    for (size_t q = 0; q < r.size(); ++q) sx_assert(r[q].k == xb[q].k && r[q].v == xb[q].v, "replay gives the new sequence");
  }
  sx_observe(out.size());
}

extern "C" void sx_main() {
  unsigned const n = sx::param("n", 3);
  bool const distinct = sx::param("replay", 0);
  if (unsigned const big = sx::param("big", 0); big) {  // long sequences which differ in one place
    std::vector<E> a, b;
    int const v = sx::any<int>("v");
    for (unsigned i = 0; i < big; ++i) a.push_back({static_cast<int>(4 * i), v});
    b = a;
    auto const at = sx::choose("at", big);
    switch (sx::choose("change", 4)) {
      case 0: b[at].v = sx::any<int>("w"); break;
      case 1: b.erase(b.begin() + at); break;
      case 2: b[at].k = sx::in<int>("k", 4 * static_cast<int>(at) - 3, 4 * static_cast<int>(at) + 3); break;
      case 3: b.insert(b.begin() + at, {4 * static_cast<int>(at) - 1, v}); break;
    }
    bool const swap = sx::choose("swap", 2);
    check<std::vector<E>>(swap ? b : a, swap ? a : b, false);
    return;
  }
  std::vector<E> a(sx::choose("n", n + 1)), b(sx::choose("m", n + 1));
  for (auto* x : {&a, &b})
    for (size_t i = 0; i < x->size(); ++i) {
      (*x)[i] = {sx::any<int>("k"), sx::any<int>("v")};
      if (i) sx_assume(distinct ? (*x)[i - 1].k < (*x)[i].k : (*x)[i - 1].k <= (*x)[i].k);
    }
  switch (sx::choose("form", 3)) {
    case 0: check<std::vector<E>>(a, b, false); break;
    case 1: check<std::vector<E>>(a, b, true); break;
    case 2: check<std::list<E>>(a, b, false); break;
  }
}
