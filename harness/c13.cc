// C13: joins
#include "sx.h"
#include "utl/join.h"
#include <forward_list>
#include <vector>
using namespace utl;

struct A { int k; unsigned id; };
struct B { unsigned id; int k; };
static bool operator<(A const& a, B const& b) { return a.k < b.k; }
static bool operator<(B const& a, A const& b) { return a.k < b.k; }
static bool operator<(A const& a, A const& b) { return a.k < b.k; }
static bool operator<(B const& a, B const& b) { return a.k < b.k; }
static bool operator==(A const& a, A const& b) { return a.k == b.k && a.id == b.id; }
static bool operator!=(A const& a, A const& b) { return !(a == b); }
static bool operator==(B const& a, B const& b) { return a.k == b.k && a.id == b.id; }
static bool operator!=(B const& a, B const& b) { return !(a == b); }
static bool operator==(A const& a, B const& b) { return a.k == b.k && a.id == b.id; }
static bool operator!=(A const& a, B const& b) { return !(a == b); }
[[maybe_unused]] static bool operator>(A const& a, A const& b) { return b < a; }
[[maybe_unused]] static bool operator<=(A const& a, A const& b) { return !(b < a); }
[[maybe_unused]] static bool operator>=(A const& a, A const& b) { return !(a < b); }
[[maybe_unused]] static bool operator>(B const& a, B const& b) { return b < a; }
[[maybe_unused]] static bool operator<=(B const& a, B const& b) { return !(b < a); }
[[maybe_unused]] static bool operator>=(B const& a, B const& b) { return !(a < b); }
[[maybe_unused]] static bool operator>(A const& a, B const& b) { return b < a; }
[[maybe_unused]] static bool operator<=(A const& a, B const& b) { return !(b < a); }
[[maybe_unused]] static bool operator>=(A const& a, B const& b) { return !(a < b); }
[[maybe_unused]] static bool operator>(B const& a, A const& b) { return b < a; }
[[maybe_unused]] static bool operator<=(B const& a, A const& b) { return !(b < a); }
[[maybe_unused]] static bool operator>=(B const& a, A const& b) { return !(a < b); }
struct less_desc {
  template <typename X, typename Y>
  bool operator()(X const& x, Y const& y) const { return x.k > y.k; }
};
struct by_k { template <typename X> int key(X const& x) const { return x.k; } };

struct call { int kind; unsigned a0, a1, b0, b1; };  // id ranges; kind 0 match, 1 left, 2 right

template <typename VA, typename VB>
static void check(VA const& va, VB const& vb, std::vector<A> const& xa, std::vector<B> const& xb, unsigned flavour, unsigned cmp, bool desc) {
  unsigned const n = static_cast<unsigned>(xa.size()), m = static_cast<unsigned>(xb.size());
  std::vector<call> calls;
  auto ida = [&](auto it) { return it == va.end() ? n : it->id; };
  auto idb = [&](auto it) { return it == vb.end() ? m : it->id; };
  auto match = [&](auto a0, auto a1, auto b0, auto b1) { calls.push_back({0, ida(a0), ida(a1), idb(b0), idb(b1)}); };
  auto left = [&](auto a0, auto a1) { calls.push_back({1, ida(a0), ida(a1), 0, 0}); };
  auto right = [&](auto b0, auto b1) { calls.push_back({2, 0, 0, idb(b0), idb(b1)}); };
  auto run = [&](auto less) {
    switch (flavour) {
      case 0: inner_join(va, vb, less, match); break;
      case 1: left_join(va, vb, less, match, left); break;
      case 2: full_join(va, vb, less, match, left, right); break;
      case 3: inner_join(va.begin(), va.end(), vb.begin(), vb.end(), less, match); break;
      case 4: left_join(va.begin(), va.end(), vb.begin(), vb.end(), less, match, left); break;
      case 5: full_join(va.begin(), va.end(), vb.begin(), vb.end(), less, match, left, right); break;
    }
  };
  if (cmp == 0) {
    switch (flavour) {
      case 0: inner_join(va, vb, match); break;
      case 1: left_join(va, vb, match, left); break;
      case 2: full_join(va, vb, match, left, right); break;
      case 3: inner_join(va.begin(), va.end(), vb.begin(), vb.end(), match); break;
      case 4: left_join(va.begin(), va.end(), vb.begin(), vb.end(), match, left); break;
      case 5: full_join(va.begin(), va.end(), vb.begin(), vb.end(), match, left, right); break;
    }
  } else if (cmp == 1) {
    run(less_desc{});
  } else {
    run(join_less<by_k>{});
  }
  // what must come out, straight from the definition
  std::vector<call> want;
  auto before = [&](int x, int y) { return desc ? x > y : x < y; };
  unsigned i = 0, j = 0;
  unsigned const fl = flavour % 3;
  while (i < n || j < m) {
    unsigned i1 = i, j1 = j;
    bool const a_first = i < n && (j == m || sx::fork(before(xa[i].k, xb[j].k)));
    bool const b_first = !a_first && j < m && (i == n || sx::fork(before(xb[j].k, xa[i].k)));
    if (!b_first) while (i1 < n && sx::fork(xa[i1].k == xa[i].k)) ++i1;
    if (!a_first) while (j1 < m && sx::fork(xb[j1].k == xb[j].k)) ++j1;
    if (a_first) { if (fl != 0) want.push_back({1, i, i1, 0, 0}); i = i1; }
    else if (b_first) { if (fl == 2) want.push_back({2, 0, 0, j, j1}); j = j1; }
    else { want.push_back({0, i, i1, j, j1}); i = i1; j = j1; }
  }
  sx_assert(calls.size() == want.size(), "number of reported groups");
  for (size_t c = 0; c < want.size(); ++c) {
    auto const &g = calls[c], &w = want[c];
    sx_assert(g.kind == w.kind, "kind of group, in key order");
    sx_assert(g.a0 == w.a0 && g.a1 == w.a1 && g.b0 == w.b0 && g.b1 == w.b1, "complete groups of equal elements");
    if (w.kind == 0 && w.a1 - w.a0 > 1 && w.b1 - w.b0 > 1) sx_reach("groups on both sides");
    if (w.kind == 1) sx_reach("left");
    if (w.kind == 2) sx_reach("right");
  }
  sx_observe(calls.size());
}

extern "C" void sx_main() {
  unsigned const n = sx::param("n", 3), m = sx::param("m", 3);
  unsigned const flavour = sx::choose("flavour", 6), cmp = sx::choose("cmp", 3);
  bool const list = sx::param("list", 0);
  bool const desc = cmp == 1;
  if (unsigned const big = sx::param("big", 0); big) {  // long groups of three symbolic keys
    sx_assume(flavour == 2 && cmp != 1);
    std::vector<A> a;
    std::vector<B> b;
    int prev = 0;
    for (unsigned g = 0; g < 3; ++g) {
      int const k = sx::any<int>("k");
      if (g) sx_assume(prev < k);
      prev = k;
      unsigned const ca = sx::choose("ca", 3), cb = sx::choose("cb", 3);
      for (unsigned i = 0; i < (ca == 2 ? big : ca); ++i) a.push_back({k, static_cast<unsigned>(a.size())});
      for (unsigned i = 0; i < (cb == 2 ? big + 1 : cb); ++i) b.push_back({static_cast<unsigned>(b.size()), k});
    }
    check(a, b, a, b, flavour, cmp, desc);
    sx_reach("long groups");
    return;
  }
  std::vector<A> a(sx::choose("n", n + 1));
  std::vector<B> b(sx::choose("m", m + 1));
  for (unsigned i = 0; i < a.size(); ++i) {
    a[i] = {sx::any<int>("a"), i};
    if (i) sx_assume(desc ? a[i - 1].k >= a[i].k : a[i - 1].k <= a[i].k);
  }
  for (unsigned i = 0; i < b.size(); ++i) {
    b[i] = {i, sx::any<int>("b")};
    if (i) sx_assume(desc ? b[i - 1].k >= b[i].k : b[i - 1].k <= b[i].k);
  }
  if (list) {
    std::forward_list<A> fa(a.begin(), a.end());
    std::forward_list<B> fb(b.begin(), b.end());
    check(fa, fb, a, b, flavour, cmp, desc);
  } else {
    check(a, b, a, b, flavour, cmp, desc);
  }
}
