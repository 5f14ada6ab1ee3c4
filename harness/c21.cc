// C21: zip
#include "sx.h"
#include "utl/zip.h"
#include <forward_list>
#include <list>
#include <memory>
#include <type_traits>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <deque>
#include <iterator>
#include <stdexcept>
#include <tuple>

using V = std::vector<int>;
using L = std::list<int>;
template <typename C> static auto& nth(C& c, size_t i) { auto it = c.begin(); while (i--) ++it; return *it; }

template <typename Z, typename A, typename B>
static void forward(Z&& z, A& a, B& b) {
  auto const n = a.size();
  sx_assert(z.size() == n, "size");
  size_t i = 0;
  for (auto&& t : z) {
    sx_assert(i < n, "not more tuples than elements");
    auto& [x, y] = t;
    sx_assert(&x == &nth(a, i) && &y == &nth(b, i), "tuple refers to the i-th elements");
    ++i;
  }
  sx_assert(i == n, "exactly n tuples");
  auto it = z.end();
  auto const b0 = z.begin();
  for (i = n; i > 0; --i) {
    sx_assert(it != b0 && !(it == b0), "not at the front");
    --it;
    auto const t = *it;
    sx_assert(&std::get<0>(t) == &nth(a, i - 1) && &std::get<1>(t) == &nth(b, i - 1), "backward iteration");
  }
  sx_assert(it == b0 && !(it != b0), "back at the front");
  for (i = 0; i < n; ++i) {
    auto const t = z[i];
    sx_assert(&std::get<0>(t) == &nth(a, i) && &std::get<1>(t) == &nth(b, i), "indexing");
    sx_reach("indexed");
  }
  sx_observe(n);
}
template <typename A, typename B>
static void two(V const& x, V const& y, unsigned form) {
  A a(x.begin(), x.end());
  B b(y.begin(), y.end());
  switch (form) {
    case 0: forward(utl::zip(a, b), a, b); break;
    case 1: { auto const z = utl::zip(a, b); forward(z, a, b); break; }
    case 2: forward(utl::czip(a, b), std::as_const(a), std::as_const(b)); break;
    case 3: { A const& ca = a; forward(utl::zip(ca, b), ca, b); break; }
    case 4: forward(utl::zip_unchecked(a, b), a, b); break;
    case 5: forward(utl::czip_unchecked(a, b), std::as_const(a), std::as_const(b)); break;
    case 6: forward(utl::zip_no_size_check(a, b), a, b); break;
    case 7: forward(utl::czip_no_size_check(a, b), std::as_const(a), std::as_const(b)); break;
    case 8: {  // writes go through
      for (auto&& [l, r] : utl::zip(a, b)) { auto const o = l; l = r; r = o; }
      for (size_t i = 0; i < x.size(); ++i) sx_assert(nth(a, i) == y[i] && nth(b, i) == x[i], "writes go through");
      sx_reach("swapped");
      return;
    }
    case 9: {  // owned container
      auto z = utl::zip(A(x.begin(), x.end()), b);
      size_t i = 0;
      for (auto&& [l, r] : z) { sx_assert(l == x[i] && &r == &nth(b, i), "owned first container"); ++i; }
      sx_assert(i == x.size(), "exactly n tuples");
      i = 0;
      for (auto&& [l, r] : utl::czip(a, B(y.begin(), y.end()))) { sx_assert(&l == &nth(a, i) && r == y[i], "owned second container"); ++i; }
      sx_assert(i == x.size(), "exactly n tuples");
      sx_reach("owned");
      return;
    }
  }
  for (size_t i = 0; i < x.size(); ++i) sx_assert(nth(a, i) == x[i] && nth(b, i) == y[i], "containers unchanged");
}
static void mismatch(unsigned n) {
  V a(sx::choose("na", n + 1)), b(sx::choose("nb", n + 1));
  L c(sx::choose("nc", n + 1));
  bool const eq2 = a.size() == b.size();
  bool const eq3 = eq2 && b.size() == c.size();
  auto thr = [](auto&& f) { try { f(); } catch (std::runtime_error const&) { return true; } return false; };
  sx_assert(thr([&] { utl::zip(a, b); }) == !eq2, "zip throws exactly on different sizes");
  sx_assert(thr([&] { utl::czip(a, b); }) == !eq2, "czip throws exactly on different sizes");
  sx_assert(thr([&] { utl::zip(a, b, c); }) == !eq3, "zip of three throws exactly on different sizes");
  sx_assert(thr([&] { utl::czip(c, a, b); }) == !eq3, "czip of three throws exactly on different sizes");
  sx_assert(!thr([&] { utl::zip(c); }), "single container");
  if (eq3) {
    size_t i = 0;
    for (auto&& [x, y, z] : utl::zip(a, b, c)) {
      sx_assert(&x == &a[i] && &y == &b[i] && &z == &nth(c, i), "three in lockstep");
      ++i;
    }
    sx_assert(i == a.size(), "n tuples of three");
    sx_reach("three");
  } else sx_reach("mismatch");
}
// containers without a size, elements that can only be moved; the const form is read-only
static void others(V const& x, V const& y) {
  std::forward_list<int> a(x.begin(), x.end()), b(y.begin(), y.end());
  auto i = a.begin();
  auto j = b.begin();
  for (auto&& [l, r] : utl::zip_unchecked(a, b)) { sx_assert(&l == &*i && &r == &*j, "lists without a size"); ++i; ++j; }
  sx_assert(i == a.end() && j == b.end(), "all elements");
  std::vector<std::unique_ptr<int>> p;
  for (auto const v : x) p.push_back(std::make_unique<int>(v));
  auto q = y;
  size_t n = 0;
  for (auto&& [l, r] : utl::zip(p, q)) { sx_assert(&l == &p[n] && &r == &q[n], "move-only elements"); ++n; }
  sx_assert(n == x.size(), "all elements");
  auto const taken = utl::zip(std::move(p), q);
  n = 0;
  for (auto&& [l, r] : taken) { sx_assert(*l == x[n] && r == y[n], "move-only elements, owned"); ++n; }
  sx_assert(n == x.size(), "all elements");
  auto cz = utl::czip(q, std::vector<int>(x));
  for (auto&& [l, r] : cz) {
    static_assert(std::is_const_v<std::remove_reference_t<decltype(l)>> && std::is_const_v<std::remove_reference_t<decltype(r)>>, "the const form is read-only");
    sx_assert(&l >= q.data() && r == x[static_cast<size_t>(&l - q.data())], "const form");
  }
  sx_reach("other containers");
}
// ordering of zip iterators over random access containers
static void order(V const& x, V const& y) {
  auto a = x, b = y;
  auto const z = utl::zip(a, b);
  auto i = sx::choose("i", x.size() + 1), j = sx::choose("j", x.size() + 1);
  auto p = std::next(z.begin(), i), q = std::next(z.begin(), j);
  sx_assert((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "iterator order");
  sx_assert(std::distance(z.begin(), q) == j, "distance");
  sx_reach("ordered");
}
extern "C" void sx_main() {
  unsigned const n = sx::param("n", 3);
  if (sx::param("mismatch", 0)) return mismatch(n);
  static unsigned const bigs[] = {127, 128, 255, 256, 257, 300};
  if (sx::param("big", 0)) {  // long containers
    V x(bigs[sx::choose("length", 6)]), y(x.size());
    for (auto& v : x) v = sx::any<int>("x");
    for (size_t i = 0; i < y.size(); ++i) y[i] = static_cast<int>(i);
    auto const z = utl::zip(x, y);
    size_t i = 0;
    for (auto&& [l, r] : z) { sx_assert(i < x.size() && &l == &x[i] && &r == &y[i], "long containers in lockstep"); ++i; }
    sx_assert(i == x.size() && z.size() == i, "as many tuples as elements");
    for (auto const j : {size_t{0}, size_t{126}, x.size() - 2, x.size() - 1}) sx_assert(&std::get<0>(z[j]) == &x[j] && &std::get<1>(z[j]) == &y[j], "indexing long containers");
    auto longer = x;
    longer.resize(x.size() + (sx::choose("more", 2) ? 256 : 1));
    bool threw = false;
    try { utl::czip(x, longer); } catch (std::runtime_error const&) { threw = true; }
    sx_assert(threw, "different sizes of long containers are rejected");
    auto p = z.begin(), q = z.end();
    sx_assert(p != q && !(p == q) && static_cast<size_t>(std::distance(p, q)) == x.size(), "ends of a long zip");
    sx_reach("long");
    return;
  }
  V x(sx::choose("n", n + 1)), y(x.size());
  for (auto& v : x) v = sx::any<int>("x");
  for (auto& v : y) v = sx::any<int>("y");
  switch (sx::choose("type", 6)) {
    case 5: others(x, y); break;
    case 0: two<V, V>(x, y, sx::choose("form", 10)); break;
    case 1: two<V, L>(x, y, sx::choose("form", 10)); break;
    case 2: two<L, V>(x, y, sx::choose("form", 10)); break;
    case 3: two<std::deque<int>, L>(x, y, sx::choose("form", 10)); break;
    case 4: order(x, y);
  }
}
