// C20: nwise / pairwise
#include "sx.h"
#include "utl/nwise.h"
#include "utl/pairwise.h"
#include <algorithm>
#include <list>
#include <memory>
#include <utility>
#include <vector>
#include <deque>
#include <tuple>

template <std::size_t... I, typename T>
static void win(std::index_sequence<I...>, T const& t, std::vector<int const*> const& addr, size_t i) {
  sx_assert(((&std::get<I>(t) == addr[i + I]) && ...), "window element refers to the container's element");
}
template <std::size_t N, typename R>
static void check(R&& r, std::vector<int const*> const& addr) {
  auto const m = addr.size();
  auto const want = m + 1 < N + 1 ? (m >= N ? m - N + 1 : 0) : m - N + 1;
  size_t i = 0;
  for (auto const& t : r) {
    sx_assert(i < want, "not more windows than m-n+1");
    win(std::make_index_sequence<N>{}, t, addr, i);
    ++i;
  }
  sx_assert(i == want, "m-n+1 windows");
  // iterators are equal exactly at the same position
  if (m <= 8) {
    size_t p = 0;
    for (auto a = r.begin(); p < want; ++a, ++p) {
      size_t q = 0;
      for (auto b = r.begin(); q < want; ++b, ++q) sx_assert((a == b) == (p == q) && (a != b) == (p != q), "equality of window iterators");
      sx_assert(!(a == r.end()) && a != r.end(), "not the end");
    }
    auto last = r.begin();
    for (p = 0; p < want; ++p) ++last;
    sx_assert(last == r.end() && !(last != r.end()), "the end");
  }
  sx_assert(r.size() == want, "reported size");
  if (want == 0 && m) sx_reach("shorter than the window");
  if (want > 1) sx_reach("several windows");
  sx_observe(i);
}
template <typename C>
static std::vector<int const*> addrs(C const& c) {
  std::vector<int const*> a;
  for (auto const& e : c) a.push_back(&e);
  return a;
}
template <std::size_t N, typename R>
static void owned(R&& r, std::vector<int> const& x) {
  auto const a = addrs(r.t_);
  sx_assert(a.size() == x.size(), "owned container intact");
  for (size_t i = 0; i < a.size(); ++i) sx_assert(*a[i] == x[i], "owned container intact");
  check<N>(r, a);
}
template <std::size_t N, typename C>
static void run(std::vector<int> const& x, unsigned form) {
  C c(x.begin(), x.end());
  switch (form) {
    case 0: check<N>(utl::nwise<N>(c), addrs(c)); break;
    case 1: { C const& cc = c; check<N>(utl::nwise<N>(cc), addrs(c)); break; }
    case 2: owned<N>(utl::nwise<N>(C(x.begin(), x.end())), x); break;
  }
}
template <typename C>
static void pairs(std::vector<int> const& x, unsigned form) {
  C c(x.begin(), x.end());
  switch (form) {
    case 0: check<2>(utl::pairwise(c), addrs(c)); break;
    case 1: owned<2>(utl::pairwise(C(x.begin(), x.end())), x); break;
    case 2: {
      auto const a = addrs(c);
      size_t i = 0;
      auto const e = utl::pairwise_end(c);
      for (auto it = utl::pairwise_begin(c); it != e; ++it) {
        auto const [l, r] = *it;
        sx_assert(i + 1 < a.size() && l == *a[i] && r == *a[i + 1], "pair of neighbours");
        ++i;
      }
      sx_assert(i == (a.empty() ? 0 : a.size() - 1), "m-1 pairs");
      // writes go through
      for (auto it = utl::pairwise_begin(c); it != e; ++it) { auto t = *it; std::get<0>(t) = 5; }
      i = 0;
      for (auto const v : c) { sx_assert(v == (i + 1 < a.size() ? 5 : x[i]), "write through"); ++i; }
      sx_reach("iterators");
    }
  }
}
// elements that can only be moved, in a container that is handed over
static void handed_over(std::vector<int> const& x) {
  auto c = std::vector<std::unique_ptr<int>>{};
  for (auto const v : x) c.push_back(std::make_unique<int>(v));
  auto const* const where = c.data();
  auto const r = utl::nwise<2>(std::move(c));
  size_t i = 0;
  for (auto const& [a, b] : r) {
    sx_assert(i + 1 < x.size() && &a == where + i && *a == x[i] && *b == x[i + 1], "the container itself was moved in");
    ++i;
  }
  sx_assert(i + 1 == std::max<size_t>(x.size(), 1) && r.size() == i, "m-1 windows");
  sx_reach("handed over");
}
extern "C" void sx_main() {
  static unsigned const bigs[] = {15, 16, 17, 32, 33, 64, 65, 128, 255, 256, 257, 300};
  std::vector<int> x(sx::param("big", 0) ? bigs[sx::choose("m", 12)] : sx::choose("m", sx::param("m", 4) + 1));
  if (sx::param("big", 0)) for (auto& v : x) v = 1; else
  for (auto& v : x) v = sx::any<int>("v");
  auto const form = sx::choose("form", 3);
  unsigned const con = sx::choose("container", 3);
  auto go = [&]<std::size_t N>() {
    switch (con) { case 0: run<N, std::vector<int>>(x, form); break; case 1: run<N, std::list<int>>(x, form); break; case 2: run<N, std::deque<int>>(x, form); }
  };
  switch (sx::choose("N", 6)) {
    case 5: handed_over(x); break;
    case 0: go.operator()<1>(); break;
    case 1: go.operator()<2>(); break;
    case 2: go.operator()<3>(); break;
    case 3: go.operator()<4>(); break;
    case 4: switch (con) { case 0: pairs<std::vector<int>>(x, form); break; case 1: pairs<std::list<int>>(x, form); break; case 2: pairs<std::deque<int>>(x, form); }
  }
}
