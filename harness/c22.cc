// C22: enumerate
#include "sx.h"
#include "utl/enumerate.h"
#include <compare>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <vector>
#include <tuple>
#include <utility>

template <typename C> static auto& nth(C& c, size_t i) { auto it = c.begin(); while (i--) ++it; return *it; }
template <typename C>
static void walk(std::vector<int> const& x) {
  C c(x.begin(), x.end());
  size_t n = 0;
  for (auto const [i, v] : utl::enumerate(c)) {
    sx_assert(i == n && &v == &nth(c, n), "each element with its index");
    ++n;
  }
  sx_assert(n == x.size(), "each element exactly once");
  C const& cc = c;
  n = 0;
  for (auto const [i, v] : utl::enumerate(cc)) {
    sx_assert(i == n && &v == &nth(cc, n), "each element of a const container with its index");
    ++n;
  }
  sx_assert(n == x.size(), "each element exactly once (const)");
  n = 0;
  for (auto const [i, v] : utl::enumerate(C(x.begin(), x.end()))) {
    sx_assert(i == n && v == x[n], "each element of an owned container with its index");
    ++n;
  }
  sx_assert(n == x.size(), "each element exactly once (owned)");
  // writes
  for (auto [i, v] : utl::enumerate(c)) v = static_cast<int>(i) ^ v;
  for (size_t i = 0; i < x.size(); ++i) sx_assert(nth(c, i) == (x[i] ^ static_cast<int>(i)), "writes go to the container");
  sx_observe(n);
  // one by one: pre and post increment
  auto e = utl::enumerate(c);
  auto it = e.begin();
  for (size_t i = 0; i < x.size(); ++i) {
    sx_assert(it != e.end(), "not yet at the end");
    if (i % 2) { ++it; } else {
      auto old = it++;
      sx_assert(std::get<0>(*old) == i && &std::get<1>(*old) == &nth(c, i), "post-increment returns the old position");
      sx_reach("post-increment");
    }
    if (i + 1 < x.size()) sx_assert(std::get<0>(*it) == i + 1 && &std::get<1>(*it) == &nth(c, i + 1), "increment keeps index and element in step");
  }
  sx_assert(!(it != e.end()), "at the end");
  if constexpr (std::bidirectional_iterator<typename C::iterator>) {
    for (size_t i = x.size(); i-- > 0;) {
      if (i % 2) { --it; } else {
        auto old = it--;
        if (i + 1 < x.size()) sx_assert(std::get<0>(*old) == i + 1, "post-decrement returns the old position");
        sx_reach("post-decrement");
      }
      sx_assert(std::get<0>(*it) == i && &std::get<1>(*it) == &nth(c, i), "decrement keeps index and element in step");
    }
  }
}
template <typename C>
static void random(std::vector<int> const& x, unsigned steps) {
  C c(x.begin(), x.end());
  auto e = utl::enumerate(c);
  auto const n = static_cast<std::ptrdiff_t>(x.size());
  sx_assert(e.end() - e.begin() == n && e.begin() - e.end() == -n, "distance of begin and end");
  bool const from_end = sx::choose("from end", 2);
  auto it = from_end ? e.end() : e.begin();
  std::ptrdiff_t pos = from_end ? n : 0;
  for (unsigned s = 0; s < steps; ++s) {
    auto const to = static_cast<std::ptrdiff_t>(sx::choose("to", n + 1));
    bool const sub = sx::choose("op", 2);
    auto& r = sub ? (it -= pos - to) : (it += to - pos);
    sx_assert(&r == &it, "compound assignment returns the iterator");
    pos = to;
    sx_assert(it - e.begin() == pos && e.end() - it == n - pos, "distance");
    sx_assert((it != e.end()) == (pos != n), "end only at the end");
    if (pos < n) sx_assert(std::get<0>(*it) == static_cast<size_t>(pos) && &std::get<1>(*it) == &nth(c, pos), "index and element in step");
    if (pos > 0 && pos < n) sx_reach(sub ? "inner -=" : "inner +=");
  }
  sx_observe(static_cast<uint64_t>(pos));
}
static void pointers(std::vector<int> x) {
  std::vector<int*> p;
  for (auto& v : x) p.push_back(&v);
  size_t n = 0;
  for (auto const [i, q] : utl::enumerate(p)) { sx_assert(i == n && q == &x[n], "pointer elements"); ++n; }
  sx_assert(n == x.size(), "each pointer once");
  n = 0;
  int arr[3] = {7, 8, 9};
  for (auto [i, v] : utl::enumerate(arr)) { sx_assert(i == n && &v == &arr[n], "array elements"); ++n; }
  sx_assert(n == 3, "each array element once");
  if (!x.empty()) sx_reach("pointers");
}
// a random-access sequence of any length whose elements are their positions
struct far {
  using difference_type = std::ptrdiff_t;
  using value_type = std::ptrdiff_t;
  using pointer = std::ptrdiff_t const*;
  using reference = std::ptrdiff_t;
  using iterator_category = std::random_access_iterator_tag;
  std::ptrdiff_t p_{0};
  reference operator*() const { return p_; }
  reference operator[](difference_type n) const { return p_ + n; }
  far& operator++() { ++p_; return *this; }
  far& operator--() { --p_; return *this; }
  far operator++(int) { auto t = *this; ++p_; return t; }
  far operator--(int) { auto t = *this; --p_; return t; }
  far& operator+=(difference_type n) { p_ += n; return *this; }
  far& operator-=(difference_type n) { p_ -= n; return *this; }
  friend far operator+(far a, difference_type n) { return a += n; }
  friend far operator+(difference_type n, far a) { return a += n; }
  friend far operator-(far a, difference_type n) { return a -= n; }
  friend difference_type operator-(far a, far b) { return a.p_ - b.p_; }
  friend bool operator==(far a, far b) { return a.p_ == b.p_; }
  friend auto operator<=>(far a, far b) { return a.p_ <=> b.p_; }
};
struct far_sequence {
  std::ptrdiff_t n_;
  far begin() const { return {0}; }
  far end() const { return {n_}; }
};
static void far_positions() {
  far_sequence x{sx::in<int64_t>("size", 0, std::int64_t{1} << 48)};
  auto const n = x.n_;
  auto e = utl::enumerate(x);
  sx_assert(e.end() - e.begin() == n && e.begin() - e.end() == -n, "distance of a long sequence");
  auto it = sx::choose("from end", 2) ? e.end() : e.begin();
  for (unsigned k = 0; k < 2; ++k) {
    auto const to = sx::in<int64_t>("to", 0, (std::int64_t{1} << 48) - 1);
    sx_assume(to < n);
    auto const by = to - (it - e.begin());
    switch (sx::choose("op", 4)) {
      case 0: it += by; break;
      case 1: it -= -by; break;
      case 2: it += by - 1; ++it; break;
      default: it += by + 1; --it; break;
    }
    sx_assert(it - e.begin() == to && e.end() - it == n - to && it != e.end(), "at a distant place");
    auto const [i, v] = *it;
    sx_assert(i == static_cast<size_t>(to) && v == to, "index of a distant element");
    typename decltype(it)::value_type const copy = *it;
    sx_assert(std::get<0>(copy) == static_cast<size_t>(to) && std::get<1>(copy) == to, "copied index of a distant element");
  }
  sx_reach("distant");
}
// elements and containers that can only be moved
static void movable() {
  std::vector<std::unique_ptr<int>> v;
  for (int i = 0; i < 3; ++i) v.push_back(std::make_unique<int>(i + 5));
  size_t n = 0;
  for (auto const& [i, p] : utl::enumerate(v)) { sx_assert(i == n && p.get() == v[n].get() && *p == static_cast<int>(n) + 5, "move-only elements"); ++n; }
  n = 0;
  for (auto&& [i, p] : utl::enumerate(std::move(v))) { sx_assert(i == n && *p == static_cast<int>(n) + 5, "move-only container"); ++n; }
  sx_assert(n == 3, "each of them");
  sx_reach("movable");
}
extern "C" void sx_main() {
  unsigned const n = sx::param("n", 3);
  static unsigned const bigs[] = {127, 128, 255, 256, 257, 300};
  if (sx::param("big", 0)) {  // long containers: index and element keep in step
    std::vector<int> x(bigs[sx::choose("length", 6)]);
    for (auto& v : x) v = sx::any<int>("v");
    switch (sx::choose("type", 3)) {
      case 0: walk<std::vector<int>>(x); break;
      case 1: walk<std::deque<int>>(x); break;
      default: {
        auto e = utl::enumerate(x);
        auto const n = static_cast<std::ptrdiff_t>(x.size());
        static std::ptrdiff_t const at[] = {0, 1, 126, n - 2, n - 1};
        auto const p = at[sx::choose("p", 5)], q = at[sx::choose("q", 5)];
        auto it = sx::choose("from end", 2) ? e.end() : e.begin();
        it += p - (it - e.begin());
        sx_assert(std::get<0>(*it) == static_cast<size_t>(p) && &std::get<1>(*it) == &x[static_cast<size_t>(p)], "long step");
        it -= p - q;
        sx_assert(std::get<0>(*it) == static_cast<size_t>(q) && &std::get<1>(*it) == &x[static_cast<size_t>(q)] && e.end() - it == n - q, "long step back");
      }
    }
    sx_reach("long");
    return;
  }
  std::vector<int> x(sx::choose("n", n + 1));
  for (auto& v : x) v = sx::any<int>("v");
  switch (sx::choose("type", 9)) {
    case 0: walk<std::vector<int>>(x); break;
    case 1: walk<std::list<int>>(x); break;
    case 2: walk<std::deque<int>>(x); break;
    case 3: walk<std::forward_list<int>>(x); break;
    case 4: random<std::vector<int>>(x, sx::param("steps", 3)); break;
    case 5: random<std::deque<int>>(x, sx::param("steps", 3)); break;
    case 7: if (x.empty()) far_positions(); break;
    case 8: if (x.empty()) movable(); break;
    case 6: pointers(x);
  }
}
