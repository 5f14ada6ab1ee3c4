// C23: iterator_facade over symbolic positions and offsets
#include "sx.h"
#include "utl/iterator_facade.h"
#include <limits>
#include <list>
#include <vector>
#include <iterator>

struct item { int64_t v; };
struct end_t {};
// random access: value and reference dereference, with and without increment/decrement
struct RA : utl::iterator_facade<RA> {
  RA() = default;
  explicit RA(int64_t p) : p_{p} {}
  item dereference() const { return {p_ ^ 0x5a5a}; }
  void advance(std::ptrdiff_t d) { p_ += d; }
  std::ptrdiff_t distance_to(RA const& o) const { return o.p_ - p_; }
  int64_t p_{0};
};
struct RI : utl::iterator_facade<RI> {
  RI() = default;
  explicit RI(int64_t p) : p_{p} {}
  item dereference() const { return {p_ ^ 0x5a5a}; }
  void advance(std::ptrdiff_t d) { p_ += d; }
  void increment() { ++p_; ++inc; }
  void decrement() { --p_; ++dec; }
  bool equal_to(RI const& o) const { return p_ == o.p_; }
  std::ptrdiff_t distance_to(RI const& o) const { return o.p_ - p_; }
  int64_t p_{0};
  int inc{0}, dec{0};
};
struct RS : utl::iterator_facade<RS> {  // 32-bit distance
  RS() = default;
  explicit RS(int64_t p) : p_{p} {}
  item dereference() const { return {p_ ^ 0x5a5a}; }
  void advance(int d) { p_ += d; }
  int distance_to(RS const& o) const { return static_cast<int>(o.p_ - p_); }
  int64_t p_{0};
};
struct FW : utl::iterator_facade<FW> {
  using sentinel_type = end_t;
  item const& dereference() const { return *p_; }
  void increment() { ++p_; }
  bool equal_to(FW const& o) const { return p_ == o.p_; }
  bool at_end() const { return p_ == e_; }
  item const* p_{nullptr};
  item const* e_{nullptr};
};
// random access with a sentinel whose distance is known
struct SD : utl::iterator_facade<SD> {
  using sentinel_type = end_t;
  item const& dereference() const { return *p_; }
  void advance(std::ptrdiff_t d) { p_ += d; }
  std::ptrdiff_t distance_to(SD const& o) const { return o.p_ - p_; }
  std::ptrdiff_t distance_to(end_t) const { return e_ - p_; }
  bool at_end() const { return p_ == e_; }
  item const* p_{nullptr};
  item const* e_{nullptr};
};
struct BI : utl::iterator_facade<BI> {
  item& dereference() const { return *p_; }
  void increment() { ++p_; }
  void decrement() { --p_; }
  bool equal_to(BI const& o) const { return p_ == o.p_; }
  item* p_{nullptr};
};
struct SP : utl::iterator_facade<SP> {
  using sentinel_type = end_t;
  static constexpr bool single_pass_iterator = true;
  item dereference() const { return {*n_}; }
  void increment() { --*n_; }
  bool at_end() const { return *n_ == 0; }
  int64_t* n_{nullptr};
};
struct WV : utl::iterator_wrapper_facade<WV, std::vector<item>::iterator> {
  using iterator_wrapper_facade::iterator_wrapper_facade;
  item& dereference() const { return *wrapped_iterator; }
};
struct WL : utl::iterator_wrapper_facade<WL, std::list<item>::iterator> {
  using iterator_wrapper_facade::iterator_wrapper_facade;
  item& dereference() const { return *wrapped_iterator; }
};
static_assert(std::is_same_v<std::iterator_traits<RA>::iterator_category, std::random_access_iterator_tag>);
static_assert(std::is_same_v<std::iterator_traits<FW>::iterator_category, std::forward_iterator_tag>);
static_assert(std::is_same_v<std::iterator_traits<BI>::iterator_category, std::bidirectional_iterator_tag>);
static_assert(std::is_same_v<std::iterator_traits<SP>::iterator_category, std::input_iterator_tag>);
static_assert(std::is_same_v<std::iterator_traits<WV>::iterator_category, std::random_access_iterator_tag>);
static_assert(std::is_same_v<std::iterator_traits<WL>::iterator_category, std::bidirectional_iterator_tag>);

template <typename I, typename D>
static void random() {
  constexpr int64_t B = int64_t{1} << (sizeof(std::declval<I const&>().distance_to(std::declval<I const&>())) == 8 ? 60 : 29);
  constexpr int64_t N = sizeof(D) == 8 ? B : std::numeric_limits<D>::max();
  auto const p = sx::in<int64_t>("p", -B, B), q = sx::in<int64_t>("q", -B, B);
  auto const n = static_cast<D>(sx::in<int64_t>("n", std::is_signed_v<D> ? -N : 0, N));
  int64_t const sn = static_cast<int64_t>(n);
  I const a{p}, b{q};
  { auto x = a; auto& r = ++x; sx_assert(&r == &x && x.p_ == p + 1, "++it"); auto& s = --x; sx_assert(&s == &x && x.p_ == p, "-- undoes ++"); }
  { auto x = a; auto o = x++; sx_assert(o.p_ == p && x.p_ == p + 1, "it++ returns the old position"); }
  { auto x = a; auto o = x--; sx_assert(o.p_ == p && x.p_ == p - 1, "it-- returns the old position"); }
  { auto x = a; auto& r = x += n; sx_assert(&r == &x && x.p_ == p + sn, "it += n"); }
  { auto x = a; auto& r = x -= n; sx_assert(&r == &x && x.p_ == p - sn, "it -= n"); }
  sx_assert((a + n).p_ == p + sn && (n + a).p_ == p + sn && (a - n).p_ == p - sn, "it + n, n + it, it - n");
  sx_assert(a.p_ == p, "operand unchanged");
  sx_assert(a[n].v == ((p + sn) ^ 0x5a5a) && (*a).v == (p ^ 0x5a5a) && a->v == (p ^ 0x5a5a), "it[n], *it, it->");
  sx_assert(b - a == q - p && (a + (b - a)).p_ == q, "distance is the number of steps");
  sx_assert((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "comparisons agree with the distance");
  sx_reach("random access");
}
template <typename I, typename It>
static void walk(It first, It last, std::vector<item*> const& want) {
  I a{first};
  I const e{last};
  for (size_t i = 0; i < want.size(); ++i) {
    sx_assert(a != e && !(a == e), "not at the end");
    sx_assert(&*a == want[i] && a.operator->() == want[i], "dereference");
    if (i % 2) { auto& r = ++a; sx_assert(&r == &a, "++ returns the iterator"); } else { auto o = a++; sx_assert(&*o == want[i], "it++ returns the old position"); }
  }
  sx_assert(a == e && !(a != e), "at the end");
  for (size_t i = want.size(); i-- > 0;) {
    if (i % 2) { auto& r = --a; sx_assert(&r == &a, "-- returns the iterator"); } else { auto o = a--; sx_assert(i + 1 == want.size() ? o == e : &*o == want[i + 1], "it-- returns the old position"); }
    sx_assert(&*a == want[i], "backward");
    sx_reach("walked back");
  }
  if constexpr (requires { e - a; }) sx_assert(e - a == static_cast<std::ptrdiff_t>(want.size()), "distance");
}
extern "C" void sx_main() {
  auto const k = sx::choose("kind", 14);
  std::vector<item> v((k > 4 && k < 10) || k == 13 ? sx::choose("m", 4) : 0);
  for (auto& e : v) e.v = sx::any<int64_t>("v");
  std::list<item> l(v.begin(), v.end());
  std::vector<item*> pv, pl;
  for (auto& e : v) pv.push_back(&e);
  for (auto& e : l) pl.push_back(&e);
  switch (k) {
    case 0: random<RA, std::ptrdiff_t>(); break;
    case 1: random<RA, int>(); break;
    case 2: random<RA, unsigned>(); break;
    case 3: random<RI, std::ptrdiff_t>(); break;
    case 4: random<RS, int>(); break;
    case 10: random<RA, unsigned short>(); break;
    case 11: random<RI, signed char>(); break;
    case 12: random<RA, uint64_t>(); break;
    case 5: {  // forward with sentinel
      FW a; a.p_ = v.data(); a.e_ = v.data() + v.size();
      size_t i = 0;
      for (; a != end_t{}; ) {
        sx_assert(!(a == end_t{}) && !(end_t{} == a) && end_t{} != a && i < v.size(), "sentinel comparisons");
        sx_assert(&*a == pv[i] && a.operator->() == pv[i], "dereference");
        auto const b = a++;
        sx_assert(&*b == pv[i] && b != a && !(b == a), "it++ returns the old position");
        ++i;
      }
      sx_assert(a == end_t{} && end_t{} == a && !(end_t{} != a) && i == v.size(), "sentinel at the end");
      sx_reach("forward");
      break;
    }
    case 6: {
      BI a, e; a.p_ = v.data(); e.p_ = v.data() + v.size();
      size_t i = 0;
      for (; a != e; ++a, ++i) sx_assert(&*a == pv[i], "dereference");
      sx_assert(i == v.size(), "n steps");
      while (i-- > 0) { auto o = a--; sx_assert(o.p_ == a.p_ + 1 && &*a == pv[i], "backward"); }
      break;
    }
    case 7: {
      int64_t n = sx::choose("n", 4);
      auto const n0 = n;
      SP a; a.n_ = &n;
      int64_t steps = 0;
      for (; a != end_t{}; a++, ++steps) sx_assert((*a).v == n0 - steps && a->v == n0 - steps, "single pass value");
      sx_assert(steps == n0, "single pass visits all");
      break;
    }
    case 8: walk<WV>(v.begin(), v.end(), pv); break;
    case 13: {
      SD a; a.p_ = v.data(); a.e_ = v.data() + v.size();
      auto const b = a;
      auto const m = static_cast<std::ptrdiff_t>(v.size());
      for (std::ptrdiff_t i = 0; i < m; ++i, ++a) {
        sx_assert(end_t{} - a == m - i && a != end_t{} && a - b == i, "distance to the sentinel");
        sx_assert(&b[i] == pv[static_cast<size_t>(i)] && &*(b + i) == &*a, "it[n]");
      }
      sx_assert(end_t{} - a == 0 && a == end_t{}, "at the sentinel");
      sx_reach("sized sentinel");
      break;
    }
    case 9: walk<WL>(l.begin(), l.end(), pl); break;
  }
}
