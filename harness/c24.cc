// C24: lazy pipeline views against a streaming reference
#include "sx.h"
#include "utl/pipes.h"
#include <deque>
#include <list>
#include <memory>
#include <string>
#include <vector>
#ifndef DEPTH
#define DEPTH 2
#endif
struct E {
  E() = default;
  E(int x) : v{x} {}
  E(int x, bool e) : v{x}, end{e} {}
  int v{0};
  bool end{false};
  bool operator==(E const& o) const { return v == o.v && end == o.end; }
  bool operator!=(E const& o) const { return !(*this == o); }
};
static int g_mask, g_xor, g_lim;
// an integer that notices being moved past the end of its range
static int g_end;
struct I {
  I() = default;
  I(int x) : v{x} {}
  operator E() const { return {v}; }
  I& operator++() { sx_assert(v < g_end, "nothing evaluated beyond the end of the source"); ++v; return *this; }
  I operator++(int) { auto const old = *this; ++*this; return old; }
  friend bool operator<(I const& a, I const& b) { return a.v < b.v; }
  friend bool operator>(I const& a, I const& b) { return a.v > b.v; }
  friend bool operator<=(I const& a, I const& b) { return a.v <= b.v; }
  friend bool operator>=(I const& a, I const& b) { return a.v >= b.v; }
  friend bool operator==(I const& a, I const& b) { return a.v == b.v; }
  friend bool operator!=(I const& a, I const& b) { return a.v != b.v; }
  int v{0};
};
enum stage_t { kFilter, kMap, kTake, kUnique, kTakeEnd };
static bool drop(E const& x) { return !x.end && (x.v & g_mask) != 0; }
static E mapped(E const& x) { return {x.end ? x.v : x.v ^ g_xor, x.end}; }
static bool take(E const& x) { return x.end || x.v < g_lim; }

template <stage_t K, typename R>
static auto stage(R&& r) {
  if constexpr (K == kFilter) return std::forward<R>(r) | utl::remove_if([](E const& x) { return drop(x); });
  else if constexpr (K == kMap) return std::forward<R>(r) | utl::transform([](E const& x) { return mapped(x); });
  else if constexpr (K == kTake) return std::forward<R>(r) | utl::take_while([](E const& x) { return take(x); });
  else if constexpr (K == kUnique) return std::forward<R>(r) | utl::unique();
  else return std::forward<R>(r) | utl::take_while([](E const& x) { return !x.end; });
}
static std::vector<stage_t> stages;
static std::vector<E> source;      // what the source delivers
static unsigned consumed;          // generator calls
static std::vector<E> expected;
static unsigned max_consumed;
static void reference() {
  expected.clear();
  struct st { bool have = false; E last; };
  std::vector<st> s(stages.size());
  unsigned i = 0;
  bool stop = false;
  for (; i < source.size() && !stop; ++i) {
    E x = source[i];
    bool arrives = true;
    for (unsigned k = 0; k < stages.size() && arrives && !stop; ++k) {
      switch (stages[k]) {
        case kFilter: if (sx::fork(drop(x))) arrives = false; break;
        case kMap: x = mapped(x); break;
        case kTake: if (!sx::fork(take(x))) stop = true; break;
        case kTakeEnd: if (x.end) stop = true; break;
        case kUnique: if (s[k].have && sx::fork(s[k].last == x)) arrives = false; s[k].have = true; s[k].last = x; break;
      }
    }
    if (arrives && !stop) expected.push_back(x);
  }
  max_consumed = i;
  if (stop && i < source.size()) sx_reach("stopped early");
}
template <typename V>
static void same(V const& got, char const* what) {
  sx_assert(got.size() == expected.size(), what);
  size_t i = 0;
  for (auto const& x : got) { E const e = x; sx_assert(e == expected[i], what); ++i; }
  sx_observe(i);
}
template <bool Gen, typename R>
static void sink(R&& r) {
  reference();
  auto const form = sx::choose("sink", Gen ? 3 : 4);
  if (form == 0) {
    same(std::forward<R>(r) | utl::vec(), "collected elements");
  } else if (form == 1) {
    std::vector<E> got;
    for (auto const& x : std::forward<R>(r) | utl::iterable()) got.push_back(x);
    same(got, "iterated elements");
  } else if (form == 2) {
    std::vector<E> got;
    std::forward<R>(r) | utl::for_each([&](E const& x) { got.push_back(x); });
    same(got, "visited elements");
  } else if constexpr (!Gen) {
    auto view = std::forward<R>(r);
    same(view | utl::vec(), "first pass over a named view");
    same(view | utl::vec(), "second pass over a named view");
    { auto w = view; same(w | utl::take_while([](E const&) { return true; }) | utl::vec(), "take-while over a named view"); same(w | utl::vec(), "named view after take-while"); (void)(w | utl::unique() | utl::vec()); same(w | utl::vec(), "named view after unique"); sx_reach("named view"); }
  }
  if (Gen) sx_assert(consumed <= max_consumed, "generator not consumed past the end");
  if (expected.size() > 1) sx_reach("several elements");
}
template <bool Gen, int D, bool Ended, typename R>
static void build(R&& r) {
  auto k = sx::choose("stage", D == 0 ? 1 : 5);
  if constexpr (D > 0) {
    switch (k) {
      case 1: stages.push_back(kFilter); return build<Gen, D - 1, Ended>(stage<kFilter>(std::forward<R>(r)));
      case 2: stages.push_back(kMap); return build<Gen, D - 1, Ended>(stage<kMap>(std::forward<R>(r)));
      case 3: stages.push_back(kTake); return build<Gen, D - 1, Ended>(stage<kTake>(std::forward<R>(r)));
      case 4: stages.push_back(kUnique); return build<Gen, D - 1, Ended>(stage<kUnique>(std::forward<R>(r)));
    }
  }
  if constexpr (!Ended) {
    stages.push_back(kTakeEnd);
    if constexpr (D > 0) {
      return build<Gen, D - 1, true>(stage<kTakeEnd>(std::forward<R>(r)));
    } else {
      return sink<Gen>(stage<kTakeEnd>(std::forward<R>(r)));
    }
  } else {
    return sink<Gen>(std::forward<R>(r));
  }
}
extern "C" void sx_main() {
  unsigned const n = sx::param("n", 3);
  g_mask = sx::any<int>("mask");
  g_xor = sx::any<int>("xor");
  g_lim = sx::any<int>("lim");
  auto const m = sx::choose("m", n + 1);
#if SRC == 0
  {
    std::vector<E> v;
    v.reserve(m);
    for (unsigned i = 0; i < m; ++i) v.push_back(E{sx::any<int>("v")});
    source = v;
    build<false, DEPTH, true>(utl::all(v));
    sx_assert(v.size() == m, "container unchanged");
    for (unsigned i = 0; i < m; ++i) sx_assert(v[i] == source[i], "container unchanged");
  }
#elif SRC == 1
  {
    std::list<E> v;
    for (unsigned i = 0; i < m; ++i) v.push_back(E{sx::any<int>("v")});
    source = {v.begin(), v.end()};
    if (sx::choose("const", 2)) build<false, DEPTH, true>(utl::all(std::as_const(v)));
    else build<false, DEPTH, true>(utl::all(v.begin(), v.end()));
    sx_assert(v.size() == m, "container unchanged");
  }
#elif SRC == 2
  {
    for (unsigned i = 0; i < m; ++i) source.push_back(E{sx::any<int>("v")});
    std::vector<E> v;
    v.reserve(m);
    for (auto const& e : source) v.push_back(e);
    // the container is handed over for good
    auto r = [&] { auto w = std::move(v); return utl::all(std::move(w)); }();
    build<false, DEPTH, true>(std::move(r));
  }
#elif SRC == 3
  {
    auto const from = sx::in<int>("from", -1000000, 1000000);
    for (unsigned i = 0; i < m; ++i) source.push_back(E{from + static_cast<int>(i)});
    auto const to = from + (m ? static_cast<int>(m) : -static_cast<int>(sx::choose("backward", 2)));
    build<false, DEPTH, true>(utl::iota(from, to));
  }
#elif SRC == 5
  {
    auto const from = sx::in<int>("from", -1000000, 1000000);
    for (unsigned i = 0; i < m; ++i) source.push_back(E{from + static_cast<int>(i)});
    auto const to = from + (m ? static_cast<int>(m) : -static_cast<int>(sx::choose("backward", 3)));
    g_end = to;
    build<false, DEPTH, true>(utl::iota(I{from}, I{to}));
  }
#elif SRC == 6
  {
    // the functions are given the very elements of the source
    std::vector<E> v;
    v.reserve(m);
    for (unsigned i = 0; i < m; ++i) v.push_back(E{sx::any<int>("v")});
    auto const at = [&](E const& x) { for (auto const& e : v) if (&e == &x) return true; return false; };
    auto const same_places = [&](auto const& got) {
      sx_assert(got.size() == m, "address of every element");
      for (unsigned i = 0; i < m; ++i) sx_assert(got[i] == &v[i], "address of every element");
    };
    switch (sx::choose("form", 8)) {
      case 0: same_places(utl::all(v) | utl::transform([](E const& e) { return &e; }) | utl::vec()); break;
      case 1: same_places(utl::all(std::as_const(v)) | utl::transform([](E const& e) { return &e; }) | utl::vec()); break;
      case 2: same_places(utl::all(v) | utl::remove_if([&](E const& e) { return !at(e); }) | utl::take_while([&](E const& e) { return at(e); }) | utl::transform([](E const& e) { return &e; }) | utl::vec()); break;
      case 3: {
        auto r = utl::all(v.begin(), v.end()) | utl::transform([](E const& e) { return &e; }) | utl::remove_if([](E const* e) { return e == nullptr; });
        std::vector<E const*> got;
        for (auto const* e : r | utl::iterable()) got.push_back(e);
        same_places(got);
        break;
      }
      case 4: {
        // elements that cannot be copied
        std::vector<std::unique_ptr<int>> p;
        for (auto const& e : v) p.push_back(std::make_unique<int>(e.v));
        auto const got = utl::all(p) | utl::remove_if([](std::unique_ptr<int> const& x) { return x == nullptr; }) | utl::take_while([](std::unique_ptr<int> const& x) { return x != nullptr; }) |
                         utl::transform([](std::unique_ptr<int> const& x) { return *x; }) | utl::vec();
        sx_assert(got.size() == m, "elements that cannot be copied");
        for (unsigned i = 0; i < m; ++i) sx_assert(got[i] == v[i].v && p[i] != nullptr, "elements that cannot be copied");
        break;
      }
      case 5: {
        // kept for later: the container handed over is gone by then
        auto const mk = [&] { auto r = utl::all(std::vector<E>(v)) | utl::transform([](E const& e) { return e; }) | utl::remove_if([](E const& e) { return e.end; }); return r; };
        auto r = mk();
        auto const got = r | utl::vec();
        sx_assert(got.size() == m, "kept for later");
        for (unsigned i = 0; i < m; ++i) sx_assert(got[i] == v[i], "kept for later");
        break;
      }
      case 6: {
        // functions handed over as temporaries and as names, kept for later
        auto const k = sx::any<int>("k");
        auto const f = [p = std::make_shared<int>(k)](E const& e) { return e.v ^ *p; };
        auto const mk = [&] { auto g = [p = std::make_shared<int>(k)](E const& e) { return e.v ^ *p; }; return utl::all(v) | utl::transform(std::move(g)); };
        auto r = mk();
        auto const got = r | utl::vec();
        auto const named = utl::all(v) | utl::transform(f) | utl::vec();
        sx_assert(got.size() == m && named.size() == m, "kept function");
        for (unsigned i = 0; i < m; ++i) sx_assert((got[i] == (v[i].v ^ k)) & (named[i] == (v[i].v ^ k)), "kept function");
        break;
      }
      case 7: {
        // the elements can be changed on the way
        auto const v0 = v;
        utl::all(v) | utl::remove_if([](E const&) { return false; }) | utl::for_each([](E& e) { e.end = true; });
        for (unsigned i = 0; i < m; ++i) sx_assert(v[i].end && v[i].v == v0[i].v, "changed in place");
        break;
      }
    }
    sx_reach("the very elements");
  }
#elif SRC == 4
  {
    for (unsigned i = 0; i < m; ++i) source.push_back(E{sx::any<int>("v")});
    source.push_back(E{0, true});
    build<true, DEPTH, false>(utl::generate([]() -> E {
      sx_assert(consumed < source.size(), "generator not consumed past the end");
      return source[consumed++];
    }));
  }
#endif
}
