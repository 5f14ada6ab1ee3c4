// C26: scope guards
#include "sx.h"
#include "utl/raii.h"
#include <memory>
#include <stdexcept>
#include <vector>

static unsigned runs, live_guards;
static int seen;
struct act {  // assignable, movable action; an empty one must not run
  act() = default;
  explicit act(unsigned* c) : c_{c} {}
  void operator()() { sx_assert(c_ != nullptr, "a moved-from action is not run"); ++*c_; }
  act(act&& o) noexcept : c_{o.c_} { o.c_ = nullptr; }
  act& operator=(act&& o) noexcept { c_ = o.c_; o.c_ = nullptr; return *this; }
  unsigned* c_{nullptr};
};
struct boom {};
static void leave(unsigned how) { if (how == 1) throw boom{}; }

static void fin() {
  unsigned a = 0, b = 0, c = 0;
  auto const how = sx::choose("how", 2);
  auto const form = sx::choose("form", 9);
  unsigned want_a = 1, want_b = 0, want_c = 0;
  try {
    switch (form) {
      case 0: { auto f = utl::make_finally([&] { ++a; }); sx_assert(a == 0, "not before the scope ends"); leave(how); break; }
      case 1: { UTL_FINALLY([&] { ++a; }) sx_assert(a == 0, "not before the scope ends"); leave(how); break; }
      case 2: {  // moved
        auto f = utl::make_finally(act{&a});
        {
          auto g = std::move(f);
          sx_assert(a == 0, "not when moved");
          leave(how);
        }
        sx_assert(a == 1, "when the new owner dies");
        break;
      }
      case 3: {  // moved to a longer living owner
        auto l = [&] { ++a; };
        std::unique_ptr<utl::finally<decltype(l)>> p;
        {
          utl::finally<decltype(l)> f{std::move(l)};
          p = std::make_unique<utl::finally<decltype(l)>>(std::move(f));
        }
        sx_assert(a == 0, "not when the moved-from guard dies");
        leave(how);
        break;
      }
      case 4: {  // released, then moved
        want_a = 0;
        auto f = utl::make_finally(act{&a});
        f.exec_ = false;
        auto g = std::move(f);
        leave(how);
        break;
      }
      case 5: {  // assigned over an armed guard
        want_b = 1;
        auto f = utl::make_finally(act{&a});
        {
          auto g = utl::make_finally(act{&b});
          g = std::move(f);
          sx_assert(a == 0, "the new action waits for the end of its owner");
          leave(how);
        }
        sx_assert(a == 1 && b == 1, "each action once");
        break;
      }
      case 6: {  // chain of moves with a symbolic choice of released guards
        bool const ra = sx::fork(sx::any<bool>("ra")), rb = sx::fork(sx::any<bool>("rb"));
        want_a = !ra;
        want_b = !rb;
        want_c = 1;
        auto f = utl::make_finally(act{&a});
        auto g = utl::make_finally(act{&b});
        f.exec_ = !ra;
        g.exec_ = !rb;
        auto h = std::move(g);
        h = std::move(f);
        auto k = std::move(h);
        auto& kr = k;
        k = std::move(kr);
        UTL_FINALLY([&] { ++c; })
        leave(how);
        break;
      }
      case 8: {  // scopes that are entered and left while an exception is on its way
        want_b = 1;
        struct user {
          ~user() { UTL_FINALLY([&] { ++*a_; }) auto r = utl::make_raii(1, [&](int const v) { *b_ += static_cast<unsigned>(v); }); }
          unsigned *a_, *b_;
        };
        user u{&a, &b};
        leave(how);
        break;
      }
      case 7: {  // several guards run in reverse order
        std::vector<int> order;
        {
          UTL_FINALLY([&] { order.push_back(1); ++a; })
          UTL_FINALLY([&] { order.push_back(2); })
          try {
            UTL_FINALLY([&] { order.push_back(3); })
            leave(how);
          } catch (boom const&) { order.push_back(4); }
        }
        sx_assert(order.size() == (how ? 4 : 3) && order.front() == 3 && order.back() == 1, "reverse order");
        break;
      }
    }
    sx_assert(how == 0 || form == 7, "exception leaves the scope");
    sx_reach("normal exit");
  } catch (boom const&) {
    sx_reach("exceptional exit");
  }
  sx_assert(a == want_a && b == want_b && c == want_c, "each action exactly once");
}
static void guard() {
  auto const how = sx::choose("how", 3);
  int const v0 = sx::any<int>("v0"), v1 = sx::any<int>("v1");
  bool const omit = sx::fork(sx::any<bool>("omit"));
  auto const form = sx::choose("form", 5);
  runs = 0;
  auto body = [&]() -> int {
    if (form == 0) {
      auto r = utl::make_raii(int{v0}, [](int const& v) { ++runs; seen = v; });
      r.omit_destruct_ = omit;
      sx_assert(r.get() == v0 && static_cast<int>(r) == v0 && runs == 0, "value");
      r.get() = v1;
      int const read = r;
      sx_assert(read == v1, "reading it does not release it");
      if (how == 1) throw boom{};
      if (how == 2) return 7;
    } else if (form == 1) {  // guards a variable by reference
      int x = v0;
      {
        auto r = utl::make_raii(x, [](int& v) { ++runs; seen = v; v = 5; });
        x = v1;
        r.omit_destruct_ = omit;
        if (how == 1) throw boom{};
        if (how == 2) return 7;
      }
      sx_assert(x == (omit ? v1 : 5), "guarded variable itself");
    } else if (form == 2) {  // named deleter
      auto del = [](int const& v) { ++runs; seen = v; };
      auto r = utl::make_raii(int{v0}, del);
      r.get() = v1;
      r.omit_destruct_ = omit;
      if (how == 1) throw boom{};
      if (how == 2) return 7;
    } else if (form == 3) {  // reading the value leaves it where it is
      auto r = utl::make_raii(std::vector<int>(3, v0), [](std::vector<int> const& v) { ++runs; seen = v.size() == 3 ? v[2] : 0; if (v.size() != 3) runs = 100; });
      std::vector<int> const copy = r;
      sx_assert(copy.size() == 3 && copy[2] == v0 && r.get().size() == 3, "a copy");
      r.get()[2] = v1;
      std::vector<int> const second{static_cast<std::vector<int>>(r)};
      sx_assert(second.size() == 3 && second[2] == v1, "the current value");
      r.omit_destruct_ = omit;
      if (how == 1) throw boom{};
      if (how == 2) return 7;
    } else {
      auto r = utl::make_raii(std::make_unique<int>(v0), [](std::unique_ptr<int>& p) { ++runs; seen = *p; });
      *r.get() = v1;
      r.omit_destruct_ = omit;
      if (how == 1) throw boom{};
      if (how == 2) return 7;
    }
    return 8;
  };
  try {
    auto const ret = body();
    sx_assert(ret == (how == 2 ? 7 : 8), "result");
  } catch (boom const&) {
    sx_assert(how == 1, "exception only if thrown");
  }
  sx_assert(runs == (omit ? 0 : 1), "exactly once unless told to skip");
  if (!omit) sx_assert(seen == v1, "with the value at that time");
  sx_reach(omit ? "skipped" : "ran");
  sx_observe(runs);
}
extern "C" void sx_main() {
  if (sx::choose("kind", 2)) guard(); else fin();
}
