// C37: chained settings and the registry of trackers
#include <cmath>
#include "sx.h"
#include "../src/progress_tracker.cc"
#include <stdexcept>
#include <string>
#include <memory>

static int calls;
static bool free_in_callback;
// (nothing to look at if the lock is of another kind)
template <typename T>
static bool free_lock(T& t) {
  if constexpr (requires { t.mutex_.try_lock(); }) {
    bool const f = t.mutex_.try_lock();
    if (f) t.mutex_.unlock();
    return f;
  }
  return true;
}
struct model { std::string status; bool show{true}; float low{0}, high{100}, mod{1}; size_t max{100}; };
static float num(char const* name) { return static_cast<float>(sx::in<int8_t>(name, -9, 110)); }
static std::string texts(unsigned i) { return i == 0 ? "" : i == 1 ? "a" : "a status text longer than the small buffer"; }

struct step { unsigned what; float a, b; size_t n; };
static void chains() {
  using namespace utl;
  model m;
  progress_tracker t{[](progress_tracker const& p) {
    ++calls;
    free_in_callback = free_lock(p);
  }};
  auto const k = sx::param("chains", 2), len = sx::param("len", 2);
  for (unsigned c = 0; c < k; ++c) {
    bool bounds = false, other = false, fails = false;
    calls = 0;
    size_t const before = sx::in<uint8_t>("before", 0, 120);
    t.in_ = before;
    float const reported = c == 0 && sx::choose("nothing reported", 2) ? 0.F : 55.F;
    t.out_ = reported;
    auto const n = 1 + sx::choose("n", len);
    step st[4];
    unsigned used = 0;
    for (unsigned i = 0; i < n && !fails; ++i) {
      auto& s = st[used++];
      s.what = sx::choose("what", 6);
      switch (s.what) {
        case 0: s.n = sx::choose("text", 3); other = other || m.status != texts(s.n); m.status = texts(s.n); break;
        case 1: s.n = sx::choose("show", 2); other = other || m.show != (s.n != 0); m.show = s.n != 0; break;
        case 2:
          bounds = sx::fork(bounds || m.low != 0.F || m.high != 100.F || m.mod != 1.F || m.max != 100);
          m.low = 0; m.high = 100; m.mod = 1; m.max = 100;
          break;
        case 3:
          s.a = num("low"); s.b = num("high");
          if (sx::fork(s.a > s.b)) { fails = true; break; }
          bounds = sx::fork(bounds || m.low != s.a || m.high != s.b);
          m.low = s.a; m.high = s.b;
          break;
        case 4:
          s.a = num("mod");
          if (sx::fork(s.a <= 0.F)) { fails = true; break; }
          bounds = sx::fork(bounds || m.mod != s.a);
          m.mod = s.a;
          break;
        default:
          s.n = sx::any<uint8_t>("max");
          bounds = sx::fork(bounds || m.max != s.n);
          m.max = s.n;
      }
    }
    auto apply = [](auto&& u, step const& s) {
      switch (s.what) {
        case 0: return u.status(texts(s.n));
        case 1: return u.show_progress(s.n != 0);
        case 2: return u.reset_bounds();
        case 3: return u.out_bounds(s.a, s.b);
        case 4: return u.out_mod(s.a);
        default: return u.in_high(s.n);
      }
    };
    bool threw = false;
    try {
      if (used == 1) {
        apply(t, st[0]);
      } else if (used == 2) {
        auto u = apply(t, st[0]);
        sx_assert(calls == 0, "nothing is reported before the end of the chain");
        apply(u, st[1]);
      } else {
        apply(apply(apply(t, st[0]), st[1]), st[2]);
      }
    } catch (std::runtime_error const&) {
      threw = true;
    }
    sx_assert(threw == fails, "invalid settings are refused");
    sx_assert(calls == (bounds || other ? 1 : 0), "one callback exactly if something changed");
    sx_assert(free_lock(t), "lock released");
    if (calls) { sx_assert(free_in_callback, "called after the lock is released"); sx_reach("changed"); } else sx_reach("unchanged");
    sx_assert(t.status_ == m.status && t.show_progress_ == m.show, "text settings in effect");
    sx_assert(t.out_low_ == m.low && t.out_high_ == m.high && t.out_mod_ == m.mod && t.in_high_ == m.max, "bounds in effect");
    if (bounds) sx_assert(t.in_ == 0 && t.out_ == m.low, "new bounds: starts again");
    else sx_assert(t.in_ == before && t.out_ == reported, "otherwise the progress stays");
  }
}
static void unlocked(utl::global_progress_trackers& g) {
  sx_assert(free_lock(g), "registry lock released");
}
template <typename G>
static void silence(G& g, bool const s) {
  if constexpr (requires { g.silent_ = s; }) g.silent_ = s;
}
template <typename G>
static void is_silent(G& g, bool const s) {
  if constexpr (requires { g.silent_ == s; }) sx_assert(g.silent_ == s, "silent unless bars are requested");
}
template <typename G, typename P, typename N>
static void holds(G& g, P const& active, P const* made, N const* names) {
  if constexpr (requires { g.trackers_.count(names[0]) == 1 && g.trackers_[names[0]] == made[0]; }) {
    size_t n = 0;
    for (unsigned j = 0; j < 3; ++j) if (made[j]) { ++n; sx_assert(g.trackers_.count(names[j]) == 1 && g.trackers_[names[j]] == made[j], "registered"); }
    sx_assert(g.trackers_.size() == n, "nothing else registered");
  }
  if constexpr (requires { g.active_tracker_ == active; }) sx_assert(g.active_tracker_ == active, "active tracker");
}
static void registry() {
  using namespace utl;
  auto& g = get_global_progress_trackers();
  sx_assert(&g == &get_global_progress_trackers(), "one registry");
  is_silent(g, true);
  std::string const names[] = {"a", "a tracker with a name of 32 chars", "b"};
  progress_tracker_ptr made[3], active, own;
  own = std::make_shared<progress_tracker>([](progress_tracker const&) {});
  auto tracker = [&](unsigned i, progress_tracker_ptr const& p) {
    sx_assert(p != nullptr, "a tracker");
    if (made[i]) { sx_assert(p == made[i], "created once per name"); }
    else {
      for (auto const& q : made) sx_assert(p != q, "one tracker per name");
      made[i] = p;
    }
  };
  bool const bars = sx::choose("bars", 2);
  {
    std::unique_ptr<global_progress_bars> b;
    bool const silent = sx::choose("silent", 2);
    if (bars) {
      b = std::make_unique<global_progress_bars>(silent);
      is_silent(g, silent);
      silence(g, true);  // keep the harness from printing
    }
    auto const ops = sx::param("ops", 3);
    for (unsigned k = 0; k < ops; ++k) {
      auto const i = sx::choose("name", 3);
      switch (sx::choose("op", 6)) {
        case 0: tracker(i, g.get_tracker(names[i])); break;
        case 1: { auto p = activate_progress_tracker(names[i]); tracker(i, p); active = p; break; }
        case 2: sx_assert(activate_progress_tracker(own) == own, "activates the given one"); active = own; break;
        case 3: {
          bool threw = false;
          try { sx_assert(get_active_progress_tracker() == active, "the active tracker"); } catch (std::runtime_error const&) { threw = true; }
          sx_assert(threw == (active == nullptr), "no active tracker: throws");
          break;
        }
        case 4: {
          auto p = get_active_progress_tracker_or_activate(names[i]);
          if (active) sx_assert(p == active, "the active tracker wins");
          else { tracker(i, p); active = p; }
          break;
        }
        default: {
          g.clear();
          for (auto& q : made) q = nullptr;
          active = nullptr;
          break;
        }
      }
      unlocked(g);
      holds(g, active, made, names);
      if (made[0]) { made[0]->update(50); sx_assert(made[0]->out_ == 50.F, "usable"); made[0]->update(0); }
    }
    if (active) sx_reach("active");
    if (bars) silence(g, silent);
    if (bars) {
      b.reset();
      is_silent(g, true);
      for (auto& q : made) q = nullptr;
      active = nullptr;
      holds(g, active, made, names);
      unlocked(g);
      sx_reach("bars");
    }
  }
}
extern "C" void sx_main() {
  if (sx::param("mode", 0) == 0) chains();
  else registry();
}
