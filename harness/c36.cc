// C36: reported progress
#include "sx.h"
#include <cmath>
#include "../src/progress_tracker.cc"

static int calls;
static float seen;
static bool seen_free;
// (nothing to look at if the lock is of another kind)
template <typename T>
static bool free_lock(T& t) {
  if constexpr (requires { t.mutex_.try_lock(); }) {
    bool const f = t.mutex_.try_lock();
    if (f) t.mutex_.unlock();
    return f;
  }
  return true;
}
static size_t pick_in(char const* name) { return sx::any<uint32_t>(name); }
static void check_tracker(float const low, float const high, float const mod, size_t const max) {
  utl::progress_tracker t{[](utl::progress_tracker const& p) {
    ++calls;
    seen = p.out_;
    seen_free = free_lock(p);
  }};
  if (sx::param("mode", 0) == 0) {
    if (sx::choose("used before", 2)) t.update(sx::in<uint8_t>("before", 0, 150));
    t.reset_bounds().out_bounds(low, high).out_mod(mod).in_high(max);
    float const start = t.out_;
    sx_assert((start >= t.out_low_) & (start <= t.out_high_), "within the bounds as soon as they are set");
    sx_assert(t.out_low_ == low && t.out_high_ == high && t.out_mod_ == mod && t.in_high_ == max, "configured");
    // (nothing is reset if no setting changed: C37)
    if (low == 0.F && high == 100.F && mod == 1.F) t.in_ = 0, t.out_ = low;
    sx_assert(t.out_ == low && t.in_ == 0, "starts at the low bound");
  } else {  // as out_bounds().out_mod().in_high() leave it
    t.out_low_ = low;
    t.out_high_ = high;
    t.out_mod_ = mod;
    t.in_high_ = max;
    t.out_ = low;
  }
  size_t cur = 0;
  float out = t.out_;
  auto const steps = sx::param("steps", 2);
  for (unsigned i = 0; i < steps; ++i) {
    calls = 0;
    size_t want = 0;
    auto const v = pick_in("v");
    switch (sx::param("ops", 5) > 1 ? sx::choose("op", sx::param("ops", 5)) : 0) {
      case 0: t.update(v); want = v; break;
      case 1: t.increment(v); want = cur + v; break;
      case 2: t.update_monotonic(v); want = v > cur ? v : cur; break;
      case 3: t.update_fn()(v); want = v > cur ? v : cur; break;
      default: t.increment_fn()(); want = cur + 1; break;
    }
    sx_assert(t.in_ == want, "input");
    float const now = t.out_;
    sx_assert(now == now, "a number");
    sx_assert((now >= low) & (now <= high), "within the bounds");
    sx_assert(!((want == 0) & (max != 0)) | (now == low), "low bound at input 0");
    bool const reachable = low + std::round((high - low) / mod) * mod == high;
    sx_assert(!((want >= max) & reachable) | (now == high), "high bound at the maximum");
    if (i > 0) {
      sx_assert(!(want >= cur) | (now >= out), "does not decrease with the input");
      sx_assert(!(want <= cur) | (now <= out), "does not increase with the input");
    }
    bool const changed = now != out;
    sx_assert((calls == 1) == changed && calls <= 1, "one callback exactly if the reported value changed");
    if (calls == 1) {
      sx_assert(seen == now, "the callback sees the new value");
      sx_assert(seen_free, "no lock held in the callback");
      sx_reach("changed");
    } else {
      sx_reach("unchanged");
    }
    cur = want;
    out = now;
  }
}
// inputs and maxima beyond 32 bits (byte counts): symbolic hundredths of maxima of the form 100 * 2^k
static void large() {
  auto const k = sx::param("shift", 34);
  size_t const max = size_t{100} << k, v = static_cast<size_t>(sx::any<uint8_t>("hundredths")) << k;
  calls = 0;
  utl::progress_tracker t{[](utl::progress_tracker const&) { ++calls; }};
  t.in_high_ = max;
  if (sx::choose("op", 2)) t.update(v); else t.increment(v);
  float const now = t.out_;
  sx_assert(t.in_ == v, "input");
  sx_assert(now == static_cast<float>(v >= max ? 100 : v >> k), "percentage of a large input");
  sx_assert(calls == (v != 0 ? 1 : 0), "one callback exactly if the reported value changed");
  sx_reach("large");
}
extern "C" void sx_main() {
  if (sx::param("mode", 0) == 0) {  // common settings, every maximum and every sequence of updates
    static float const lows[] = {0.F, 25.F, -40.F, 10.F, 0.F};
    static float const highs[] = {100.F, 75.F, 40.F, 10.F, 100.F};
    static float const mods[] = {1.F, 5.F, 20.F, 1.F, 0.25F};
    auto const i = sx::choose("setting", 5);
    check_tracker(lows[i], highs[i], mods[i], sx::any<uint32_t>("max"));
  } else if (sx::param("mode", 0) == 2) {
    large();
  } else {  // every finite setting
    auto const low = sx::any<float>("low"), high = sx::any<float>("high"), mod = sx::any<float>("mod");
    sx_assume(low >= -1e30F && low <= high && high <= 1e30F && mod > 0.F && mod <= 1e30F);
    check_tracker(low, high, mod, sx::any<uint32_t>("max"));
  }
}
