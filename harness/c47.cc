// C47: several threads update, create, activate and print trackers; every
// interleaving at atomic operations and locks, with a race check on every
// memory access.
#include <cmath>
#include <array>
#include <map>
#include <memory>
#include <thread>
#include <vector>
#include "sx.h"
#include "sx_io.h"
#include "../src/progress_tracker.cc"
#include <iostream>
#include <mutex>
#include <stdexcept>
#include <string>

// threads update one tracker
static void updates() {
  auto const n = sx::param("threads", 2), each = sx::param("each", 1);
  enum { inc, mono, incfn, updfn };
  bool const monotonic = sx::choose("monotonic", 2) != 0;
  std::mutex m;
  unsigned calls = 0;
  float last = 0.F;
  bool decreased = false;
  utl::progress_tracker t{[&](utl::progress_tracker const& p) {
    std::lock_guard<std::mutex> l{m};
    ++calls;
    float const now = p.out_;
    decreased |= now < last;
    last = now;
  }};
  size_t by[3][2] = {}, sum = 0, max = 0;
  bool fn[3][2] = {};
  for (auto i = 0U; i < n; ++i)
    for (auto j = 0U; j < each; ++j) {
      by[i][j] = monotonic ? sx::choose("value", 4) : 1 + sx::choose("step", 2);
      fn[i][j] = !monotonic && by[i][j] == 1;
      sum += by[i][j];
      max = by[i][j] > max ? by[i][j] : max;
    }
  size_t const high = sx::choose("reached", 2) != 0 ? 2 : 6;
  t.in_high(high);
  calls = 0;
  std::vector<std::thread> ts;
  for (auto i = 0U; i < n; ++i)
    ts.emplace_back([&, i] {
      for (auto j = 0U; j < each; ++j) {
        if (monotonic) { t.update_monotonic(by[i][j]); sx_assert(t.in_ >= by[i][j], "never moves back"); }
        else if (fn[i][j]) t.increment_fn()();
        else t.increment(by[i][j]);
      }
    });
  for (auto& x : ts) x.join();
  auto const want = monotonic ? max : sum;
  sx_assert(t.in_ == want, monotonic ? "the largest value" : "no increment is lost");
  utl::progress_tracker ref{[](utl::progress_tracker const&) {}};
  ref.in_high(high);
  ref.update(want);
  sx_assert(t.out_ == ref.out_, "the progress belongs to the final input");
  sx_assert(last == ref.out_, "and was reported");
  sx_assert(calls >= (ref.out_ != 0.F ? 1U : 0U), "reported");
  if (ref.out_ == 100.F) sx_reach("finished");
  else sx_reach("part of the way");
  sx_reach(monotonic ? "monotonic updates" : "increments");
}

// threads set several settings in one chain each: a chain is applied as a whole
static void chains() {
  auto const n = sx::param("threads", 2);
  std::mutex m;
  unsigned calls = 0;
  bool torn = false, locked = false;
  auto const whole = [](utl::progress_tracker const& p) {
    bool ok = false;
    for (auto i = 0U; i <= 3U; ++i) {
      auto const f = static_cast<float>(i);
      ok |= (p.status_ == (i == 0 ? "" : i == 1 ? "1" : i == 2 ? "2" : "3")) & (p.out_low_ == f) & (p.out_high_ == (i == 0 ? 100.F : 10.F + f)) &
            (p.in_high_ == (i == 0 ? 100U : i)) & (p.show_progress_ == (i == 0));
    }
    return ok;
  };
  utl::progress_tracker t{[&](utl::progress_tracker const& p) {
    bool ok, free = p.mutex_.try_lock();
    if (free) {
      ok = whole(p);
      p.mutex_.unlock();
    } else {
      ok = true;  // another chain is being applied
    }
    std::lock_guard<std::mutex> l{m};
    torn |= !ok;
    locked |= !free;
    ++calls;
  }};
  auto const order = sx::choose("order", 3);
  std::vector<std::thread> ts;
  for (auto i = 1U; i <= n; ++i)
    ts.emplace_back([&, i] {
      auto const f = static_cast<float>(i);
      std::string const s = i == 1 ? "1" : i == 2 ? "2" : "3";
      if (order == 0) t.status(s).show_progress(false).out_bounds(f, 10.F + f).in_high(i);
      else if (order == 1) t.in_high(i).out_bounds(f, 10.F + f).status(s).show_progress(false);
      else t.out_bounds(f, 10.F + f).status(s).in_high(i).show_progress(false);
    });
  for (auto& x : ts) x.join();
  sx_assert(!torn, "a chain is never seen half applied");
  sx_assert(whole(t), "the settings of one chain");
  sx_assert(t.status_ != "", "applied");
  sx_assert(calls == n, "one notification per chain");
  sx_assert(t.out_ == t.out_low_, "restarted at the low bound");
  if (locked) sx_reach("next chain already running");
  else sx_reach("chains");
}

static unsigned count_lines(std::string const& s) {
  unsigned n = 0;
  for (auto const c : s) n += c == '\n' ? 1U : 0U;
  return n;
}
// without moving the cursor up first
template <typename G>
static unsigned print_anew(G& g) {
  if constexpr (requires { g.last_print_height_ = 0; }) {
    auto const lines = static_cast<unsigned>(g.last_print_height_);
    g.last_print_height_ = 0;
    g.print();
    return lines;
  }
  return ~0U;
}
// threads create, activate and change trackers while the bars are shown
static void registry() {
  auto const n = sx::param("threads", 2);
  sx::outbuf b;
  auto const old = std::cout.rdbuf(&b);
  {
    bool const silent = sx::choose("silent", 2) != 0;
    utl::global_progress_bars bars{silent};
    auto& g = utl::get_global_progress_trackers();
    static char const* const names[] = {"a", "b"};
    utl::progress_tracker_ptr got[3];
    unsigned name[3], op[3], how[3];
    for (auto i = 0U; i < n; ++i) {
      name[i] = i == 0 ? 0 : sx::choose("name", 2);
      how[i] = sx::choose("how", 4);
      op[i] = sx::choose("op", 3);
    }
    std::vector<std::thread> ts;
    for (auto i = 0U; i < n; ++i)
      ts.emplace_back([&, i] {
        got[i] = how[i] == 0 ? g.get_tracker(names[name[i]])
               : how[i] == 1 ? utl::activate_progress_tracker(std::string{names[name[i]]})
               : how[i] == 2 ? utl::get_active_progress_tracker_or_activate(names[name[i]])
                             : utl::activate_progress_tracker(g.get_tracker(names[name[i]]));
        switch (op[i]) {
          case 0: got[i]->update_monotonic(50); break;
          case 1: got[i]->status("s"); break;
          default: g.print();
        }
      });
    for (auto& x : ts) x.join();
    utl::progress_tracker_ptr seen[2];
    for (auto i = 0U; i < n; ++i) {
      sx_assert(got[i] != nullptr, "a tracker");
      if (how[i] == 2) continue;
      auto& s = seen[name[i]];
      if (s == nullptr) s = got[i];
      sx_assert(s == got[i], "created once per name");
    }
    sx_assert(seen[0] != seen[1] || seen[0] == nullptr, "one tracker per name");
    for (auto i = 0U; i < 2; ++i) if (seen[i] != nullptr) sx_assert(g.get_tracker(names[i]) == seen[i], "registered");
    bool activated = false, is = false;
    utl::progress_tracker_ptr active;
    for (auto i = 0U; i < n; ++i) activated |= how[i] != 0;
    try { active = utl::get_active_progress_tracker(); } catch (std::runtime_error const&) {}
    for (auto i = 0U; i < n; ++i) is |= how[i] != 0 && got[i] == active;
    sx_assert(activated ? is : active == nullptr, "one of the activated trackers is active");
    for (auto i = 0U; i < n; ++i) {
      if (op[i] == 0) sx_assert(got[i]->out_ == 50.F, "progress applied");
      if (op[i] == 1) sx_assert(got[i]->status_ == "s", "status applied");
    }
    if (silent) {
      sx_assert(b.s_.empty(), "silent");
      sx_reach("silent");
    } else {
      // the last thing shown is the final state
      auto const shown = b.s_;
      sx_assert(!shown.empty(), "something was shown");
      b.s_.clear();
      auto const lines = print_anew(g);
      auto const now = b.s_;
      if (lines == ~0U) {
        sx_reach("shown");
      } else if (count_lines(now) == lines) {  // no tracker was created after the last print
        sx_assert(shown.size() >= now.size() && shown.compare(shown.size() - now.size(), now.size(), now) == 0, "the final state is shown");
        sx_reach("shown");
      } else {
        sx_reach("created after the last print");
      }
    }
  }
  std::cout.rdbuf(old);
}
// one thread forgets all trackers while another one uses them
static void clearing() {
  sx::outbuf b;
  auto const old = std::cout.rdbuf(&b);
  {
    utl::global_progress_bars bars{sx::choose("silent", 2) != 0};
    auto& g = utl::get_global_progress_trackers();
    auto const before = sx::choose("before", 2) != 0;
    utl::progress_tracker_ptr first, got, active;
    if (before) first = utl::activate_progress_tracker(std::string{"a"});
    auto const how = before ? sx::choose("how", 6) : sx::choose("how", 5);
    bool threw = false;
    std::thread t{[&] {
      switch (how) {
        case 0: got = g.get_tracker("a"); got->update(50); break;
        case 1: got = utl::activate_progress_tracker(std::string{"a"}); break;
        case 2: got = utl::get_active_progress_tracker_or_activate("a"); break;
        case 3:
          try { got = utl::get_active_progress_tracker(); } catch (std::runtime_error const&) { threw = true; }
          break;
        case 4: g.print(); break;
        default: got = utl::activate_progress_tracker(first);
      }
    }};
    g.clear();
    t.join();
    if (how < 3) sx_assert(got != nullptr, "a tracker");
    if (how == 3) sx_assert((got != nullptr) != threw && (threw || got == first), "the active tracker or none");
    if (how == 3 && !before) sx_assert(threw, "no active tracker");
    try { active = utl::get_active_progress_tracker(); } catch (std::runtime_error const&) {}
    if (how == 1 || how == 2 || how == 5) sx_assert(active == nullptr || active == got, "active or forgotten");
    else sx_assert(active == nullptr, "forgotten");
    if (how == 0 || how == 1) {
      auto const now = g.get_tracker("a");
      sx_assert(now != first || first == nullptr || got == first, "trackers of before are forgotten");
      if (now == got) sx_reach("created after clearing");
      else sx_reach("created before clearing");
    }
    if (got != nullptr) got->update(100);
    sx_reach("cleared");
  }
  std::cout.rdbuf(old);
}
extern "C" void sx_main() {
  if (sx::param("mode", 0) == 0) updates();
  else if (sx::param("mode", 0) == 2) chains();
  else if (sx::param("mode", 0) == 3) clearing();
  else registry();
}
