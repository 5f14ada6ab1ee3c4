// C46: rendering of the progress bars and the scope that switches them on
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include "sx.h"
#include "sx_io.h"
#include "../src/progress_tracker.cc"
#include <iostream>
#include <string>
#include <vector>

struct bar { std::string name, status; bool show{true}; float out{0}; };
struct screen {
  std::vector<bar> bars;  // in order of name
  size_t height{0};
  std::string render() {
    std::string o;
    if (height != 0) {
      o += "\x1b[";
      if (height >= 100) o += static_cast<char>('0' + height / 100);
      if (height >= 10) o += static_cast<char>('0' + height / 10 % 10);
      o += static_cast<char>('0' + height % 10);
      o += 'A';
    }
    for (auto const& b : bars) {
      o += "\x1b[K";
      for (auto i = b.name.size(); i < 12; ++i) o += ' ';
      o += b.name;
      if (b.show) {
        o += ": [";
        for (int i = 0; i < 55; ++i) o += (i * 100 / 55 <= b.out) ? "\xe2\x96\xa0" : " ";
        o += " ] ";
        auto p = static_cast<int>(b.out);
        std::string d;
        bool const neg = p < 0;
        if (neg) p = -p;
        do { d.insert(d.begin(), static_cast<char>('0' + p % 10)); p /= 10; } while (p != 0);
        if (neg) d.insert(d.begin(), '-');
        for (auto i = d.size(); i < 3; ++i) o += ' ';
        o += d + "%";
        if (!b.status.empty()) o += " | " + b.status;
      } else {
        o += ": " + b.status;
      }
      o += '\n';
    }
    height = bars.size();
    return o;
  }
};
static sx::outbuf* g_out;
static void expect(screen& s, char const* what) {
  auto const want = s.render();
  auto const& got = g_out->s_;
  sx_assert(got.size() == want.size(), what);
  auto same = got.size() == want.size();
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) same &= got[i] == want[i];
  sx_assert(same, what);
  sx_assert(g_out->flushes_ == 1, "flushed once");
  g_out->s_.clear();
  g_out->flushes_ = 0;
}
static void nothing(char const* what) {
  sx_assert(g_out->s_.empty(), what);
  g_out->s_.clear();
  g_out->flushes_ = 0;
}
static std::string name(unsigned i) { return i == 0 ? "twelve chars" : i == 1 ? "a" : i == 2 ? "much longer than twelve chars" : ""; }

// one tracker, every reported progress and status
static void values() {
  utl::global_progress_bars bars;
  auto& g = utl::get_global_progress_trackers();
  bool const number = sx::choose("what", 2) == 0;
  auto const i = sx::choose("name", number ? 1 : 4);
  auto t = utl::activate_progress_tracker(name(i));
  screen s;
  s.bars.push_back({name(i), "", true, 0.F});
  auto& b = s.bars[0];
  g.print();
  expect(s, "first print");
  if (number) {
    // what the updates can report (C36)
    auto const out = sx::any<float>("progress");
    sx_assume((out >= -99.F) & (out <= 1200.F));
    t->out_ = out;
    b.out = out;
    g.print();
    expect(s, "name, bar and percentage");
    if (out > 50.F) sx_reach("more than half");
    if (out < 10.F) sx_reach("little");
  } else {
    auto const n = sx::choose("length", sx::param("n", 3) + 1);
    for (unsigned k = 0; k < n; ++k) b.status += sx::any<char>("status");
    b.show = sx::choose("show", 2) != 0;
    t->status(b.status).show_progress(b.show);
    if (n != 0 || !b.show) expect(s, "name, bar and status");
    else nothing("nothing changed");
    sx_reach("status");
  }
}

// many trackers at once
static void many() {
  utl::global_progress_bars bars;
  auto& g = utl::get_global_progress_trackers();
  screen s;
  auto const n = sx::param("big", 0) ? static_cast<unsigned>(sx::param("big", 0)) : 8 + sx::choose("trackers", sx::param("n", 5));
  for (unsigned i = 0; i < n; ++i) {
    std::string x(1, static_cast<char>('z' - i % 20));
    x.insert(0, i / 20, 'a');
    g.get_tracker(x);
    s.bars.push_back(bar{x, "", true, 0.F});
  }
  std::reverse(s.bars.begin(), s.bars.end());
  g.print();
  expect(s, "one line each");
  g.get_tracker("new");
  size_t at = 0;
  while (at < s.bars.size() && s.bars[at].name < "new") ++at;
  s.bars.insert(s.bars.begin() + static_cast<long>(at), bar{"new", "", true, 0.F});
  g.print();
  expect(s, "up by the lines of the last print, one more line");
  g.print();
  expect(s, "up by all lines");
  sx_reach("many");
}

// several trackers, changes and scopes
static void histories() {
  auto& g = utl::get_global_progress_trackers();
  screen s;
  bool silent = true;
  struct scope { std::unique_ptr<utl::global_progress_bars> p; bool old; };
  std::vector<scope> scopes;
  std::vector<std::pair<std::string, utl::progress_tracker_ptr>> forgotten;
  std::map<std::string, utl::progress_tracker_ptr> known;
  auto check = [&](bool printed, char const* what) {
    if (printed && !silent) { expect(s, what); sx_reach("printed"); }
    else { nothing("nothing to print"); sx_reach("not printed"); }
  };
  auto forget = [&] {
    for (auto const& k : known) forgotten.push_back(k);
    known.clear();
    s.bars.clear();
    s.height = 0;
  };
  auto const ops = sx::param("ops", 3);
  auto const first = sx::choose("first", 3);  // no scope, silent scope, printing scope
  if (first != 0) {
    scopes.push_back({std::make_unique<utl::global_progress_bars>(first == 1), silent});
    silent = first == 1;
    check(false, "");
  }
  for (unsigned k = 0; k < ops; ++k) {
    switch (sx::choose("op", 6)) {
      case 0: {  // a tracker, new or not, and a change of it
        auto const n = name(sx::choose("name", sx::param("names", 2)));
        auto t = sx::choose("how", 2) == 0 ? g.get_tracker(n) : utl::activate_progress_tracker(n);
        auto const it = known.find(n);
        if (it == known.end()) {
          known.emplace(n, t);
          size_t at = 0;
          while (at < s.bars.size() && s.bars[at].name < n) ++at;
          s.bars.insert(s.bars.begin() + static_cast<long>(at), bar{n, "", true, 0.F});
        } else {
          sx_assert(t == it->second, "the same tracker");
        }
        check(false, "");
        bar* b = nullptr;
        for (auto& x : s.bars) if (x.name == n) b = &x;
        switch (sx::choose("change", 3)) {
          case 0: {
            float const v = sx::choose("progress", 2) == 0 ? 37.F : 100.F;
            bool const changed = b->out != v;
            b->out = v;
            t->update(static_cast<size_t>(v));
            check(changed, "printed when the progress changed");
            break;
          }
          case 1: {
            bool const changed = b->status != "status";
            b->status = "status";
            t->status("status");
            check(changed, "printed when the status changed");
            break;
          }
          default:
            b->show = !b->show;
            t->show_progress(b->show);
            check(true, "printed when the display changed");
        }
        break;
      }
      case 1: g.print(); check(true, "printed on request"); break;
      case 2: g.clear(); forget(); check(false, ""); break;
      case 3: {
        bool const q = sx::choose("silent", 2) != 0;
        scopes.push_back({std::make_unique<utl::global_progress_bars>(q), silent});
        silent = q;
        check(false, "");
        break;
      }
      case 4:
        if (scopes.empty()) { sx_assume(false); }
        scopes.back().p.reset();
        silent = scopes.back().old;
        scopes.pop_back();
        forget();
        check(false, "");
        sx_reach("scope left");
        break;
      default: {
        if (forgotten.empty()) { sx_assume(false); }
        auto t = forgotten.back().second;
        forgotten.pop_back();
        float const was = t->out_;
        t->update(1);
        check(was != 1.F, "a forgotten tracker has no line but still redraws");
      }
    }
  }
  while (!scopes.empty()) {
    scopes.back().p.reset();
    silent = scopes.back().old;
    scopes.pop_back();
    forget();
  }
  nothing("leaving a scope prints nothing");
  g.print();
  nothing("silent again");
}

extern "C" void sx_main() {
  sx::outbuf b;
  g_out = &b;
  auto const old = std::cout.rdbuf(&b);
  auto const mode = sx::param("mode", 0);
  if (mode == 0) values();
  else if (mode == 2) many();
  else histories();
  std::cout.rdbuf(old);
}
