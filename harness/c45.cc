// C45: log statements, timers and timing macros.  Messages and clock values
// are symbolic; std::clog is captured.
#include "sx.h"
#include <chrono>
#include <string>
#include <string_view>
#include "sx_io.h"
#include "utl/timing.h"
#include "../src/timer.cc"
#include <iostream>

static time_t g_time;
static long g_clock[4];
static unsigned g_reads;
extern "C" {
time_t SX_ENV(time)(time_t* p) { if (p) *p = g_time; return g_time; }
std::chrono::system_clock::time_point SX_ENV(_ZNSt6chrono3_V212system_clock3nowEv)() {
  return std::chrono::system_clock::time_point{std::chrono::seconds{g_time} + std::chrono::milliseconds{g_time < 0 ? 0 : 700}};
}
// std::chrono::steady_clock::now()
std::chrono::steady_clock::time_point SX_ENV(_ZNSt6chrono3_V212steady_clock3nowEv)() {
  return std::chrono::steady_clock::time_point{std::chrono::nanoseconds{g_clock[g_reads++ % 4]}};
}
}

// text up to and including the next line break; checks the prefix and returns the rest
struct reader {
  std::string_view s;
  // "[level][stamp][file:digits] " -> message
  std::string_view line(char const* level, std::string_view stamp, std::string_view file) {
    auto const eat = [&](std::string_view w) {
      auto const ok = s.size() >= w.size() && s.substr(0, w.size()) == w;
      sx_assert(ok, "line starts with [level][time][file:line] ");
      if (ok) s.remove_prefix(w.size());
      return ok;
    };
    if (!eat("[") || !eat(level) || !eat("][") || !eat(stamp) || !eat("][") || !eat(file) || !eat(":")) return {};
    auto digits = 0U;
    while (!s.empty() && s[0] >= '0' && s[0] <= '9') { s.remove_prefix(1); ++digits; }
    sx_assert(digits != 0, "line number");
    if (!eat("] ")) return {};
    auto const r = s;
    return r;
  }
};

static void logging() {
  auto const max = sx::param("n", 4);
  static char const* const names[] = {"emrg", "alrt", "crit", "erro", "warn", "note", "info", "debg"};
  auto const n = sx::choose("length", max + 1), kind = sx::choose("kind", 6);
  std::string m;
  for (auto i = 0U; i < n; ++i) m += sx::any<char>("byte");
  auto const lvl = sx::choose("level", 8);
  sx::outbuf b;
  auto const old = std::clog.rdbuf(&b);
  g_time = 1318060029;
  std::string rest;
  switch (kind) {
    case 0: uLOG(lvl) << m; rest = m; break;
    case 1: uLOG(lvl) << std::string_view{m} << 42 << ' ' << "end"; rest = m + "42 end"; break;
    case 2: {
      for (auto const c : m) sx_assume(c != 0);
      uLOG(lvl) << m.c_str() << -7L << 18446744073709551615UL;
      rest = m + "-718446744073709551615";
      break;
    }
    case 3: { utl::log() << m; break; }
    case 4: { uLOG(lvl) << m; uLOG(lvl) << "second"; rest = m; break; }
    case 5: { utl::log(); break; }
  }
  std::clog.rdbuf(old);
  std::string_view s = b.s_;
  if (kind == 3 || kind == 5) {
    auto const want = (kind == 3 ? m : std::string{}) + "\n";
    sx_assert(s.size() == want.size(), "the pieces and one line break");
    auto same = s.size() == want.size();
    for (size_t i = 0; i < s.size() && i < want.size(); ++i) same &= s[i] == want[i];
    sx_assert(same, "the pieces and one line break");
    sx_assert(b.flushes_ == 1, "flushed once per line");
    sx_reach("bare log");
    return;
  }
  reader r{s};
  auto const text = r.line(names[lvl], "2011-10-08T07:47:09Z+0000", "c45.cc");
  sx_assert(text.size() >= rest.size() + 1, "message and line break");
  if (text.size() < rest.size() + 1) return;
  auto same = text[rest.size()] == '\n';
  for (size_t i = 0; i < rest.size(); ++i) same &= text[i] == rest[i];
  sx_assert(same, "the message exactly, then one line break");
  if (kind == 4) {
    reader r2{text.substr(rest.size() + 1)};
    sx_assert(r2.line(names[lvl], "2011-10-08T07:47:09Z+0000", "c45.cc") == "second\n", "the second statement is a line of its own");
    sx_assert(b.flushes_ == 2, "flushed once per line");
    sx_reach("two statements");
  } else {
    sx_assert(text.size() == rest.size() + 1, "nothing after the line break");
    sx_assert(b.flushes_ == 1, "flushed once per line");
  }
  for (auto const c : b.s_.substr(0, 4)) sx_observe(static_cast<unsigned char>(c));
  if (n != 0) sx_reach("message logged");
}

static void timers() {
  struct { long us; char const* text; } static const el[] = {{0, "0"}, {1, "0.001"}, {1500, "1.5"}, {999999, "999.999"}, {12345678, "12345.7"}, {60000000, "60000"}};
  auto const max = sx::param("n", 3), n = sx::choose("length", max + 1), kind = sx::choose("kind", 2), e = sx::choose("elapsed", 6), f = sx::choose("elapsed2", 6);
  std::string name, msg;
  for (auto i = 0U; i < n; ++i) name += sx::any<char>("byte");
  for (auto i = 0U; i < n; ++i) msg += sx::any<char>("byte");
  sx::outbuf b;
  auto const old = std::clog.rdbuf(&b);
  g_time = 951868799;  // 2000-02-29T23:59:59
  g_reads = 0;
  g_clock[0] = 1000;
  g_clock[1] = 1000 + el[e].us * 1000 + 999;
  g_clock[2] = 1000 + el[f].us * 1000;
  if (kind == 0) {
    utl::scoped_timer t{name};
    t.print(msg);
  } else {
    utl::manual_timer t{name};
    t.print(msg);
    t.stop_and_print();
  }
  std::clog.rdbuf(old);
  std::string const tag = "[" + name + "] ";
  std::string const want[] = {tag + "starting\n", tag + msg + " (" + el[e].text + "ms)\n", tag + "finished (" + el[f].text + "ms)\n"};
  reader r{b.s_};
  for (auto const& w : want) {
    auto const t = r.line("info", "2000-02-29T23:59:59Z+0000", "timer.cc");
    sx_assert(t.size() >= w.size(), "one line per event");
    if (t.size() < w.size()) return;
    auto same = true;
    for (size_t i = 0; i < w.size(); ++i) same &= t[i] == w[i];
    sx_assert(same, "name, event and elapsed milliseconds");
    r.s = t.substr(w.size());
  }
  sx_assert(r.s.empty(), "no further line");
  sx_assert(b.flushes_ == 3, "flushed once per line");
  sx_reach("timer");
}

static void stamps() {
  struct { time_t t; char const* s; } static const v[] = {
      {0, "1970-01-01T00:00:00Z+0000"}, {-1, "1969-12-31T23:59:59Z+0000"}, {951782400, "2000-02-29T00:00:00Z+0000"}, {1709164800, "2024-02-29T00:00:00Z+0000"},
      {4107542399, "2100-02-28T23:59:59Z+0000"}, {4107542400, "2100-03-01T00:00:00Z+0000"}, {253402300799, "9999-12-31T23:59:59Z+0000"}, {1234567890, "2009-02-13T23:31:30Z+0000"}};
  auto const i = sx::choose("stamp", 8);
  sx_assert(utl::time(v[i].t) == v[i].s, "ISO 8601 in UTC");
  g_time = v[i].t;
  sx_assert(utl::time() == v[i].s, "the current time");
  sx_reach("time stamp");
}

static void macros() {
  // start and rough duration case by case, the low bits of the duration symbolic
  static int64_t const starts[] = {0, 999999, int64_t(1) << 60}, rough[] = {0, 999000000 - 999, 3600000000000 - 30000, int64_t(1) << 58};
  auto const a = starts[sx::choose("start", 3)], d = rough[sx::choose("rough", 4)] + sx::in<int64_t>("elapsed", 0, (int64_t(1) << sx::param("bits", 16)) - 1);
  g_reads = 0;
  g_clock[0] = a;
  g_clock[1] = g_clock[2] = g_clock[3] = a + d;
  UTL_START_TIMING(x);
  UTL_STOP_TIMING(x);
  auto const ms = UTL_TIMING_MS(x), us = UTL_TIMING_US(x);
  auto const gms = UTL_GET_TIMING_MS(x), gus = UTL_GET_TIMING_US(x);
  sx_assert((ms * 1000000 <= d) & (d - ms * 1000000 < 1000000), "whole milliseconds");
  sx_assert((us * 1000 <= d) & (d - us * 1000 < 1000), "whole microseconds");
  sx_assert((gms == ms) & (gus == us), "reading without stopping agrees");
  sx_observe(static_cast<uint64_t>(us));
  sx_reach("timing macros");
}

static void places();
extern "C" void sx_main() {
  switch (sx::param("mode", 0)) {
    case 0: logging(); break;
    case 1: timers(); break;
    case 2: stamps(); break;
    case 3: macros(); break;
    case 4: places(); break;
  }
}

// source file and line of a statement, whatever the path it was compiled from
static void places() {
  g_time = 1318060029;
  sx::outbuf b;
  auto const old = std::clog.rdbuf(&b);
  char const* want = "";
  auto const lvl = sx::choose("level", 8);
  switch (sx::choose("place", 6)) {
    case 0: want = "plain.cc:77] ";
#line 77 "plain.cc"
      uLOG(lvl) << 1; break;
    case 1: want = "deep.cc:4711] ";
#line 4711 "/a/b c/deep.cc"
      uLOG(lvl) << 1; break;
    case 2: want = "noext:1] ";
#line 1 "../noext"
      uLOG(lvl) << 1; break;
    case 3: want = "x.y.cc:123456] ";
#line 123456 "a.b/x.y.cc"
      uLOG(lvl) << 1; break;
    case 4: want = "c:9] ";
#line 9 "//c"
      uLOG(lvl) << 1; break;
    default: want = "with space.h:10] ";
#line 9 "with space.h"
      uLOG(lvl)
          << 1;
  }
  std::clog.rdbuf(old);
  std::string const s = b.s_;
  std::string const stop = "][";
  auto const at = s.find("][2011-10-08T07:47:09Z+0000][");
  sx_assert(at == 5, "level and time");
  if (at != 5) return;
  auto const rest = s.substr(at + 29);
  if (rest.substr(0, 10) == "with space") sx_assert(rest == "with space.h:9] 1\n" || rest == std::string{want} + "1\n", "file and line of the statement");
  else sx_assert(rest == std::string{want} + "1\n", "file and line of the statement");
  sx_reach("places");
}
