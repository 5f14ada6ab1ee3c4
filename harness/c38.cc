// C38: verification helpers
#include "sx.h"
#include "sx_io.h"
#include <chrono>
#include <iostream>
#include <string>
#include <cstring>
#include "utl/verify.h"
#include <exception>
#include <stdexcept>

struct my_error : std::runtime_error {
  my_error(int v, char const* m) : std::runtime_error{m}, v_{v} {}
  int v_;
};
struct plain_error { char const* what() const { return "plain"; } int v_; };

// the clock behind the time stamps
static long now_s;
static char const* stamp;
extern "C" std::chrono::system_clock::time_point SX_ENV(_ZNSt6chrono3_V212system_clock3nowEv)() {
  return std::chrono::system_clock::time_point{std::chrono::seconds{now_s}};
}
template <typename F>
static void expect(bool const throws, char const* what, F&& f, bool const silent = false) {
  bool threw = false;
  sx::outbuf log;
  auto const old = std::clog.rdbuf(&log);
  try {
    f();
    std::clog.rdbuf(old);
  } catch (std::runtime_error const& e) {
    std::clog.rdbuf(old);
    threw = true;
    sx_assert(std::strcmp(e.what(), what) == 0, "the error carries the formatted message");
    sx_observe(std::strlen(e.what()));
  }
  if (!throws || silent) {
    sx_assert(log.s_.empty(), "nothing is logged");
  } else {
    auto const line = std::string{stamp} + " [VERIFY FAIL] " + std::string{what} + "\n";
    auto const n = log.s_.size(), m = line.size();
    sx_assert(n == m, "the message is logged");
    auto same = n == m;
    for (size_t i = 0; i < n && i < m; ++i) same &= log.s_[i] == line[i];
    sx_assert(same, "one log line with UTC time and the message");
  }
  sx_assert(threw == throws, "throws exactly when the condition is false");
  sx_reach(throws ? "threw" : "passed");
}
extern "C" void sx_main() {
  struct { long t; char const* s; } static const times[] = {{0, "1970-01-01T00:00:00Z"}, {951868799, "2000-02-29T23:59:59Z"}, {1318060029, "2011-10-08T07:47:09Z"}, {4102444800, "2100-01-01T00:00:00Z"}};
  auto const& now = times[sx::choose("now", 4)];
  now_s = now.t;
  stamp = now.s;
  auto const x = sx::any<int>("x"), y = sx::any<int>("y");
  auto const d = sx::in<int>("d", -9, 99);
  bool const ok = x < y;
  std::string const text = std::to_string(d);
  switch (sx::choose("form", 10)) {
    case 0: expect(!ok, "plain", [&] { utl::verify(x < y, "plain"); }); break;
    case 1: expect(!ok, ("v=" + text + " s=abc").c_str(), [&] { utl::verify(x < y, "v={} s={}", d, std::string{"abc"}); }); break;
    case 2: expect(!ok, "quiet", [&] { utl::verify_silent(x < y, "quiet"); }, true); break;
    case 3: expect(!ok, ("q " + text).c_str(), [&] { utl::verify_silent(x < y, "q {}", d); }, true); break;
    case 4: {
      int n = 0;
      expect(!ok, ("m " + text + "!").c_str(), [&] { utl_verify((++n, x < y), "m {}!", d); });
      sx_assert(n == 1, "condition evaluated exactly once");
      break;
    }
    case 5: {
      bool threw = false;
      try {
        utl::verify_ex(x < y, my_error{d, "mine"});
      } catch (my_error const& e) {
        threw = true;
        sx_assert(e.v_ == d && std::strcmp(e.what(), "mine") == 0, "the exception passed in");
      }
      sx_assert(threw == !ok, "exception form: throws exactly when false");
      break;
    }
    case 6: {
      my_error const mine{d, "lvalue"};
      bool threw = false;
      try {
        utl::verify_ex(x < y, mine);
      } catch (my_error const& e) {
        threw = true;
        sx_assert(e.v_ == d && std::strcmp(e.what(), "lvalue") == 0, "the exception passed in");
      }
      sx_assert(threw == !ok, "exception form (lvalue): throws exactly when false");
      sx_assert(mine.v_ == d, "the caller's object is unchanged");
      break;
    }
    case 7: {
      plain_error p{d};
      bool threw = false;
      try {
        utl::verify_ex(x < y, p);
      } catch (plain_error const& e) {
        threw = true;
        sx_assert(e.v_ == d, "a type that is no std::exception");
      }
      sx_assert(threw == !ok, "exception form (plain type)");
      break;
    }
    case 8: {  // conditions whose operators bind weaker than the macro's negation
      bool const z = (d & 1) != 0;
      expect(!(ok || z), "or", [&] { utl_verify(x < y || z, "{}", "or"); });
      expect(!(ok && z), "and", [&] { utl_verify(z && x < y, "{}", "and"); });
      expect(x != y, "eq", [&] { utl_verify(x == y, "{}", "eq"); });
      expect(!(x & 2), "bit", [&] { utl_verify(x & 2, "{}", "bit"); });
      expect(!(z ? ok : x == d), "sel", [&] { utl_verify(z ? x < y : x == d, "{}", "sel"); });
      sx_reach("weakly binding operators");
      break;
    }
    default: {  // a failed check leaves nothing behind, later checks work
      int thrown = 0;
      for (int i = 0; i < 3; ++i) {
        try {
          utl::verify(x < y / 2 + i, "round {}", i);
        } catch (std::runtime_error const&) { ++thrown; }
      }
      int e = 0;
      for (int i = 0; i < 3; ++i) e += x < y / 2 + i ? 0 : 1;
      sx_assert(thrown == e, "independent of each other");
      break;
    }
  }
}
