// C31: command-line flags
#include "sx.h"
#include "utl/cmd_line_parser.h"
#include <cstring>
#include <stdexcept>
#include <string>

struct opts {
  utl::cmd_line_flag<bool, UTL_SHORT("-v"), UTL_LONG("--v"), UTL_DESC("verbose")> v_;
  utl::cmd_line_flag<int, UTL_SHORT("-n"), UTL_LONG("--n")> n_{7};
  utl::cmd_line_flag<std::string, UTL_LONG("--s")> s_{std::string{"d"}};
};
struct req {
  utl::cmd_line_flag<bool, UTL_LONG("--b")> b_;
  utl::cmd_line_flag<unsigned, UTL_SHORT("-r"), utl::required> r_;
  utl::cmd_line_flag<bool, UTL_SHORT("-q"), UTL_LONG("--q"), utl::required> q_;
};
struct req2 {  // same flags, declared in another order
  utl::cmd_line_flag<bool, UTL_SHORT("-q"), UTL_LONG("--q"), utl::required> q_;
  utl::cmd_line_flag<unsigned, UTL_SHORT("-r"), utl::required> r_;
  utl::cmd_line_flag<bool, UTL_LONG("--b")> b_;
};
struct req3 {
  utl::cmd_line_flag<int, UTL_LONG("--n"), UTL_SHORT("-n"), utl::required> n_;
  utl::cmd_line_flag<std::string, UTL_LONG("--s"), utl::required> s_;
};
static int argc;
static char const** argv;  // exactly argc entries, as in the unit test: no terminating null pointer
static size_t lens[8];
static bool is(int i, char const* name) {
  if (!name) return false;
  auto const n = strlen(name);
  if (lens[i] != n) return false;
  bool eq = true;
  for (size_t k = 0; k < n; ++k) eq = eq && argv[i][k] == name[k];
  return eq;
}
static bool present(char const* s, char const* l) {
  for (int i = 0; i < argc; ++i) if (is(i, s) || is(i, l)) return true;
  return false;
}
// last occurrence with a value (an empty argument is none); -1 if there is none
static int value_at(char const* s, char const* l, bool& last_has_value) {
  int r = -1;
  last_has_value = false;
  for (int i = 0; i < argc; ++i)
    if (is(i, s) || is(i, l)) {
      last_has_value = i + 1 < argc && lens[i + 1] != 0;
      if (last_has_value) r = i + 1;
    }
  return r;
}
static long decimal(int i, bool neg_ok) {  // 0 without digits
  size_t k = 0;
  bool neg = false;
  if (neg_ok && k < lens[i] && argv[i][k] == '-') { neg = true; ++k; }
  if (k < lens[i] && argv[i][k] == '+') ++k;
  long v = 0;
  for (; k < lens[i] && argv[i][k] >= '0' && argv[i][k] <= '9'; ++k) v = v * 10 + (argv[i][k] - '0');
  return neg ? -v : v;
}
static void plain() {
  auto const o = utl::parse_flags<opts>(argc, argv);
  bool last;
  sx_assert(o.v_.val() == present("-v", "--v"), "boolean flag by presence");
  auto const n = value_at("-n", "--n", last);
  sx_assert(o.n_.val() == (n < 0 ? 7 : decimal(n, true)), "value after the last occurrence, else the default");
  sx_assert(*o.n_ == o.n_.val(), "access forms");
  auto const s = value_at(nullptr, "--s", last);
  if (s < 0) {
    sx_assert(o.s_.val() == "d", "default kept");
  } else {
    sx_assert(o.s_.val().size() == lens[s] && memcmp(o.s_.val().data(), argv[s], lens[s]) == 0, "string value");
    sx_reach("string");
  }
  if (n >= 0) sx_reach("number");
  if (o.v_.val()) sx_reach("bool");
  sx_observe(static_cast<unsigned>(o.n_.val()));
}
template <typename T>
static void required() {
  bool last;
  auto const r = value_at("-r", nullptr, last);
  bool const r_ok = last, q_ok = present("-q", "--q");
  try {
    auto const o = utl::parse_flags<T>(argc, argv);
    sx_assert(r_ok && q_ok, "a missing required flag is rejected");
    sx_assert(o.q_.val(), "required flag");
    sx_assert(o.b_.val() == present("--b", nullptr), "optional flag");
    sx_assert(o.r_.val() == static_cast<unsigned>(decimal(r, false)), "required value");
    sx_reach("required given");
  } catch (std::runtime_error const& e) {
    sx_assert(!r_ok || !q_ok, "exception only if a required flag is missing");
    bool const names_r = strcmp(e.what(), "-r") == 0, names_q = strcmp(e.what(), "--q") == 0;
    sx_assert((names_r && !r_ok) || (names_q && !q_ok), "exception names a missing flag");
    sx_reach("required missing");
  }
}
static void both() {
  bool n_ok, s_ok;
  auto const n = value_at("-n", "--n", n_ok), s = value_at(nullptr, "--s", s_ok);
  try {
    auto const o = utl::parse_flags<req3>(argc, argv);
    sx_assert(n_ok & s_ok, "a missing required flag is rejected");
    sx_assert(o.n_.val() == decimal(n, true), "required value");
    sx_assert(o.s_.val().size() == lens[s] && memcmp(o.s_.val().data(), argv[s], lens[s]) == 0, "required string");
    sx_reach("both required given");
  } catch (std::runtime_error const& e) {
    sx_assert(!n_ok | !s_ok, "exception only if a required flag is missing");
    bool const names_n = strcmp(e.what(), "--n") == 0, names_s = strcmp(e.what(), "--s") == 0;
    sx_assert((names_n & !n_ok) | (names_s & !s_ok), "exception names a missing flag");
    if (n >= 0 && !n_ok) sx_reach("last occurrence without a value");
  }
}
extern "C" void sx_main() {
  argc = static_cast<int>(sx::choose("argc", sx::param("args", 3) + 1));
  unsigned const max = sx::param("len", 3);
  auto const mode = sx::choose("mode", 4);
  char* keep[8];
  argv = new char const*[static_cast<size_t>(argc)];
  for (int i = 0; i < argc; ++i) {
    lens[i] = sx::choose("len", max + 1);
    auto p = new char[lens[i] + 1];
    if (lens[i]) sx_sym(p, lens[i], "arg");
    p[lens[i]] = 0;
    for (size_t k = 0; k < lens[i]; ++k) sx_assume(p[k] != 0);
    argv[i] = keep[i] = p;
  }
  switch (mode) {
    case 0: plain(); break;
    case 1: required<req>(); break;
    case 3: both(); break;
    default: required<req2>();
  }
  for (int i = 0; i < argc; ++i) delete[] keep[i];
  delete[] argv;
}
