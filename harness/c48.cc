// C48: help text and value listing of command-line flags
#include "sx.h"
#include "sx_io.h"
#include "utl/cmd_line_parser.h"
#include <string>

struct opts {
  utl::cmd_line_flag<bool, UTL_SHORT("-v"), UTL_LONG("--verbose"), UTL_DESC("say more")> v_;
  utl::cmd_line_flag<int, UTL_SHORT("-n"), UTL_DESC("number"), utl::required> n_{7};
  utl::cmd_line_flag<std::string, UTL_LONG("--s"), UTL_DESC("")> s_{std::string{"d"}};
  utl::cmd_line_flag<bool, UTL_LONG("--exactly-14-ab"), utl::required, UTL_DESC("a bit")> w_;
  utl::cmd_line_flag<uint64_t, UTL_LONG("--longer-than-14-columns"), UTL_SHORT("-x"), UTL_DESC("big")> x_;
};
struct single {
  utl::cmd_line_flag<unsigned, UTL_SHORT("-r"), utl::required, UTL_DESC("required")> r_;
};
struct two {
  utl::cmd_line_flag<std::string, UTL_SHORT("-a"), UTL_DESC("first")> a_;
  utl::cmd_line_flag<bool, UTL_SHORT("-b"), UTL_DESC("second")> b_;
};
struct row { char const* l; char const* s; bool req; char const* desc; std::string val; };
static std::string text(row const* r, size_t n, bool values) {
  std::string o;
  for (size_t i = 0; i < n; ++i) {
    if (i != 0) o += '\n';
    o += "  ";
    if (r[i].l != nullptr) {
      std::string const l = r[i].l;
      for (auto k = l.size(); k < 14; ++k) o += ' ';
      o += l + " ";
    }
    o += r[i].s != nullptr ? r[i].s : "  ";
    o += r[i].req ? "    * " : "      ";
    o += values ? r[i].val : std::string{r[i].desc};
  }
  return o;
}
static void equal(std::string const& got, std::string const& want, char const* what) {
  sx_assert(got.size() == want.size(), what);
  auto same = got.size() == want.size();
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) same &= got[i] == want[i];
  sx_assert(same, what);
}
static std::string dec(uint64_t u, bool neg = false) {
  std::string s;
  do { s.insert(s.begin(), static_cast<char>('0' + u % 10)); u /= 10; } while (u != 0);
  return neg ? "-" + s : s;
}
static std::string flag(bool b) { return b ? "true" : "false"; }
extern "C" void sx_main() {
  auto const n = sx::choose("length", sx::param("n", 3) + 1);
  std::string s;
  for (unsigned i = 0; i < n; ++i) s += sx::any<char>("byte");
  bool const b1 = sx::fork(sx::any<bool>("b1")), b2 = sx::fork(sx::any<bool>("b2"));
  switch (sx::choose("flags", 3)) {
    case 0: {
      auto const big = sx::choose("big", 3);
      auto const num = sx::in<int16_t>("number", -999, 9999);
      opts o;
      o.v_ = b1; o.n_ = static_cast<int>(num); o.s_ = s; o.w_ = b2;
      o.x_ = big == 0 ? 0 : big == 1 ? 1000000007 : ~uint64_t(0);
      row const r[] = {{"--verbose", "-v", false, "say more", flag(b1)}, {nullptr, "-n", true, "number", dec(static_cast<uint64_t>(num < 0 ? -num : num), num < 0)},
                       {"--s", nullptr, false, "", s}, {"--exactly-14-ab", nullptr, true, "a bit", flag(b2)}, {"--longer-than-14-columns", "-x", false, "big", dec(o.x_.val())}};
      if (n == 0 && b1 && b2) equal(utl::description<opts>(), text(r, 5, false), "one line per flag with its description");
      equal(utl::print_flags(o), text(r, 5, true), "one line per flag with its value");
      sx_reach("five flags");
      break;
    }
    case 1: {
      single o;
      auto const v = sx::any<uint8_t>("value");
      o.r_ = static_cast<unsigned>(v);
      row const r[] = {{nullptr, "-r", true, "required", dec(v)}};
      equal(utl::description<single>(), text(r, 1, false), "a single line");
      equal(utl::print_flags(o), text(r, 1, true), "a single line with its value");
      sx_reach("one flag");
      break;
    }
    default: {
      two o;
      o.a_ = s;
      o.b_ = b1;
      row const r[] = {{nullptr, "-a", false, "first", s}, {nullptr, "-b", false, "second", flag(b1)}};
      equal(utl::description<two>(), text(r, 2, false), "two lines");
      equal(utl::print_flags(o), text(r, 2, true), "two lines with their values");
      sx_reach("two flags");
    }
  }
}
