// C05: bool, string and path parsing, skip_line
#include "sx.h"
#include "utl/parser/arg_parser.h"
#include <filesystem>
#include <stdexcept>
#include <string>
using namespace utl;

static bool ci(char c, char l) { return c == l || c == l - 32; }

extern "C" void sx_main() {
  unsigned const n = sx::param("n", 6);
  auto const mode = sx::choose("mode", 4);
  sx::bytes A(sx::choose("len", n + 1), "a");
  size_t const L = A.size();
  cstr s{A.data(), L};
  if (mode == 0) {
    bool const with_default = sx::choose("with_default", 2);
    bool const d = with_default ? sx::any<bool>("default") : false;
    bool b = sx::any<bool>("garbage");
    bool const st = with_default ? parse_arg(s, b, d) : parse_arg(s, b);
    bool const t = L > 0 && ci(A[0], 't'), f = L > 0 && ci(A[0], 'f');
    bool const is_true = L == 4 && t && ci(A[1], 'r') && ci(A[2], 'u') && ci(A[3], 'e');
    bool const is_false = L == 5 && f && ci(A[1], 'a') && ci(A[2], 'l') && ci(A[3], 's') && ci(A[4], 'e');
    sx_assert(b == (t ? true : f ? false : d), "value by first letter, else default");
    sx_assert(st == (is_true || is_false), "success exactly for true/false");
    size_t const word = t ? 4 : f ? 5 : 0, adv = word < L ? word : L;
    sx_assert(s.str == A.data() + adv && s.len == L - adv, "consumes at most the word");
    cstr s2{A.data(), L};
    bool const p = with_default ? parse<bool>(s2, d) : parse<bool>(s2);
    sx_assert(p == b, "parse() agrees");
    bool threw = false;
    try { sx_assert(parse_verify<bool>(s2) == (t ? true : false), "parse_verify value"); } catch (std::runtime_error const&) { threw = true; }
    sx_assert(threw == !st, "parse_verify throws exactly on failure");
    sx_observe(b); sx_observe(st);
    if (is_true) sx_reach("true");
    if (is_false) sx_reach("false");
  } else if (mode == 1) {
    std::string x = "junk";
    parse_arg(s, x);
    sx_assert(x.size() == L, "string size");
    for (size_t i = 0; i < L; ++i) sx_assert(x[i] == A[i], "string bytes");
    auto y = parse<std::string>(s);
    sx_assert(y == x, "parse<string>");
    cstr c;
    parse_arg(s, c);
    sx_assert(c.str == A.data() && c.len == L, "cstr target is the view");
    cista::raw::generic_string g;
    parse_arg(s, g);
    sx_assert(g.size() == L && (L == 0 || g.data() == A.data()), "generic_string target is the view");
    sx_reach("string");
  } else if (mode == 2) {
    std::filesystem::path p;
    parse_arg(s, p);
    auto const& str = p.native();
    sx_assert(str.size() == L, "path size");
    for (size_t i = 0; i < L; ++i) sx_assert(str[i] == A[i], "path bytes");
    sx_reach("path");
  } else {
    size_t at = 0;
    while (at < L && A[at] != '\n') ++at;
    size_t const from = at < L ? at + 1 : L;
    skip_line(s);
    sx_assert(s.len == L - from && s.str == A.data() + from, "skip_line stops right after the first newline");
    sx_observe(s.len);
    cstr q{A.data(), L};
    if (L > 0 && A[0] == ';') {
      q >> expect_char<';'>{};
      sx_assert(q.str == A.data() + 1 && q.len == L - 1, "expected character consumed");
      sx_reach("expect_char");
    }
    if (L == 0) { q >> expect_char<';'>{}; sx_assert(q.len == 0, "nothing to consume"); }
    sx_reach("skip_line");
  }
}
