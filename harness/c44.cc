// C44: STRING_LITERAL arrays in the compiled program equal the literals; the
// literal and the position are symbolic, so every byte of every array is
// decided.
#include "sx.h"
#include <cstring>
#include <string_view>
#include <type_traits>
#include "utl/const_str.h"

#define L30 "abcdefghijklmnopqrstuvwxyz0123"
template <char const* S>
struct named { static constexpr char const* name() { return S; } };

struct entry { char const* lit; size_t n; char const* got; char const* tag; };
#define E(s) entry{s, sizeof(s) - 1, STRING_LITERAL(s), named<STRING_LITERAL(s)>::name()}
static entry const lits[] = {
    E(""), E("a"), E("ab"), E("abc"), E("abcd"), E("abcde"), E("abcdef"), E("abcdefg"), E("abcdefgh"), E("abcdefghi"), E("abcdefghij"), E("abcdefghijk"), E("abcdefghijkl"),
    E("abcdefghijklm"), E("abcdefghijklmn"), E("abcdefghijklmno"), E("abcdefghijklmnop"), E("abcdefghijklmnopq"), E("abcdefghijklmnopqr"), E("abcdefghijklmnopqrs"),
    E("abcdefghijklmnopqrst"), E("abcdefghijklmnopqrstu"), E("abcdefghijklmnopqrstuv"), E("abcdefghijklmnopqrstuvw"), E("abcdefghijklmnopqrstuvwx"), E("abcdefghijklmnopqrstuvwxy"),
    E("abcdefghijklmnopqrstuvwxyz"), E("abcdefghijklmnopqrstuvwxyz0"), E("abcdefghijklmnopqrstuvwxyz01"), E("abcdefghijklmnopqrstuvwxyz012"), E(L30),
    // bytes that are not letters
    E(" "), E("\xff"), E("\x80\x7f\x01"), E("caf\xc3\xa9 \t\"quoted\" \\ back"), E("--long-flag"), E("stop_id,stop_name;\r\n"), E("000000000000000000000000000000")};

extern "C" void sx_main() {
  constexpr size_t n = sizeof lits / sizeof *lits;
  auto const i = sx::choose("literal", n);
  auto const& e = lits[i];
  auto const at = sx::in<uint8_t>("position", 0, static_cast<uint8_t>(e.n));
  sx_assert(e.got[at] == e.lit[at], "the characters of the literal and a terminating zero");
  sx_assert(e.tag[at] == e.lit[at], "also as a template argument");
  sx_assert(std::strlen(e.got) == e.n && std::string_view{e.got} == e.lit, "the whole literal");
  auto const j = sx::choose("other", n);
  sx_assert((e.got == lits[j].got) == (i == j), "different literals are different names");
  sx_observe(static_cast<unsigned char>(e.got[at]));
  if (e.n == 30) sx_reach("thirty characters");
  if (e.n == 0) sx_reach("empty");
}
