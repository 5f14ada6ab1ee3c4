// C42: printable enums
#include "sx.h"
#include <cstring>
#include <string>
#include "sx_io.h"
#include "utl/printable_enum.h"
#include <ostream>

PRINTABLE_ENUM(one, A)
PRINTABLE_ENUM(two, A, LONG_NAME_WITH_DIGITS_0123456789)
PRINTABLE_ENUM(tight, a,bb,ccc,a_,_b,c9)
PRINTABLE_ENUM(wide, FIRST ,  SECOND   ,
               THIRD, F,
               FI)
PRINTABLE_ENUM(prefix, X, XX, XXX, X_X, XX_, x, xx)
namespace ns {
PRINTABLE_ENUM(in_namespace, ENUM_A, ENUM_B, ENUM_C, ENUM_D, ENUM_E, ENUM_F, ENUM_G, ENUM_H, ENUM_I, ENUM_J, ENUM_K, ENUM_L)
}
// more enumerators than a byte can count
#define TEN(x) x##0, x##1, x##2, x##3, x##4, x##5, x##6, x##7, x##8, x##9
#define MANY(E, ...) PRINTABLE_ENUM(E, __VA_ARGS__)
MANY(many, TEN(a), TEN(b), TEN(c), TEN(d), TEN(e), TEN(f), TEN(g), TEN(h), TEN(i), TEN(j), TEN(k), TEN(l), TEN(m), TEN(n), TEN(o), TEN(p), TEN(q), TEN(r), TEN(s), TEN(t), TEN(u), TEN(v), TEN(w), TEN(x), TEN(y), TEN(z), TEN(A))
static void check_many() {
  auto const i = sx::in<uint16_t>("enumerator", 0, 269);
  auto const s = as_string(static_cast<many>(i));
  sx_assert(s.size() == 2, "exactly the declared name (length)");
  sx_assert(static_cast<unsigned char>(s[0]) == (i < 260 ? 'a' + i / 10 : 'A'), "exactly the declared name");
  sx_assert(static_cast<unsigned char>(s[1]) == '0' + i % 10, "exactly the declared name");
  sx_reach("many");
}

template <typename E, size_t N>
static void check(char const* const (&names)[N]) {
  auto const i = sx::in<uint8_t>("enumerator", 0, N - 1);
  auto const s = as_string(static_cast<E>(i));
  size_t len = 0;
  for (size_t k = 0; k < N; ++k) if (i == k) len = std::strlen(names[k]);
  sx_assert(s.size() == len, "exactly the declared name (length)");
  for (size_t k = 0; k < N; ++k)
    if (i == k) sx_assert(s == names[k], "exactly the declared name");
  sx::outbuf b;
  std::ostream o{&b};
  auto& r = o << static_cast<E>(i);
  sx_assert(&r == &o && b.s_ == s, "streams the same name");
  o << "," << static_cast<E>(i);
  sx_assert(b.s_ == s + "," + s, "and can be chained");
  sx_observe(s.size());
  sx_reach("named");
}
extern "C" void sx_main() {
  switch (sx::choose("enum", 7)) {
    case 0: check<one>({"A"}); break;
    case 1: check<two>({"A", "LONG_NAME_WITH_DIGITS_0123456789"}); break;
    case 2: check<tight>({"a", "bb", "ccc", "a_", "_b", "c9"}); break;
    case 3: check<wide>({"FIRST", "SECOND", "THIRD", "F", "FI"}); break;
    case 4: check<prefix>({"X", "XX", "XXX", "X_X", "XX_", "x", "xx"}); break;
    case 5: check_many(); break;
    default: check<ns::in_namespace>({"ENUM_A", "ENUM_B", "ENUM_C", "ENUM_D", "ENUM_E", "ENUM_F", "ENUM_G", "ENUM_H", "ENUM_I", "ENUM_J", "ENUM_K", "ENUM_L"});
  }
}
