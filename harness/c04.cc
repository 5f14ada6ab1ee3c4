// C04: integer parsing
#include "sx.h"
#include "utl/parser/arg_parser.h"
#include <limits>
#include <stdexcept>
using namespace utl;
using u128 = unsigned __int128;

template <typename T>
static void check(sx::bytes& A, bool with_default, bool verify) {
  size_t const L = A.size();
  // reference: [-] (signed) [+] digits
  size_t p = 0;
  bool neg = false;
  if (std::is_signed_v<T> && p < L && sx::fork(A[p] == '-')) { neg = true; ++p; }
  if (p < L && sx::fork(A[p] == '+')) ++p;
  u128 v = 0;
  size_t const first = p;
  while (p < L && sx::fork(A[p] >= '0' && A[p] <= '9')) { v = v * 10U + static_cast<u128>(A[p] - '0'); ++p; }
  bool const digits = p != first;
  bool const ok = digits && p == L;
  u128 const lim = neg ? static_cast<u128>(std::numeric_limits<T>::max()) + 1U : static_cast<u128>(std::numeric_limits<T>::max());
  u128 const want128 = neg ? u128{0} - v : v;
  T const want = static_cast<T>(want128);

  cstr s{A.data(), L};
  if (verify) {
    bool threw = false;
    T r{};
    try {
      r = parse_verify<T>(s);
    } catch (std::runtime_error const&) {
      threw = true;
    }
    sx_assert(threw == !ok, "parse_verify throws exactly on failure");
    if (!threw) sx_assert(r == want || v > lim, "parse_verify value");
    sx_assert(s.str == A.data() && s.len == L, "by-value parse leaves the view alone");
    sx_reach("verify");
    return;
  }
  T const dflt = with_default ? sx::any<T>("default") : T{0};
  T r = sx::any<T>("garbage");
  bool const st = with_default ? parse_arg(s, r, dflt) : parse_arg(s, r);
  sx_assert(st == ok, "success exactly if digits were read and nothing is left");
  sx_assert(s.str == A.data() + p && s.len == L - p, "rest is untouched");
  if (digits) sx_assert(r == want || v > lim, "decimal value");
  else sx_assert(r == dflt, "default without digits");
  cstr s2{A.data(), L};
  T const r2 = with_default ? parse<T>(s2, dflt) : parse<T>(s2);
  sx_assert(r2 == r, "parse() agrees with parse_arg");
  cstr s3{A.data(), L};
  T r3 = 0;
  s3 >> r3;
  sx_assert(with_default || r3 == r, "operator>> agrees");
  sx_assert(s3.str == s.str && s3.len == s.len, "operator>> consumes the same");
  sx_observe(st);
  if (digits) { if (p - first <= 2) sx_observe(static_cast<uint64_t>(r)); sx_reach("value"); }
  if (!digits) sx_reach("no digits");
}

static void go(unsigned ty, sx::bytes& A, bool d, bool v) {
  switch (ty) {
    case 0: check<int>(A, d, v); break;
    case 1: check<unsigned>(A, d, v); break;
    case 2: check<long>(A, d, v); break;
    case 3: check<unsigned long>(A, d, v); break;
    case 4: check<short>(A, d, v); break;
    case 5: check<unsigned short>(A, d, v); break;
    case 6: check<signed char>(A, d, v); break;
    case 7: check<unsigned char>(A, d, v); break;
    case 8: check<char>(A, d, v); break;
    case 9: check<long long>(A, d, v); break;
  }
}

extern "C" void sx_main() {
  unsigned const n = sx::param("n", 4), lo = sx::param("lo", 0);
  auto const ty = sx::choose("type", 10);
  auto const how = sx::choose("how", 3);
  bool const d = how == 1, v = how == 2;
  if (lo != 0) {  // around the limits of the type: the last `lo` digits and the sign are free
    static char const* const lim[] = {"2147483648", "4294967295", "9223372036854775808", "18446744073709551615", "32768", "65535", "128", "255", "128", "9223372036854775808"};
    char const* t = lim[ty];
    size_t const m = std::strlen(t);
    bool const sign = sx::choose("sign", 2);
    sx::bytes A(sign + m, "a");
    for (size_t i = 0; i + lo < m; ++i) A[sign + i] = t[i];
    for (size_t i = m > lo ? m - lo : 0; i < m; ++i) sx_assume(A[sign + i] >= '0' && A[sign + i] <= '9');
    go(ty, A, d, v);
    return;
  }
  sx::bytes A(sx::choose("len", n + 1), "a");
  go(ty, A, d, v);
}
