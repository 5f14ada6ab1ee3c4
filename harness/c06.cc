// C06: floating point parsing
#include "sx.h"
#include "utl/parser/arg_parser.h"
using namespace utl;

// shape and consumption: every byte string
template <typename T>
static void shape(sx::bytes& A) {
  size_t const L = A.size();
  size_t p = 0;
  bool digits = false, point = false;
  bool const neg = p < L && sx::fork(A[p] == '-');
  if (neg) ++p;
  if (p < L && sx::fork(A[p] == '+')) ++p;
  while (p < L && sx::fork(A[p] >= '0' && A[p] <= '9')) { ++p; digits = true; }
  if (p < L && sx::fork(A[p] == '.')) {
    ++p;
    point = true;
    while (p < L && sx::fork(A[p] >= '0' && A[p] <= '9')) { ++p; digits = true; }
  }
  bool const ok = digits && p == L;
  T r = T{77};
  cstr s{A.data(), L};
  bool const st = parse_arg(s, r);
  sx_assert(st == ok, "success exactly for [-]digits[.digits]");
  sx_assert(s.str == A.data() + p && s.len == L - p, "input is left at the first byte that does not belong to the number");
  if (!digits) sx_assert(r == T{0}, "no digits: zero");
  cstr s2{A.data(), L};
  T r2 = T{3};
  sx_assert(parse_fp(s2, r2) == st && s2.str == s.str && s2.len == s.len, "parse_fp agrees");
  sx_observe(st);
  if (ok && point) sx_reach("fraction");
  if (ok && !point) sx_reach("integer");
  if (ok && neg) sx_reach("negative");
  if (!ok) sx_reach("failure");
}

// value: `ip` integer digits and `fp` fraction digits, all digit values
template <typename T>
static void value(unsigned ip, unsigned fp, bool neg) {
  sx::bytes A(neg + ip + (fp ? fp + 1 : 0), "a");
  size_t p = 0;
  if (neg) A[p++] = '-';
  long N = 0;
  T scale = 1;
  for (unsigned i = 0; i < ip; ++i, ++p) { sx_assume(A[p] >= '0' && A[p] <= '9'); N = N * 10 + static_cast<long>(A[p] - '0'); }
  if (fp) A[p++] = '.';
  for (unsigned i = 0; i < fp; ++i, ++p) { sx_assume(A[p] >= '0' && A[p] <= '9'); N = N * 10 + static_cast<long>(A[p] - '0'); scale *= 10; }
  cstr s{A.data(), A.size()};
  T const r = parse<T>(s);
  if (fp == 0) {
    T const n = static_cast<T>(N);
    sx_assert(r == (neg ? -n : n), "integers are exact");
    if (N > 0) sx_assert((r < 0) == neg, "sign");
  } else {
    // |r * 10^fp - N| within a few units in the last place of the largest value of this shape
    T top = 1;
    for (unsigned i = 0; i < ip + fp; ++i) top *= 10;
    T const eps = top * (sizeof(T) == 4 ? T(1e-6) : T(1e-14));
    T const d = (neg ? -r : r) * scale - static_cast<T>(N);
    sx_assert((d <= eps) & (d >= -eps), "value within rounding error of the decimal value");
  }
  sx_reach("value");
}

// long texts: 18 to 60 integer digits or fraction digits, all equal but the first, which takes every value
template <typename T>
static void many(bool neg) {
  static unsigned const counts[] = {9, 10, 11, 18, 19, 20, 21, 25, 30, 38};
  unsigned const ip = counts[sx::choose("integer digits", 10)], fp = sx::choose("fraction", 2) * 30;
  char const rest = static_cast<char>('0' + sx::choose("digit", 2) * 9);
  char const first = static_cast<char>('0' + sx::choose("first", 10));
  sx::bytes A(neg + ip + (fp ? fp + 1 : 0), "a");
  size_t p = 0;
  if (neg) A[p++] = '-';
  double want = 0, w = 1;
  for (unsigned i = 0; i < ip; ++i) { A[p] = i ? rest : first; want = want * 10 + (A[p++] - '0'); }
  if (fp) A[p++] = '.';
  for (unsigned i = 0; i < fp; ++i) { A[p] = rest; w /= 10; want += w * (A[p++] - '0'); }
  if (neg) want = -want;
  cstr s{A.data(), A.size()};
  T r = 5;
  sx_assert(parse_arg(s, r) && s.len == 0, "long text parsed");
  double const d = static_cast<double>(r) - want, tol = (want < 0 ? -want : want) * (sizeof(T) == 4 ? 1e-5 : 1e-13) + (sizeof(T) == 4 ? 1e-5 : 1e-13);
  sx_assert(d <= tol && d >= -tol, "value of a long text");
  if (ip > 20) sx_reach("more than 64 bits of integer part");
}

extern "C" void sx_main() {
  if (sx::param("many", 0)) {
    bool const neg = sx::choose("neg", 2);
    if (sx::choose("dbl", 2)) many<double>(neg); else many<float>(neg);
    return;
  }
  if (sx::param("value", 0)) {
    unsigned const ip = sx::param("ip", 1), fp = sx::param("fp", 1);
    bool const neg = sx::choose("neg", 2);
    if (sx::param("dbl", 0)) value<double>(ip, fp, neg); else value<float>(ip, fp, neg);
    return;
  }
  sx::bytes A(sx::choose("len", sx::param("n", 5) + 1), "a");
  if (sx::choose("type", 2)) shape<double>(A); else shape<float>(A);
}
