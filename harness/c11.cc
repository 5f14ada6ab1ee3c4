// C11: splitting a record
#include "sx.h"
#include "utl/parser/split.h"
#include <string>
#include <vector>
using namespace utl;

template <char Sep>
static void check(sx::bytes& A) {
  size_t const L = A.size();
  for (size_t i = 0; i < L; ++i) sx_assume(A[i] != '"' && A[i] != '\r' && A[i] != '\n');
  size_t from[16], to[16], n = 0;
  for (size_t i = 0, b = 0; i <= L; ++i)
    if (i == L || sx::fork(A[i] == Sep)) { from[n] = b; to[n] = i; ++n; b = i + 1; }
  auto col = [&](size_t i) { return i < n ? cstr{A.data() + from[i], to[i] - from[i]} : cstr{}; };
  if (sx::choose("before", 2)) {  // an earlier, full record leaves nothing behind
    char const full[] = {'7', Sep, '8', Sep, '9', Sep, 't'};
    auto const before = cstr{full, sizeof full};
    (void)split<Sep, cstr, int, std::string, bool>(before);
    (void)split<Sep, unsigned, cstr>(before);
    (void)split<Sep, cstr, std::string, std::string>(before);
    (void)split<Sep, std::string, cstr, cstr>(before);
  }
  auto const [a, b, c, d] = split<Sep, cstr, int, std::string, bool>(cstr{A.data(), L});
  sx_assert(a.len == col(0).len && (a.len == 0 || a.str == A.data()), "first column");
  sx_assert(b == (col(1).len ? parse<int>(col(1)) : 0), "second column, or zero");
  auto const c2 = col(2);
  sx_assert(c.size() == c2.len, "third column, or empty");
  for (size_t i = 0; i < c2.len; ++i) sx_assert(c[i] == c2[i], "third column byte");
  sx_assert(d == (col(3).len ? parse<bool>(col(3)) : false), "fourth column, or false");
  auto const [x, y] = split<Sep, unsigned, cstr>(cstr{A.data(), L});
  sx_assert(x == (col(0).len ? parse<unsigned>(col(0)) : 0U), "other targets: first");
  sx_assert(y.len == col(1).len && (y.len == 0 || y.str == col(1).str), "other targets: second");
  auto const [e, f, g] = split<Sep, cstr, std::string, std::string>(cstr{A.data(), L});
  auto const c1 = col(1);
  sx_assert((e.len == col(0).len) & (f.size() == c1.len) & (g.size() == c2.len), "text targets");
  for (size_t i = 0; i < c1.len; ++i) sx_assert(f[i] == c1[i], "text target byte");
  auto const [h, i1, i2] = split<Sep, std::string, cstr, cstr>(cstr{A.data(), L});
  sx_assert((h.size() == col(0).len) & (i1.len == c1.len) & (i2.len == c2.len), "view targets");
  sx_assert((i1.len == 0 || i1.str == c1.str) & (i2.len == 0 || i2.str == c2.str), "view target position");
  sx_observe(c.size());
  if (n < 3) sx_reach("missing columns");
  if (n > 4) sx_reach("surplus columns");
}
static void quoted() {
  // "a<sep>b" <sep> digit
  char const q = sx::any<char>("q");
  sx_assume(q != '"' && q != '\r' && q != '\n');
  sx::bytes A(6, "a");
  A[0] = '"'; A[1] = q; A[2] = ','; A[3] = '"'; A[4] = ',';
  A[5] = sx::in<char>("digit", '0', '9');
  auto const [a, b] = split<',', cstr, int>(cstr{A.data(), 6});
  sx_assert(a.str == A.data() + 1 && a.len == 2, "quoted column without its quotes");
  sx_assert(b == A[5] - '0', "column after a quoted one");
  sx_reach("quoted");
}
// long columns and many surplus columns
static void large() {
  static unsigned const lens[] = {0, 1, 15, 16, 255, 256, 257};
  unsigned const l0 = lens[sx::choose("first", 7)], l2 = lens[sx::choose("third", 7)], more = sx::choose("surplus", 3) * 150;
  std::vector<char> t;
  char const c = sx::any<char>("c"), d = sx::in<char>("digit", '0', '9');
  sx_assume(c != '"' && c != '\r' && c != '\n' && c != ',');
  for (unsigned i = 0; i < l0; ++i) t.push_back(i == l0 / 2 ? c : 'x');
  t.push_back(',');
  t.push_back(d);
  t.push_back(',');
  auto const at = t.size();
  for (unsigned i = 0; i < l2; ++i) t.push_back(i == l2 / 2 ? c : 'y');
  t.push_back(',');
  t.push_back('t');
  for (unsigned i = 0; i < more; ++i) { t.push_back(','); t.push_back('9'); }
  sx::bytes A(t.size(), "a");
  for (size_t i = 0; i < t.size(); ++i) A[i] = t[i];
  auto const [x, n, s, b] = split<',', cstr, int, std::string, bool>(cstr{A.data(), A.size()});
  sx_assert(x.len == l0 && (l0 == 0 || x.str == A.data()) && n == d - '0' && s.size() == l2 && b, "long columns");
  sx_assert(std::memcmp(s.data(), A.data() + at, l2) == 0, "long column bytes");
  auto const [p, q, r, u, v, w, y] = split<',', cstr, int, cstr, bool, int, int, int>(cstr{A.data(), A.size()});
  sx_assert(r.len == l2 && (l2 == 0 || r.str == A.data() + at) && q == d - '0' && p.len == l0 && u && v == (more ? 9 : 0) && w == v && y == v, "more targets");
  if (l2 > 255) sx_reach("long");
  if (more) sx_reach("many surplus columns");
}
extern "C" void sx_main() {
  if (sx::param("big", 0)) return large();
  auto const k = sx::choose("mode", 4);
  if (k == 3) return quoted();
  sx::bytes A(sx::choose("len", sx::param("n", 5) + 1), "a");
  if (k == 0) check<','>(A);
  if (k == 1) check<';'>(A);
  if (k == 2) check<' '>(A);
}
