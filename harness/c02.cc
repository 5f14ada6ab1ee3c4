// C02: equality and ordering of utl::cstr
#include "sx.h"
#include "utl/parser/cstr.h"
#include <string_view>
using utl::cstr;

static bool ref_less(sx::bytes const& a, sx::bytes const& b) {
  size_t n = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = 0; i < n; ++i)
    if (a[i] != b[i]) return a[i] < b[i];
  return a.size() < b.size();
}
static bool ref_eq(sx::bytes const& a, sx::bytes const& b) {
  bool r = a.size() == b.size();
  for (size_t i = 0; r && i < a.size(); ++i) r = a[i] == b[i];
  return r;
}
extern "C" void sx_main() {
  unsigned const n = sx::param("n", 3), n3 = sx::param("n3", 2);
  if (unsigned const big = sx::param("big", 0); big) {  // long texts, equal except for a few bytes
    static unsigned const lens[] = {8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257};
    unsigned const la = lens[sx::choose("len", sizeof lens / sizeof *lens)];
    unsigned const lb = la + sx::choose("longer", 2);
    unsigned const at = sx::choose("at", 4);
    sx::bytes A(la, "a"), B(lb, "b");
    // from .. from + big - 1 may differ
    unsigned const from = at == 0 ? 0 : at == 1 ? la / 2 : at == 2 ? la - (big < la ? big : la) : la / 3;
    for (unsigned i = 0; i < la; ++i)
      if (i < from || i >= from + big) B[i] = A[i];
    cstr a{A.data(), A.size()}, b{B.data(), B.size()};
    bool const eq = a == b, lt = a < b, gt = b < a;
    bool req = true;
    for (unsigned i = from; i < from + big && i < la; ++i) req = req & (A[i] == B[i]);
    req = req & (la == lb);
    sx_assert(eq == req, "equal exactly if same length and bytes");
    sx_assert((a != b) == !eq, "!= negates ==");
    sx_assert(lt == ref_less(A, B), "ordering is lexicographic");
    sx_assert(gt == ref_less(B, A), "ordering is lexicographic");
    if (eq) sx_reach("long equal");
    return;
  }
  if (sx::choose("mode", 2) == 0) {
    sx::bytes A(sx::choose("la", n + 1), "a"), B(sx::choose("lb", n + 1), "b");
    cstr a{A.data(), A.size()}, b{B.data(), B.size()};
    bool eq = a == b, ne = a != b, lt = a < b, gt = b < a;
    sx_observe(eq);
    sx_observe(lt);
    sx_assert(eq == ref_eq(A, B), "equal exactly if same length and bytes");
    sx_assert(ne == !eq, "!= negates ==");
    sx_assert(lt == ref_less(A, B), "ordering is lexicographic");
    sx_assert(!(lt && gt), "asymmetric");
    sx_assert(eq == (!lt && !gt), "equivalent exactly if equal");
    sx_assert(!(a < a) && a == a, "irreflexive / reflexive");
    sx_assert(a.view() == std::string_view(A.data(), A.size()), "view is the same text");
    sx_reach("pair");
  } else {
    sx::bytes A(sx::choose("la", n3 + 1), "a"), B(sx::choose("lb", n3 + 1), "b"), C(sx::choose("lc", n3 + 1), "c");
    cstr a{A.data(), A.size()}, b{B.data(), B.size()}, c{C.data(), C.size()};
    if (a < b && b < c) { sx_assert(a < c, "transitive"); sx_reach("chain"); }
    if (a == b && b == c) { sx_assert(a == c, "equality transitive"); sx_reach("equal chain"); }
    bool ab = !(a < b) && !(b < a), bc = !(b < c) && !(c < b);
    if (ab && bc) sx_assert(!(a < c) && !(c < a), "equivalence transitive");
  }
}
