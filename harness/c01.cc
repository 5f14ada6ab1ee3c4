// C01: slicing, trimming, searching of utl::cstr
#include "sx.h"
#include "utl/parser/cstr.h"
using utl::cstr;
using utl::field;

static size_t mn(size_t a, size_t b) { return a < b ? a : b; }

static void check_view(sx::bytes const& A, cstr r, size_t from, size_t len) {
  sx_assert(r.len == len, "sub-view has the clamped size");
  sx_assert(r.str == A.data() + from, "sub-view starts at the clamped position");
}

// long views: all positions and sizes are symbolic; trimming and searching
// around the lengths at which word-wise code changes its behaviour
static void large() {
  static unsigned const lens[] = {15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300};
  unsigned const L = lens[sx::choose("length", sizeof lens / sizeof *lens)];
  sx::bytes A(L, "a");
  cstr const a{A.data(), L};
  switch (sx::choose("mode", 4)) {
    case 0: {
      auto p = sx::any<size_t>("pos"), s = sx::any<size_t>("size");
      check_view(A, a.substr(p, utl::size(s)), mn(p, L), mn(s, L - mn(p, L)));
      auto r = a.substr(p, s);
      size_t from = mn(p, L), to = mn(s, L);
      check_view(A, r, from, to > from ? to - from : 0);
      field f;
      f.from = p;
      f.size = s;
      check_view(A, a.substr(f), from, s == size_t(field::MAX_SIZE) ? L - from : mn(s, L - from));
      sx_reach("long view sliced");
      break;
    }
    case 1: {  // blanks in front of and behind one other byte
      unsigned const at = sx::choose("at", 3) * (L - 1) / 2;
      char const blank = sx::fork(sx::any<bool>("newline")) ? '\n' : ' ', c = sx::any<char>("c");
      sx_assume(c != ' ' && c != '\n');
      for (unsigned i = 0; i < L; ++i) A[i] = blank;
      A[at] = c;
      check_view(A, a.trim(), at, 1);
      check_view(A, a.skip_whitespace_front(), at, L - at);
      check_view(A, a.skip_whitespace_back(), 0, at + 1);
      sx_reach("long view trimmed");
      break;
    }
    case 2: {  // a long needle that differs from the text in one byte, or not
      unsigned const m = L - sx::choose("shorter", 3), at = sx::choose("at", 3) * (m - 1) / 2;
      for (unsigned i = 0; i < L; ++i) A[i] = static_cast<char>('a' + i % 23);
      sx::bytes B(m, "b");
      for (unsigned i = 0; i < m; ++i) if (i != at) B[i] = A[i];
      cstr nd{B.data(), m};
      bool const same = B[at] == A[at];
      sx_assert(a.starts_with(nd) == same, "starts_with compares all bytes of a long needle");
      sx_assert(a.contains(nd) == same, "contains compares all bytes of a long needle");
      cstr a2 = a;
      sx_assert(a2.substr_offset(nd) == (same ? 0 : ~size_t(0)), "offset of a long needle");
      sx_reach("long needle");
      break;
    }
    case 3: {  // a short needle at a distant place
      for (unsigned i = 0; i < L; ++i) A[i] = '.';
      unsigned const at = L - 2 - sx::choose("back", 3);
      char const c = sx::any<char>("c"), d = sx::any<char>("d");
      sx_assume(c != '.' && d != '.');
      A[at] = c;
      A[at + 1] = d;
      char const nd[2] = {c, d};
      cstr a2 = a;
      sx_assert(a2.substr_offset(cstr{nd, 2}) == at && a.contains(cstr{nd, 2}) && !a.starts_with(cstr{nd, 2}), "needle at a distant place");
      sx_reach("distant needle");
      break;
    }
  }
}

extern "C" void sx_main() {
  if (sx::param("big", 0)) return large();
  unsigned const n = sx::param("n", 3), m = sx::param("m", 2);
  auto const mode = sx::choose("mode", 5);
  sx::bytes A(sx::choose("len", n + 1), "a");
  size_t const L = A.size();
  cstr const a{A.data(), L};
  switch (mode) {
    case 0: {
      auto p = sx::any<size_t>("pos"), s = sx::any<size_t>("size");
      check_view(A, a.substr(p, utl::size(s)), mn(p, L), mn(s, L - mn(p, L)));
      sx_reach("substr position/size");
      break;
    }
    case 1: {
      auto b = sx::any<size_t>("begin"), e = sx::any<size_t>("end");
      auto r = a.substr(b, e);
      size_t from = mn(b, L), to = mn(e, L);
      check_view(A, r, from, to > from ? to - from : 0);
      auto q = a.substr(b);
      check_view(A, q, from, L - from);
      sx_reach("substr begin/end");
      break;
    }
    case 2: {
      field f;
      f.from = sx::any<size_t>("from");
      f.size = sx::any<size_t>("fsize");
      size_t from = mn(f.from, L), rest = L - from;
      check_view(A, a.substr(f), from, f.size == size_t(field::MAX_SIZE) ? rest : mn(f.size, rest));
      sx_reach("substr field");
      break;
    }
    case 3: {
      size_t b = 0, e = L;
      while (b < L && (A[b] == ' ' || A[b] == '\n')) ++b;
      check_view(A, a.skip_whitespace_front(), b, L - b);
      while (e > 0 && (A[e - 1] == ' ' || A[e - 1] == '\n')) --e;
      check_view(A, a.skip_whitespace_back(), 0, e);
      auto t = a.trim();
      if (b == L) { sx_assert(t.len == 0, "trim of blanks is empty"); }
      else check_view(A, t, b, e - b);
      sx_observe(t.len);
      sx_reach("trim");
      break;
    }
    case 4: {
      sx::bytes B(sx::choose("nlen", m + 1), "b");
      cstr nd{B.data(), B.size()};
      // first match, by definition
      size_t at = ~size_t(0), first_nonend = ~size_t(0);
      for (size_t i = 0; i + B.size() <= L; ++i) {
        bool eq = true;
        for (size_t j = 0; j < B.size(); ++j) eq = eq & (A[i + j] == B[j]);
        if (eq) {
          if (at == ~size_t(0)) at = i;
          if (i < L && first_nonend == ~size_t(0)) first_nonend = i;
        }
      }
      auto c = a.contains(nd);
      auto s = a.starts_with(nd);
      cstr a2 = a;
      auto o = a2.substr_offset(nd);
      sx_assert(c == (at != ~size_t(0)), "contains agrees with the definition");
      sx_assert(s == (at == 0), "starts_with agrees with the definition");
      sx_assert(o == first_nonend, "substr_offset is the first match");
      sx_observe(c); sx_observe(s); sx_observe(o);
      sx_reach("search");
      break;
    }
  }
  // moving the front forward by at most the length
  size_t const by = sx::choose("by", static_cast<unsigned>(L) + 1);
  cstr moved = a;
  check_view(A, moved + by, by, L - by);
  check_view(A, moved, 0, L);
  moved += by;
  check_view(A, moved, by, L - by);
  if (L) {
    cstr next = a;
    check_view(A, ++next, 1, L - 1);
  }
  check_view(A, a.substr(field{}), 0, 0);
  sx_assert(cstr{static_cast<char const*>(nullptr)}.len == 0 && cstr{nullptr, 0}.len == 0 && cstr{""}.len == 0, "no text is an empty view");
  // the null view behaves like an empty one
  cstr z;
  sx_assert(z.substr(sx::any<size_t>("zp"), utl::size(3)).len == 0 && z.trim().len == 0 && !z.contains("x") && !z.valid(), "null view is empty");
}
