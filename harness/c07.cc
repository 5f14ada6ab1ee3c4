// C07: the CSV readers on arbitrary bytes
#include "sx.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/parser/split.h"
#include "utl/pipes.h"
#include <array>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
using namespace utl;

static bool inside(cstr const& c, sx::bytes const& A) {
  if (c.len == 0 && c.str == nullptr) return true;
  return c.str >= A.data() && c.str + c.len <= A.data() + A.size() && c.len <= A.size();
}
static void touch(cstr const& c) { for (size_t i = 0; i < c.len; ++i) sx_observe(static_cast<unsigned char>(c[i])); }

struct rec {
  csv_col<cstr, UTL_NAME("a")> a_;
  csv_col<int, UTL_NAME("b")> b_;
  csv_col<bool, UTL_NAME("c")> c_;
  csv_col<double, UTL_NAME("d")> d_;
};

template <char Sep>
static void column(sx::bytes& A) {
  cstr s{A.data(), A.size()};
  size_t const len0 = s.len;
  cstr c;
  parse_column<cstr, Sep>(s, c);
  sx_assert(inside(c, A), "column inside the input");
  sx_assert(inside(s, A) && s.len <= len0 && s.str + s.len == A.data() + A.size(), "cursor only moves forward, never beyond the end");
  if (len0 != 0) sx_assert(c.str + c.len <= s.str, "column lies before the cursor");
  touch(c);
  sx_reach("column");
}

// headers and rows with many columns
static void wide() {
  auto const n = 62 + sx::choose("columns", 6), how = sx::choose("reader", 3);
  auto const at = sx::choose("at", 3);
  sx::bytes A(2 * n + 2 * (n + 2), "a");
  size_t k = 0;
  auto const pos = at == 0 ? 0 : at == 1 ? 63 : n - 1;
  for (unsigned i = 0; i < n; ++i) { A[k++] = i == pos ? 'a' : 'x'; A[k++] = i + 1 == n ? '\n' : ','; }
  for (unsigned i = 0; i < n + 2; ++i) { A[k++] = i == pos ? sx::any<char>("byte") : '1'; A[k++] = i + 1 == n + 2 ? '\n' : ','; }
  cstr s{A.data(), A.size()};
  try {
    if (how == 0) {
      auto const v = read<std::tuple<cstr, int>>(s, {{"a", "b"}});
      for (auto const& r : v) { sx_assert(inside(std::get<0>(r), A), "cell inside the input"); touch(std::get<0>(r)); }
      sx_reach("wide table");
    } else if (how == 1) {
      auto const v = line_range{make_buf_reader(s)} | csv<rec>() | vec();
      for (auto const& r : v) { sx_assert(inside(r.a_.val(), A), "field inside the input"); touch(r.a_.val()); }
      sx_reach("wide pipeline");
    } else {
      std::array<cstr, 2> const names{cstr{"a"}, cstr{"b"}};
      auto m = read_header<std::tuple<cstr, int>>(s, names);
      for (auto x : m) sx_assert(x == NO_COLUMN_IDX || x < 2, "header maps to a defined column");
      sx_assert(inside(s, A), "header cursor");
    }
  } catch (std::runtime_error const&) {
    sx_reach("too wide");
  }
}

extern "C" void sx_main() {
  if (sx::param("mode", 0) == 10) return wide();
  sx::bytes A(sx::choose("len", sx::param("n", 4) + 1), "a");
  if (auto const mode = sx::param("mode", 0); mode >= 7) {
    // a table with a fixed header and arbitrary bytes behind it
    char const* const h = mode == 7 ? "b,a\n" : mode == 8 ? "d,x,c,b,a\n" : "c;a\r\n";
    size_t const hl = std::strlen(h);
    sx::bytes B(hl + A.size(), "b");
    std::memcpy(B.data(), h, hl);
    std::memcpy(B.data() + hl, A.data(), A.size());
    cstr s{B.data(), B.size()};
    if (mode == 8) {
      auto const v = line_range{make_buf_reader(s)} | csv<rec>() | vec();
      for (auto const& r : v) { sx_assert(inside(r.a_.val(), B), "field inside the input"); touch(r.a_.val()); }
      if (v.size() > 1) sx_reach("pipeline rows");
    } else if (mode == 7) {
      auto const v = read<std::tuple<cstr, int>>(s, {{"a", "b"}});
      for (auto const& r : v) { sx_assert(inside(std::get<0>(r), B), "cell inside the input"); touch(std::get<0>(r)); }
      sx_assert(v.size() <= A.size(), "no more rows than bytes");
      if (v.size() > 1) sx_reach("table rows");
    } else {
      std::vector<std::tuple<cstr, bool>> v;
      read<std::tuple<cstr, bool>, ';'>(s, v, {{"a", "c"}});
      for (auto const& r : v) { sx_assert(inside(std::get<0>(r), B), "cell inside the input"); touch(std::get<0>(r)); }
      if (v.size() > 1) sx_reach("table rows crlf");
    }
    return;
  }
  cstr s{A.data(), A.size()};
  using T = std::tuple<cstr, int>;
  std::array<cstr, 2> const names{cstr{"a"}, cstr{"b"}};
  switch (sx::param("mode", 0)) {
    case 0: column<','>(A); column<';'>(A); column<'\t'>(A); break;
    case 1: {
      auto m = read_header<T>(s, names);
      sx_assert(inside(s, A) && s.str + s.len == A.data() + A.size(), "header cursor");
      for (auto x : m) sx_assert(x == NO_COLUMN_IDX || x < 2, "header maps to a defined column");
      sx_reach("header");
      break;
    }
    case 2: {
      // rows with any column permutation
      std::array<column_idx_t, MAX_COLUMNS> m;
      m.fill(NO_COLUMN_IDX);
      auto const k = sx::choose("perm", 4);
      if (k == 0) { m[0] = 0; m[1] = 1; }
      if (k == 1) { m[0] = 1; m[1] = 0; }
      if (k == 2) { m[0] = NO_COLUMN_IDX; m[1] = 0; }
      if (k == 3) { m[2] = 1; }
      auto const rows = read_rows<T>(s, m);
      sx_assert(rows.size() <= A.size(), "no more rows than bytes");
      for (auto const& r : rows) for (auto const& c : r) { sx_assert(inside(c, A), "cell inside the input"); touch(c); }
      sx_assert(inside(s, A), "rows cursor");
      sx_reach("rows");
      break;
    }
    case 3: {
      auto const v = read<T>(s, names);
      for (auto const& r : v) sx_assert(inside(std::get<0>(r), A), "table cell inside the input");
      if (!v.empty()) sx_reach("table");
      break;
    }
    case 4: {
      auto const v = line_range{make_buf_reader(s)} | csv<rec>() | vec();
      for (auto const& r : v) { sx_assert(inside(r.a_.val(), A), "field inside the input"); touch(r.a_.val()); }
      if (!v.empty()) sx_reach("pipeline");
      break;
    }
    case 5: {
      auto const [x, y, z] = split<',', cstr, int, cstr>(s);
      sx_assert(inside(x, A) && inside(z, A), "split column inside the input");
      touch(x); touch(z);
      sx_reach("split");
      break;
    }
    case 6: {
      // unescaping: every string
      std::string t(A.data(), A.size());
      unescape_quoted_string(t);
      sx_assert(t.size() <= A.size(), "unescaping never lengthens");
      sx_observe(t.size());
      sx::observe_bytes(t.data(), t.size());
      cista::raw::generic_string g;
      g.set_non_owning(A.data(), static_cast<unsigned>(A.size()));
      unescape_quoted_string(g);
      sx_assert(std::string_view(g) == t, "generic_string and std::string agree");
      sx_reach("unescape");
      break;
    }
  }
}
