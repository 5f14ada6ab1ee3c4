// C10: the streaming CSV pipeline
#include "sx.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/pipes.h"
#include <vector>
using namespace utl;

struct rec {
  csv_col<cstr, UTL_NAME("id")> id_{cstr{"dflt", std::size_t{4}}};
  csv_col<int, UTL_NAME("n")> n_{77};
  csv_col<bool, UTL_NAME("ok")> ok_{true};
};
static char const* const names[] = {"id", "n", "ok", "i"};
static void put(std::vector<char>& w, char const* s) { while (*s) w.push_back(*s++); }

// many rows, long cells
static void large() {
  static unsigned const counts[] = {1, 2, 255, 256, 300}, lens[] = {1, 15, 16, 255, 256, 300};
  unsigned const k = counts[sx::choose("rows", 5)], len = k < 3 ? lens[sx::choose("length", 6)] : 2;
  bool const crlf = sx::choose("crlf", 2), final = sx::choose("final", 2), bom = sx::choose("bom", 2);
  std::vector<char> w;
  char const c = sx::any<char>("c"), d = sx::in<char>("digit", '0', '9');
  sx_assume(c != '\n' && c != '\r' && c != '"' && c != ',');
  auto const eol = [&] { put(w, crlf ? "\r\n" : "\n"); };
  if (bom) put(w, "\xEF\xBB\xBF");
  put(w, "i,n,id");
  eol();
  for (unsigned r = 0; r < k; ++r) {
    put(w, "u,");
    w.push_back(r == k / 2 ? d : static_cast<char>('0' + r % 10));
    w.push_back(',');
    for (unsigned i = 0; i < len; ++i) w.push_back(i == len / 2 ? c : 'x');
    if (r + 1 < k || final) eol();
  }
  sx::bytes F(w.size(), "f");
  for (size_t i = 0; i < w.size(); ++i) F[i] = w[i];
  auto const v = line_range{make_buf_reader(cstr{F.data(), F.size()})} | csv<rec>() | vec();
  sx_assert(v.size() == k, "one struct per line of a large text");
  auto ok = v.size() == k;
  for (unsigned r = 0; r < v.size() && r < k; ++r) {
    auto const id = v[r].id_.val();
    ok &= *v[r].n_ == (r == k / 2 ? d - '0' : static_cast<int>(r % 10));
    ok &= id.len == len && *v[r].ok_;
    for (unsigned i = 0; i < len && i < id.len; ++i) ok &= id[i] == (i == len / 2 ? c : 'x');
  }
  sx_assert(ok, "fields of a large text");
  if (k > 255) sx_reach("many rows");
  if (len > 255) sx_reach("long cell");
}

// headers of many columns, spaces around names, short and surplus rows, other separators
template <char Sep>
static void odd() {
  static unsigned const counts[] = {1, 2, 31, 32, 33, 63, 64, 65, 70, 256, 257, 300};
  unsigned const n = counts[sx::choose("columns", 12)];
  unsigned const pos = sx::choose("at", 2) ? n - 1 : 0;
  bool const bom = sx::choose("bom", 2);
  // name variants: only the exact name matches
  static char const* const variants[] = {"n", " n", "n ", "N", "nn", "\"n\"", "\"n \"", "", "\xEF\xBB\xBFn"};
  unsigned const name = sx::choose("name", 9);
  unsigned const shape = sx::choose("row", 3);  // complete, cut before the named column, surplus cells
  std::vector<char> w;
  if (bom) put(w, "\xEF\xBB\xBF");
  if (!bom && pos == 0 && name == 8) return;  // that is a byte order mark
  for (unsigned i = 0; i < n; ++i) { if (i) w.push_back(Sep); put(w, i == pos ? variants[name] : "x"); }
  w.push_back('\n');
  char const d = sx::in<char>("digit", '0', '9');
  unsigned const filled = shape == 1 ? (pos ? pos : 1) : shape == 2 ? n + 3 : n;
  for (unsigned i = 0; i < filled; ++i) { if (i) w.push_back(Sep); w.push_back(i == pos && shape != 1 ? d : '1'); }
  sx::bytes F(w.size(), "f");
  for (size_t i = 0; i < w.size(); ++i) F[i] = w[i];
  bool threw = false;
  // an empty name in the last place is not a column of its own
  unsigned const real = name == 7 && pos == n - 1 && n > 1 ? n - 1 : n;
  if (name == 7 && n == 1) return;  // empty header line
  try {
    auto const v = line_range{make_buf_reader(cstr{F.data(), F.size()})} | csv<rec, Sep>() | vec();
    sx_assert(v.size() == 1, "one struct per line of a wide table");
    bool const named = name == 0 || name == 5, present = shape != 1 || pos == 0;
    sx_assert(*v[0].n_ == (!named || !present ? 77 : shape == 1 ? 1 : d - '0'), "named column of a wide table");
    sx_assert(v[0].id_.val() == cstr("dflt") && *v[0].ok_, "columns that are not there");
  } catch (std::runtime_error const&) { threw = true; }
  sx_assert(threw == (real > 64), "a header of up to 64 columns is accepted, of more rejected");
  if (threw) sx_reach("rejected"); else sx_reach("accepted");
}

extern "C" void sx_main() {
  if (sx::param("odd", 0)) return sx::choose("sep", 2) ? odd<';'>() : odd<'\t'>();
  if (sx::param("big", 0)) return large();
  unsigned const C = sx::param("cols", 3), R = sx::param("rows", 2);
  unsigned const nc = 1 + sx::choose("cols", C);
  unsigned cols[4];
  bool used[4] = {};
  for (unsigned i = 0; i < nc; ++i) {
    auto c = sx::choose("col", 4);
    sx_assume(!used[c]);
    used[c] = true;
    cols[i] = c;
  }
  unsigned const style = sx::choose("style", 8);
  bool const bom = style & 1, crlf = style & 2, final = style & 4;
  unsigned const nr = sx::choose("rows", R + 1);
  unsigned const blank = sx::choose("blank", nr + 1);  // == nr: none
  if (crlf) sx_assume(blank == nr);
  std::vector<char> w;
  if (bom) put(w, "\xEF\xBB\xBF");
  for (unsigned i = 0; i < nc; ++i) { if (i) w.push_back(','); put(w, names[cols[i]]); }
  auto eol = [&] { put(w, crlf ? "\r\n" : "\n"); };
  struct cell { unsigned len; char b[2]; };
  cell cells[4][4] = {};
  if (nr || final) eol();
  for (unsigned r = 0; r < nr; ++r) {
    if (blank == r) eol();
    bool empty = true;
    for (unsigned i = 0; i < nc; ++i) {
      if (i) { w.push_back(','); empty = false; }
      auto& c = cells[r][cols[i]];
      switch (cols[i]) {
        case 1: c.len = sx::choose("nlen", 2); c.b[0] = sx::in<char>("digit", '0', '9'); break;
        case 2: c.len = sx::choose("oklen", 2); c.b[0] = sx::any<bool>("ok") ? 'T' : 'f'; break;
        default:
          c.len = sx::choose("clen", 2);
          for (unsigned k = 0; k < c.len; ++k) {
            c.b[k] = sx::any<char>("c");
            sx_assume(c.b[k] != '\n' && c.b[k] != '\r' && c.b[k] != '"' && c.b[k] != ',');
          }
      }
      for (unsigned k = 0; k < c.len; ++k) { w.push_back(c.b[k]); empty = false; }
    }
    sx_assume(!empty);
    if (r + 1 < nr || final) eol();
  }
  sx::bytes F(w.size(), "f");
  for (size_t i = 0; i < w.size(); ++i) F[i] = w[i];

  auto const v = line_range{make_buf_reader(cstr{F.data(), F.size()})} | csv<rec>() | vec();
  sx_assert(v.size() == blank, "one struct per line up to the first empty line");
  for (unsigned r = 0; r < v.size(); ++r) {
    auto const& x = v[r];
    auto const& ci = cells[r][0];
    if (ci.len == 0) {
      sx_assert(x.id_.val() == cstr("dflt"), "default of a text field");
      sx_reach("default");
    } else {
      sx_assert(x.id_.val().len == ci.len, "text field length");
    }
    for (unsigned k = 0; k < ci.len; ++k) sx_assert(x.id_.val()[k] == ci.b[k], "text field byte");
    sx_assert(*x.n_ == (cells[r][1].len ? cells[r][1].b[0] - '0' : 77), "integer field");
    sx_assert(*x.ok_ == (!cells[r][2].len || cells[r][2].b[0] == 'T'), "bool field");
    sx_observe(*x.n_);
  }
  unsigned n = 0;
  line_range{make_buf_reader(cstr{F.data(), F.size()})} | csv<rec>() | for_each([&](rec const& x) {
    sx_assert(n < v.size() && *x.n_ == *v[n].n_, "for_each sees the same rows");
    ++n;
  });
  sx_assert(n == v.size(), "for_each sees all rows");
  if (bom && nr) sx_reach("bom");
  if (blank < nr) sx_reach("blank line");
  if (crlf && nr) sx_reach("crlf");
}
