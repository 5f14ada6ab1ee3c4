// C09: tuple-based CSV tables
#include "sx.h"
#include "utl/parser/csv.h"
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
using namespace utl;

using T = std::tuple<cstr, int, std::string, bool>;
static char const* const names[] = {"id", "n", "name", "ok", "zz"};

static void put(std::vector<char>& w, char const* s) { while (*s) w.push_back(*s++); }

template <char Sep>
static void table() {
  unsigned const C = sx::param("cols", 3), R = sx::param("rows", 2);
  // columns: any sequence of distinct names out of the four defined and one unknown
  unsigned const nc = 1 + sx::choose("cols", C);
  unsigned cols[5];
  bool used[5] = {};
  for (unsigned i = 0; i < nc; ++i) {
    auto c = sx::choose("col", 5);
    sx_assume(!used[c]);
    used[c] = true;
    cols[i] = c;
  }
  unsigned const style = sx::choose("style", 4);
  char const* const eol = style & 1 ? "\r\n" : "\n";
  bool const final = style & 2;
  bool const quoted = sx::param("quoted", 0) && sx::choose("quoted", 2);
  unsigned const nr = sx::choose("rows", R + 1);
  struct cell { unsigned len; char b[2]; };
  cell cells[4][5] = {};
  std::vector<char> w;
  for (unsigned i = 0; i < nc; ++i) {
    if (i) w.push_back(Sep);
    put(w, names[cols[i]]);
  }
  if (nr || final) put(w, eol);
  for (unsigned r = 0; r < nr; ++r) {
    for (unsigned i = 0; i < nc; ++i) {
      if (i) w.push_back(Sep);
      auto& c = cells[r][cols[i]];
      switch (cols[i]) {
        case 1: c.len = 1; c.b[0] = sx::in<char>("digit", '0', '9'); break;
        case 3: c.len = 1; c.b[0] = sx::any<bool>("ok") ? 't' : 'f'; break;
        default:
          c.len = sx::choose("clen", sx::param("cell", 1) + 1);
          if (nc == 1 && !quoted) sx_assume(c.len != 0);  // an empty line is not a row
          for (unsigned k = 0; k < c.len; ++k) {
            c.b[k] = sx::any<char>("c");
            sx_assume(c.b[k] != '\n' && c.b[k] != '\r' && c.b[k] != '"');
            if (!quoted) sx_assume(c.b[k] != Sep);
          }
      }
      if (quoted) w.push_back('"');
      for (unsigned k = 0; k < c.len; ++k) w.push_back(c.b[k]);
      if (quoted) w.push_back('"');
    }
    if (r + 1 < nr || final) put(w, eol);
  }
  sx::bytes F(w.size(), "f");
  for (size_t i = 0; i < w.size(); ++i) F[i] = w[i];

  auto const v = read<T, Sep>(cstr{F.data(), F.size()}, {{"id", "n", "name", "ok"}});
  sx_assert(v.size() == nr, "one entry per data row");
  for (unsigned r = 0; r < nr; ++r) {
    auto const& [id, n, name, ok] = v[r];
    auto const& ci = cells[r][0];
    sx_assert(id.len == ci.len, "text field length");
    for (unsigned k = 0; k < ci.len; ++k) sx_assert(id[k] == ci.b[k], "text field byte");
    sx_assert(n == (used[1] ? cells[r][1].b[0] - '0' : 0), "integer field");
    auto const& cn = cells[r][2];
    sx_assert(name.size() == cn.len, "string field length");
    for (unsigned k = 0; k < cn.len; ++k) sx_assert(name[k] == cn.b[k], "string field byte");
    sx_assert(ok == (used[3] && cells[r][3].b[0] == 't'), "bool field");
    sx_observe(n);
  }
  std::vector<T> v2(sx::choose("entries before", 2) * (R + 1));
  read<T, Sep>(cstr{F.data(), F.size()}, v2, {{"id", "n", "name", "ok"}});
  sx_assert(v2.size() == v.size(), "out-parameter overload agrees");
  for (size_t r = 0; r < v.size() && r < v2.size(); ++r) sx_assert(v2[r] == v[r], "out-parameter overload agrees on the entries");
  if (nr == R && !final) sx_reach("no final line break");
  if (used[4] && nr) sx_reach("unknown column");
  if (!used[1] && nr) sx_reach("missing column");
}

static void wide() {
  // header with many columns: up to 64 are accepted, more are rejected
  unsigned const n = 62 + sx::choose("columns", 6);
  unsigned const at = sx::choose("at", 3);
  unsigned const pos = at == 0 ? 0 : at == 1 ? 61 : n - 1;
  std::string h, row;
  for (unsigned i = 0; i < n; ++i) {
    if (i) { h += ','; row += ','; }
    h += i == pos ? "n" : "x";
    row += i == pos ? '7' : '1';
  }
  auto const txt = h + "\n" + row + "\n";
  bool threw = false;
  try {
    auto const v = read<std::tuple<int>>(cstr{txt}, {{"n"}});
    sx_assert(v.size() == 1 && std::get<0>(v[0]) == 7, "value of the named column in a wide table");
    sx_observe(std::get<0>(v[0]));
  } catch (std::runtime_error const&) { threw = true; }
  sx_assert(threw == (n > 64), "more than 64 columns are rejected, up to 64 accepted");
  if (threw) sx_reach("rejected"); else sx_reach("wide");
}

// numbers may stand behind blanks
static void blanks() {
  using N = std::tuple<double, int, float, bool, unsigned char, long>;
  static char const* const pre[] = {"", " ", "  "};
  auto const k = sx::choose("column", 6);
  auto const blank = pre[sx::choose("blanks", 3)];
  auto const d = sx::in<char>("digit", '0', '9');
  bool const quoted = sx::choose("quoted", 2);
  std::vector<char> w;
  put(w, "a,b,c,d,e,f\n");
  for (unsigned i = 0; i < 6; ++i) {
    if (i) w.push_back(',');
    if (quoted && i == k) w.push_back('"');
    if (i == k) put(w, blank);
    if (i == 3) put(w, "true");
    else if (i == 0 || i == 2) { w.push_back(d); put(w, ".5"); }
    else { w.push_back('1'); w.push_back(d); }
    if (quoted && i == k) w.push_back('"');
  }
  put(w, "\n");
  sx::bytes F(w.size(), "f");
  for (size_t i = 0; i < w.size(); ++i) F[i] = w[i];
  auto const v = read<N>(cstr{F.data(), F.size()}, {{"a", "b", "c", "d", "e", "f"}});
  sx_assert(v.size() == 1, "one row of numbers");
  auto const& [a, b, c, e, f, g] = v[0];
  int const n = d - '0';
  sx_assert(a == n + .5 && c == static_cast<float>(n) + .5F, "decimal behind blanks");
  sx_assert(b == 10 + n && f == 10 + n && g == 10 + n, "integer behind blanks");
  sx_assert(e, "bool behind blanks");
  sx_reach("blanks");
}

// very many rows
static void rows() {
  static unsigned const counts[] = {255, 256, 257, 4095, 32767, 32768};
  unsigned const k = counts[sx::choose("rows", sx::param("rows", 6))];
  std::vector<char> F(2 * k + 2, '\n');
  F[0] = 'n';
  auto const d = sx::in<char>("digit", '0', '9');
  for (unsigned i = 0; i < k; ++i) { F[2 * i + 2] = i == k / 2 ? d : '1'; F[2 * i + 3] = '\n'; }
  auto const v = read<std::tuple<int>>(cstr{F.data(), F.size()}, {{"n"}});
  sx_assert(v.size() == k, "one entry per row of a very long table");
  sx_assert(std::get<0>(v[k / 2]) == d - '0' && std::get<0>(v[k - 1]) == 1, "entries of a very long table");
  sx_reach("very many rows");
}

// many rows, long cells
static void large() {
  static unsigned const counts[] = {1, 2, 255, 256, 300}, lens[] = {0, 1, 15, 16, 255, 256, 300};
  unsigned const k = counts[sx::choose("rows", 5)], len = k < 3 ? lens[sx::choose("length", 7)] : 2;
  bool const crlf = sx::choose("crlf", 2), final = sx::choose("final", 2);
  std::vector<char> w;
  auto const eol = [&] { put(w, crlf ? "\r\n" : "\n"); };
  char const c = sx::any<char>("c"), d = sx::in<char>("digit", '0', '9');
  sx_assume(c != '\n' && c != '\r' && c != '"' && c != ',');
  put(w, "zz,name,n,id");
  eol();
  for (unsigned r = 0; r < k; ++r) {
    w.push_back('u');
    w.push_back(',');
    for (unsigned i = 0; i < len; ++i) w.push_back(i == len / 2 ? c : 'x');
    w.push_back(',');
    w.push_back(r == k / 2 ? d : static_cast<char>('0' + r % 10));
    w.push_back(',');
    w.push_back(static_cast<char>('A' + r % 26));
    if (r + 1 < k || final) eol();
  }
  sx::bytes F(w.size(), "f");
  for (size_t i = 0; i < w.size(); ++i) F[i] = w[i];
  auto const v = read<T>(cstr{F.data(), F.size()}, {{"id", "n", "name", "ok"}});
  sx_assert(v.size() == k, "one entry per data row of a large table");
  auto ok = v.size() == k;
  for (unsigned r = 0; r < v.size() && r < k; ++r) {
    auto const& [id, n, name, b] = v[r];
    ok &= id.len == 1 && id[0] == static_cast<char>('A' + r % 26);
    ok &= n == (r == k / 2 ? d - '0' : static_cast<int>(r % 10));
    ok &= name.size() == len && !b;
    for (unsigned i = 0; i < len && i < name.size(); ++i) ok &= name[i] == (i == len / 2 ? c : 'x');
  }
  sx_assert(ok, "fields of a large table");
  if (k > 255) sx_reach("many rows");
  if (len > 255) sx_reach("long cell");
}

extern "C" void sx_main() {
  if (sx::param("big", 0) == 2) return rows();
  if (sx::param("big", 0)) return large();
  if (sx::param("blanks", 0)) return blanks();
  if (sx::param("wide", 0)) return wide();
  if (sx::param("semi", 0)) table<';'>(); else table<','>();
}
