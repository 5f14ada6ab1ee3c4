// C08: quoting and unquoting
#include "sx.h"
#include "utl/parser/csv.h"
#include <string>
#include <string_view>
#include <vector>
using namespace utl;

template <char Sep>
static void check(sx::bytes& V, bool quoted, unsigned ctx) {
  size_t const L = V.size();
  for (size_t i = 0; i < L; ++i) {
    sx_assume(V[i] != '\n' && V[i] != '\r');
    if (!quoted) sx_assume(V[i] != '"' && V[i] != Sep);
  }
  // write
  std::vector<char> w;
  if (quoted) w.push_back('"');
  for (size_t i = 0; i < L; ++i) {
    if (quoted && sx::fork(V[i] == '"')) w.push_back('"');
    w.push_back(V[i]);
  }
  if (quoted) w.push_back('"');
  size_t const written = w.size();
  static char const tails[][5] = {{Sep, 'x'}, {Sep, '"', 'y', '"'}, {'\n', 'z'}, {'\r', '\n'}, {'\r', '\n', '"'}, {}};
  char const* const tail = tails[ctx];
  size_t const tl = std::strlen(tail);
  for (size_t i = 0; i < tl; ++i) w.push_back(tail[i]);
  // exactly sized copy
  sx::bytes F(w.size(), "f");
  for (size_t i = 0; i < w.size(); ++i) F[i] = w[i];
  cstr s{F.data(), F.size()};
  cstr col;
  parse_column<cstr, Sep>(s, col);
  std::string x;
  parse_value(col, x);
  sx_assert(x.size() == L, "length");
  for (size_t i = 0; i < L; ++i) sx_assert(x[i] == V[i], "byte");
  size_t const used = F.size() - s.len;
  bool const at = used == written || (!quoted && tail[0] == '\r' && used == written + 1);
  sx_assert(at && s.str == F.data() + used, "cursor at the separator / line end");
  cista::raw::generic_string g;
  parse_value(col, g);
  sx_assert(std::string_view(g) == x, "generic_string agrees");
  sx_observe(x.size());
  sx::observe_bytes(x.data(), x.size());
  if (quoted && written > L + 2) sx_reach("embedded quote");
  if (!quoted) sx_reach("unquoted");
}

extern "C" void sx_main() {
  if (sx::param("big", 0)) {  // long values: a few bytes are symbolic
    static unsigned const lens[] = {14, 15, 16, 17, 63, 64, 255, 256, 257};
    unsigned const L = lens[sx::choose("length", 9)], k = sx::param("big", 0);
    sx::bytes V(L, "v");
    unsigned const from = sx::choose("at", 3) * (L - k) / 2;
    for (unsigned i = 0; i < L; ++i) if (i < from || i >= from + k) V[i] = static_cast<char>('a' + i % 26);
    sx_reach("long value");
    return check<','>(V, sx::choose("quoted", 2), sx::choose("ctx", 6));
  }
  sx::bytes V(sx::choose("len", sx::param("n", 4) + 1), "v");
  bool const q = sx::choose("quoted", 2);
  auto const ctx = sx::choose("ctx", 6);
  switch (sx::choose("sep", 3)) {
    case 0: check<','>(V, q, ctx); break;
    case 1: check<';'>(V, q, ctx); break;
    case 2: check<'\t'>(V, q, ctx); break;
  }
}
