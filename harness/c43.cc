// C43: read_file and for_each_line_in_file over files with any contents, files
// that do not exist and directories.
#include "sx.h"
#include <algorithm>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>
#include "sx_io.h"
#include "utl/for_each_line_in_file.h"
#include "utl/read_file.h"

static std::string contents() {
  auto const n = sx::param("n", 4), pad = sx::param("pad", 0), k = sx::choose("length", n + 1);
  std::string s;  // a long file: the symbolic part lies around the stream's buffer size
  s.reserve(pad + k);
  for (auto i = 0U; i < pad; ++i) s += static_cast<char>('A' + i % 59);
  for (auto i = 0U; i < k; ++i) s += sx::any<char>("byte");
  return s;
}

static char const* const names[] = {"-x", "--", "x-", "a b", "-.csv"};
static void whole() {
  auto const kind = sx::choose("kind", 3);
  auto const s = kind == 0 ? contents() : std::string{};
  sx::io io;
  auto const odd = kind == 0 && sx::param("pad", 0) == 0 ? sx::choose("name", 6) : 0;
  auto const path = odd != 0 ? io.file(s, names[odd - 1]) : kind == 0 ? io.file(s) : kind == 1 ? io.missing() : io.directory();
  auto const r = utl::read_file(path.c_str());
  sx_assert(r.has_value() == (kind == 0), "a value exactly if the file can be read");
  if (kind == 0) {
    sx_assert(r->size() == s.size(), "all bytes");
    auto same = r->size() == s.size();
    auto const pad = std::min({size_t{sx::param("pad", 0)}, s.size(), r->size()});
    if (pad != 0) same &= std::memcmp(r->data(), s.data(), pad) == 0;
    for (size_t i = pad; i < s.size() && i < r->size(); ++i) same &= (*r)[i] == s[i];
    sx_assert(same, "exactly the bytes");
    if (!s.empty()) sx_reach("contents read"); else sx_reach("empty file");
  } else if (kind == 1) sx_reach("missing file");
  else sx_reach("directory");
  sx_assert(io.closed(), "the file is closed again");
}

static void lines() {
  auto const kind = sx::choose("kind", 3);  // file, missing, standard input
  auto const s = kind == 1 ? std::string{} : contents();
  sx::io io;
  auto const odd = kind == 0 && sx::param("pad", 0) == 0 ? sx::choose("name", 6) : 0;
  auto const path = odd != 0 ? io.file(s, names[odd - 1]) : kind == 0 ? io.file(s) : kind == 1 ? io.missing() : std::string{"-"};
  if (kind == 2) io.stdin_is(s);
  std::vector<std::string> got;
  utl::for_each_line_in_file(path, [&](std::string const& l) { got.push_back(l); });
  // reference: pieces between line breaks; a trailing break ends the last line
  size_t at = 0, n = 0;
  while (at < s.size()) {
    size_t e = at;
    while (e < s.size() && !sx::fork(s[e] == '\n')) ++e;
    sx_assert(n < got.size(), "no line is missing");
    if (n >= got.size()) return;
    sx_assert(got[n].size() == e - at, "the line has the right length");
    auto same = got[n].size() == e - at;
    auto const pad = std::min({at == 0 ? size_t{sx::param("pad", 0)} : 0, e - at, got[n].size()});
    if (pad != 0) same &= std::memcmp(got[n].data(), s.data(), pad) == 0;
    for (size_t i = pad; i < e - at && i < got[n].size(); ++i) same &= got[n][i] == s[at + i];
    sx_assert(same, "the line has the right contents");
    ++n;
    at = e + 1;
  }
  sx_assert(got.size() == n, "no additional line");
  if (n > 1) sx_reach("several lines");
  if (kind == 1) sx_reach("no lines of a missing file");
  if (kind == 2 && n != 0) sx_reach("lines of standard input");
  sx_assert(io.closed(), "the file is closed again");
}

extern "C" void sx_main() {
  if (sx::param("mode", 0) == 0) whole(); else lines();
}
