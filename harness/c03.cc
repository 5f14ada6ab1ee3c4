// C03: tokens and lines
#include "sx.h"
#include "utl/parser/cstr.h"
#include <vector>
using namespace utl;

struct seg { size_t from, len; };

// reference: maximal pieces between separators; no piece after a trailing separator
static unsigned ref_tokens(sx::bytes const& A, char sep, seg* out) {
  unsigned k = 0;
  size_t b = 0;
  size_t const L = A.size();
  for (size_t i = 0; i < L; ++i)
    if (A[i] == sep) { out[k++] = {b, i - b}; b = i + 1; }
  if (b < L) out[k++] = {b, L - b};
  return k;
}
static seg strip(sx::bytes const& A, seg s) { return s.len && A[s.from + s.len - 1] == '\r' ? seg{s.from, s.len - 1} : s; }
static void same(sx::bytes const& A, cstr v, seg s, char const* what) {
  sx_assert(v.len == s.len && (v.len == 0 || v.str == A.data() + s.from), what);
}

// many and long tokens / lines: the lengths are concrete, one byte in the
// middle of the text is symbolic
static void large() {
  static unsigned const counts[] = {1, 9, 255, 256, 257, 300}, lens[] = {0, 1, 255, 256, 257};
  unsigned const k = counts[sx::choose("tokens", 6)], len = k < 10 ? lens[sx::choose("length", 5)] : sx::choose("one", 2);
  bool const crlf = sx::choose("crlf", 2), last = len == 0 || sx::choose("terminated", 2);
  std::vector<char> t;
  std::vector<seg> want;
  char const c = sx::any<char>("c");
  sx_assume(c != '\n' && c != '\r');
  for (unsigned i = 0; i < k; ++i) {
    want.push_back({t.size(), len});
    for (unsigned j = 0; j < len; ++j) t.push_back(j == len / 2 ? c : 'x');
    if (i + 1 < k || last) {
      if (crlf) t.push_back('\r');
      t.push_back('\n');
    }
  }
  sx::bytes A(t.size(), "a");
  for (size_t i = 0; i < t.size(); ++i) A[i] = t[i];
  cstr const a{A.data(), A.size()};
  unsigned i = 0;
  for_each_line(a, [&](cstr l) { sx_assert(i < k, "no surplus line"); same(A, l, want[i++], "line callback"); });
  sx_assert(i == k, "all lines");
  i = 0;
  for_each_line_numbered(a, [&](cstr l, unsigned no) { same(A, l, want[i++], "numbered line"); sx_assert(no == i, "line number"); });
  sx_assert(i == k, "all numbered lines");
  i = 0;
  for (auto const& l : lines{a}) { sx_assert(i < k, "no surplus line in range"); same(A, l, want[i++], "line range"); }
  sx_assert(i == k, "range complete");
  i = 0;
  for_each_token_numbered(a, '\n', [&](cstr v, int no) {
    auto w = want[i++];
    if (crlf && (i < k || last)) ++w.len;
    same(A, v, w, "numbered token");
    sx_assert(no == static_cast<int>(i), "numbering counts from one");
  });
  sx_assert(i == k, "all numbered tokens");
  unsigned seen = 0;
  auto const rest = skip_lines(a, [&](cstr) { return ++seen < k; });
  sx_assert(rest.str == A.data() + want[k - 1].from && seen == k, "many lines skipped");
  sx_assert(get_line(a).len == len, "get_line of a long text");
  if (k > 255) sx_reach("many lines");
  if (len > 255) sx_reach("long lines");
}

extern "C" void sx_main() {
  if (sx::param("big", 0)) return large();
  unsigned const n = sx::param("n", 4);
  auto const mode = sx::choose("mode", 3);
  sx::bytes A(sx::choose("len", n + 1), "a");
  cstr a{A.data(), A.size()};
  seg ref[16];
  if (mode == 0) {
    char const sep = sx::any<char>("sep");
    unsigned const k = ref_tokens(A, sep, ref);
    unsigned i = 0;
    for_each_token(a, sep, [&](cstr t) {
      sx_assert(i < k, "no surplus token");
      same(A, t, ref[i], "token is the next piece");
      ++i;
    });
    sx_assert(i == k, "no token lost");
    unsigned j = 0;
    for_each_token_numbered(a, sep, [&](cstr t, int no) {
      same(A, t, ref[j], "numbered token");
      ++j;
      sx_assert(no == static_cast<int>(j), "numbering counts from one");
    });
    sx_assert(j == k, "numbered tokens complete");
    // early break
    unsigned const stop = sx::choose("stop", n + 1);
    unsigned b = 0;
    for_each_token(a, sep, [&](cstr t) {
      same(A, t, ref[b], "token before break");
      ++b;
      return b > stop ? continue_t::kBreak : continue_t::kContinue;
    });
    sx_assert(b == (k < stop + 1 ? k : stop + 1), "break stops immediately");
    sx_observe(k);
    sx_reach("tokens");
    // get_until
    auto g = get_until(a, sep);
    sx_assert(g.len == (k ? ref[0].len : 0) && (A.size() == 0 || g.str == A.data()), "get_until is the first piece");
  } else if (mode == 1) {
    unsigned const k = ref_tokens(A, '\n', ref);
    for (unsigned i = 0; i < k; ++i) ref[i] = strip(A, ref[i]);
    unsigned i = 0;
    for_each_line(a, [&](cstr l) { sx_assert(i < k, "no surplus line"); same(A, l, ref[i++], "line callback"); });
    sx_assert(i == k, "all lines");
    i = 0;
    for_each_line_numbered(a, [&](cstr l, unsigned no) { same(A, l, ref[i++], "numbered line"); sx_assert(no == i, "line number"); });
    sx_assert(i == k, "all numbered lines");
    i = 0;
    for (auto const& l : lines{a}) { sx_assert(i < k, "no surplus line in range"); same(A, l, ref[i++], "line range"); }
    sx_assert(i == k, "range complete");
    // post-increment and +
    auto it = lines{a}.begin();
    auto const end = lines{a}.end();
    for (unsigned j = 0; j < k; ++j) {
      sx_assert(it != end, "not at the end yet");
      auto ahead = lines{a}.begin() + static_cast<std::ptrdiff_t>(j);
      same(A, *ahead, ref[j], "begin + j is line j");
      auto old = it++;
      same(A, *old, ref[j], "post-increment returns the old line");
    }
    sx_assert(it == end, "end after the last line");
    auto g = get_line(a);
    sx_assert(g.len == (k ? ref[0].len : 0), "get_line is the first line");
    sx_observe(k);
    sx_reach("lines");
  } else {
    unsigned const k = ref_tokens(A, '\n', ref);
    unsigned const drop = sx::choose("drop", n + 1);
    unsigned seen = 0;
    seg raw[16];
    for (unsigned i = 0; i < k; ++i) { raw[i] = ref[i]; ref[i] = strip(A, ref[i]); }
    auto rest = skip_lines(a, [&](cstr l) {
      sx_assert(seen < k, "predicate gets lines only");
      same(A, l, ref[seen], "predicate gets the next line");
      return seen++ < drop;
    });
    size_t from = drop >= k ? A.size() : raw[drop].from;
    sx_assert(rest.len == A.size() - from, "rest starts at the first line kept");
    sx_assert(rest.len == 0 || rest.str == A.data() + from, "rest is the tail of the text");
    sx_observe(rest.len);
    sx_reach("skip");
  }
}
