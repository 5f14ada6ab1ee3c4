// C12: buffered line reading
#include "sx.h"
#include "utl/parser/buf_reader.h"
#include <vector>
using namespace utl;

struct log_consumer {
  void operator()(std::size_t n) { v_->push_back(n); }
  std::vector<size_t>* v_;
};

// long lines and many lines; the lengths are concrete, the contents not
static void large() {
  static unsigned const counts[] = {1, 2, 300}, lens[] = {0, 1, 127, 255, 256, 257, 40000};
  unsigned const k = counts[sx::choose("lines", 3)], len = k > 2 ? 1 : lens[sx::choose("length", 7)];
  bool const last = len == 0 || sx::choose("terminated", 2);
  auto const L = static_cast<size_t>(k) * (len + 1) - (last ? 0 : 1);
  sx::bytes A(L, "a");
  char const c = sx::any<char>("c");
  sx_assume(c != '\n');
  for (size_t i = 0; i < L; ++i) A[i] = i % (len + 1) == len ? '\n' : i % (len + 1) == len / 2 ? c : 'x';
  std::vector<size_t> log;
  auto r = make_buf_reader(cstr{A.data(), L}, log_consumer{&log});
  for (size_t i = 0; i < k; ++i) {
    auto const l = r.read_line();
    sx_assert(l.str == A.data() + i * (len + 1) && l.len == len, "line is the next view up to the newline");
    auto const nls = i + 1 < k || last ? i + 1 : i;
    sx_assert(log.size() == nls && (nls == 0 || log.back() == nls * (len + 1)), "progress = bytes consumed, after every newline");
  }
  auto const e = r.read_line();
  sx_assert(!e.valid() && e.len == 0, "invalid view at the end");
  if (len > 255) sx_reach("long lines");
  if (k > 255) sx_reach("many lines");
}

extern "C" void sx_main() {
  if (sx::param("big", 0)) return large();
  sx::bytes A(sx::choose("len", sx::param("n", 6) + 1), "a");
  size_t const L = A.size();
  std::vector<size_t> log;
  auto r = make_buf_reader(cstr{A.data(), L}, log_consumer{&log});
  bool const move = sx::choose("move", 2);
  size_t pos = 0, nls = 0, lines = 0;
  while (pos < L) {
    if (move && lines == 1) { auto r2 = std::move(r); r = std::move(r2); }
    size_t e = pos;
    while (e < L && !sx::fork(A[e] == '\n')) ++e;
    auto const l = r.read_line();
    ++lines;
    sx_assert(l.str == A.data() + pos && l.len == e - pos, "line is the next view up to the newline");
    if (e < L) {
      ++nls;
      sx_assert(log.size() == nls && log.back() == e + 1, "progress = bytes consumed, after every newline");
    } else {
      sx_assert(log.size() == nls, "no progress call without a newline");
    }
    pos = e < L ? e + 1 : L;
  }
  for (int i = 0; i < 3; ++i) {
    auto const l = r.read_line();
    sx_assert(!l.valid() && l.len == 0, "invalid view at the end");
  }
  sx_assert(log.size() == nls, "no further progress calls");
  auto q = make_buf_reader(cstr{A.data(), L});
  size_t n = 0, bytes = 0;
  while (n < lines) { bytes += q.read_line().len; ++n; }
  sx_assert(!q.read_line().valid() && bytes + nls == L, "without consumer: lines and newlines make up the buffer");
  sx_observe(lines);
  if (nls > 1) sx_reach("lines");
  if (L && nls < lines) sx_reach("unterminated last line");
}
