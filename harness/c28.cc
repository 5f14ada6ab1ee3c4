// C28: byte buffers and file handles
#include "sx.h"
#include "utl/parser/file.h"
#include <sys/stat.h>
#include <cerrno>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
#include <exception>

// ---- file model: the calls succeed or fail as the solver likes
static unsigned char disk[20000];
static size_t disk_size;
static bool may_fail;
static unsigned faults;
struct handle { bool open; size_t pos; bool err; bool eof; bool writable; };
static handle hs[8];
static unsigned n_handles, n_open;
static bool fails() {
  if (!may_fail || !sx::fork(sx::any<bool>("iofail"))) return false;
  ++faults;
  return true;
}
static handle& get(FILE* f) {
  auto h = reinterpret_cast<handle*>(f);
  sx_assert(h >= hs && h < hs + n_handles, "a handle that was opened");
  sx_assert(h->open, "handle not used after close");
  return *h;
}
extern "C" {
FILE* SX_ENV(fopen)(char const* path, char const* mode) {
  sx_assert(path[0] == 'p' && path[1] == 0, "path as given");
  if (fails()) return nullptr;
  sx_assert(n_handles < 8, "number of open calls");
  auto& h = hs[n_handles++];
  h = {true, 0, false, false, mode[0] == 'w'};
  if (h.writable) disk_size = 0;
  ++n_open;
  return reinterpret_cast<FILE*>(&h);
}
int SX_ENV(fclose)(FILE* f) { get(f).open = false; --n_open; return 0; }
static int seek(FILE* f, long off, int whence) {
  auto& h = get(f);
  if (fails()) return -1;
  auto base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<long>(h.pos) : static_cast<long>(disk_size);
  if (base + off < 0) return -1;
  h.pos = static_cast<size_t>(base + off);
  h.eof = h.err = false;
  return 0;
}
int SX_ENV(fseek)(FILE* f, long off, int whence) { return seek(f, off, whence); }
int SX_ENV(fseeko)(FILE* f, long off, int whence) { return seek(f, off, whence); }
long SX_ENV(ftell)(FILE* f) { auto& h = get(f); return fails() ? -1 : static_cast<long>(h.pos); }
long SX_ENV(ftello)(FILE* f) { auto& h = get(f); return fails() ? -1 : static_cast<long>(h.pos); }
void SX_ENV(rewind)(FILE* f) { auto& h = get(f); h.pos = 0; h.err = h.eof = false; }
size_t SX_ENV(fread)(void* p, size_t sz, size_t n, FILE* f) {
  auto& h = get(f);
  if (h.err) return 0;  // an error stays until the position is set anew
  auto want = sz * n, have = h.pos < disk_size ? disk_size - h.pos : 0;
  auto k = want;
  if (k > have) { k = have; h.eof = true; }
  if (want > 0 && fails()) { h.err = true; k = k == 0 ? 0 : k > 100 ? (sx::choose("short", 2) ? k - 1 : 0) : sx::choose("short", static_cast<unsigned>(k < want ? k + 1 : k)); }
  if (k) memcpy(p, disk + h.pos, k);
  h.pos += k;
  return sz ? k / sz : 0;
}
size_t SX_ENV(fwrite)(void const* p, size_t sz, size_t n, FILE* f) {
  auto& h = get(f);
  if (h.err) return 0;
  auto want = sz * n, k = want;
  if (want > 0 && fails()) { h.err = true; k = want > 100 ? (sx::choose("short", 2) ? want - 1 : 0) : sx::choose("short", static_cast<unsigned>(want)); }
  sx_assert(h.pos + k <= sizeof disk, "write size");
  if (k) memcpy(disk + h.pos, p, k);
  h.pos += k;
  if (h.pos > disk_size) disk_size = h.pos;
  return sz ? k / sz : 0;
}
int SX_ENV(feof)(FILE* f) { return get(f).eof; }
int SX_ENV(ferror)(FILE* f) { return get(f).err; }
void SX_ENV(clearerr)(FILE* f) { auto& h = get(f); h.err = h.eof = false; }
int SX_ENV(fileno)(FILE* f) { get(f); return 100 + static_cast<int>(reinterpret_cast<handle*>(f) - hs); }
int SX_ENV(fstat)(int fd, struct stat* sb) {
  sx_assert(fd >= 100 && fd < 100 + static_cast<int>(n_handles) && hs[fd - 100].open, "descriptor of an open handle");
  if (fails()) return -1;
  memset(sb, 0, sizeof *sb);
  sb->st_size = static_cast<off_t>(disk_size);
  sb->st_mode = S_IFREG;
  return 0;
}
int SX_ENV(setvbuf)(FILE* f, char*, int, size_t) { get(f); return 0; }
int SX_ENV(fflush)(FILE* f) { get(f); return 0; }
}

// ---- buffers
struct mirror { unsigned char c[8]; unsigned n; };
static void fill(utl::buffer& b, mirror& m) {
  for (unsigned i = 0; i < m.n; ++i) { m.c[i] = sx::any<uint8_t>("c"); b.data()[i] = m.c[i]; }
}
static void same(utl::buffer const& b, mirror const& m) {
  sx_assert(b.size() == m.n, "size");
  for (unsigned i = 0; i < m.n; ++i) sx_assert(b.data()[i] == m.c[i], "contents");
  auto& w = const_cast<utl::buffer&>(b);
  sx_assert(w.begin() == w.data() && static_cast<size_t>(w.end() - w.begin()) == m.n, "begin and end");
}
static void make(std::unique_ptr<utl::buffer>& p, mirror& m, unsigned max) {
  m = {};
  switch (sx::choose("ctor", 4)) {
    case 0: p = std::make_unique<utl::buffer>(); break;
    case 1: {
      auto n = sx::choose("size", max + 1);
      p = std::make_unique<utl::buffer>(static_cast<size_t>(n));
      m.n = n;
      sx_assert(p->size() == n, "requested size");
      fill(*p, m);
      break;
    }
    case 2: {
      auto n = sx::choose("size", max + 1);
      sx::bytes s(n, "s");
      p = std::make_unique<utl::buffer>(s.data(), static_cast<size_t>(n));
      m.n = n;
      for (unsigned i = 0; i < n; ++i) m.c[i] = static_cast<unsigned char>(s[i]);
      break;
    }
    default: {
      auto n = sx::choose("size", max + 1);
      sx::bytes s(n + 1, "s");
      for (unsigned i = 0; i < n; ++i) sx_assume(s[i] != 0);
      sx_assume(s[n] == 0);
      s[n] = 0;
      p = std::make_unique<utl::buffer>(s.data());
      m.n = n;
      for (unsigned i = 0; i < n; ++i) m.c[i] = static_cast<unsigned char>(s[i]);
    }
  }
}
static void buffers() {
  unsigned const max = sx::param("max", 3), ops = sx::param("ops", 3);
  auto const base = sx_heap_live();
  bool const inject = sx::choose("inject", 2);
  {
    std::unique_ptr<utl::buffer> a, b;
    mirror ma{}, mb{};
    if (inject) sx_alloc_fail(1);
    try {
      make(a, ma, max);
      b = std::make_unique<utl::buffer>();
      for (unsigned k = 0; k < ops; ++k) {
        switch (sx::choose("op", 5)) {
          case 0: {
            auto n = sx::choose("new size", max + 2);
            size_t const want = n == max + 1 ? ~size_t{0} : n;
            try {
              a->resize(want);
              sx_assert(n <= max, "an impossible size is refused");
              sx_assert(a->size() == n, "resized");
              auto old = ma.n;
              ma.n = n;
              for (unsigned i = old; i < n; ++i) { ma.c[i] = sx::any<uint8_t>("c"); a->data()[i] = ma.c[i]; }
            } catch (std::bad_alloc const&) {
              sx_assert(inject || n > max, "only if memory is short");
              sx_reach("resize failed");
            }
            break;
          }
          case 1: {  // move construct
            auto t = utl::buffer{std::move(*a)};
            same(t, ma);
            sx_assert(a->size() == 0, "moved-from is empty");
            *a = std::move(t);
            break;
          }
          case 2: {  // move assign over contents
            auto const old = mb;
            *b = std::move(*a);
            mb = ma;
            // empty, or left with what it was exchanged for
            if (a->size() != 0) ma = old;
            else ma = {};
            break;
          }
          case 3: std::swap(*a, *b); std::swap(ma, mb); break;
          default: { auto& self = *a; *a = std::move(self); break; }
        }
        same(*a, ma);
        same(*b, mb);
      }
      sx_reach("buffer history");
    } catch (std::bad_alloc const&) {
      sx_assert(inject, "no memory");
      sx_reach("buffer allocation failed");
    } catch (std::runtime_error const&) {
      sx_assert(inject, "no memory");
      sx_reach("buffer construction failed");
    }
    sx_alloc_fail(0);
  }
  sx_assert(sx_heap_live() == base, "everything released exactly once");
}
// ---- files
static void read_files() {
  unsigned const max = sx::param("file", 3);
  disk_size = sx::choose("disk", max + 1);
  sx_sym(disk, disk_size ? disk_size : 1, "disk");
  auto const base = sx_heap_live();
  may_fail = true;
  unsigned good = 0;
  try {
    utl::file f{"p", "r"};
    sx_assert(faults == 0, "open failure reported");
    for (unsigned k = 0; k < sx::param("reads", 2); ++k) {
      auto const before = faults;
      auto const form = sx::choose("form", 3);
      try {
        if (form == 0) {
          auto s = f.content_str();
          sx_assert(faults == before, "failures are reported");
          sx_assert(s.size() == disk_size, "complete");
          for (size_t i = 0; i < disk_size; ++i) sx_assert(static_cast<unsigned char>(s[i]) == disk[i], "bytes of the file");
        } else if (form == 1) {
          auto b = f.content();
          sx_assert(faults == before, "failures are reported");
          sx_assert(b.size() == disk_size, "complete");
          for (size_t i = 0; i < disk_size; ++i) sx_assert(b.data()[i] == disk[i], "bytes of the file");
        } else {
          auto const n = f.size();
          sx_assert(faults == before, "failures are reported");
          sx_assert(n == disk_size, "size of the file");
        }
        ++good;
      } catch (std::runtime_error const&) {
        sx_assert(faults > before, "exception only on failure");
        sx_reach("file error");
      }
    }
    if (good) sx_reach("file read");
  } catch (std::runtime_error const&) {
    sx_assert(faults > 0 && n_handles == 0, "exception only on failure");
    sx_reach("open error");
  }
  sx_assert(n_open == 0, "every handle closed");
  sx_assert(sx_heap_live() == base, "no leak");
}
static void short_memory() {  // the buffer for the contents cannot be allocated
  disk_size = 3;
  sx_sym(disk, 3, "disk");
  auto const base = sx_heap_live();
  {
    utl::file f{"p", "r"};
    sx_alloc_fail(1);
    try {
      auto b = f.content();
      for (size_t i = 0; i < disk_size; ++i) sx_assert(b.data()[i] == disk[i], "bytes of the file");
    } catch (std::exception const&) {
      sx_reach("no memory for the contents");
    }
    sx_alloc_fail(0);
    auto s = f.content_str();
    sx_assert(s.size() == 3 && static_cast<unsigned char>(s[2]) == disk[2], "readable later");
  }
  sx_assert(n_open == 0 && sx_heap_live() == base, "released");
}
static void write_files() {
  may_fail = true;
  sx::bytes w(4, "w");
  unsigned const n0 = sx::choose("n0", 4), n1 = sx::choose("n1", 4);
  try {
    utl::file f{"p", "w+"};
    sx_assert(faults == 0, "open failure reported");
    f.write(w.data(), n0);
    sx_assert(faults == 0, "write failure reported");
    f.write(w.data() + 1, n1);
    sx_assert(faults == 0, "write failure reported");
    sx_assert(disk_size == n0 + n1, "all bytes written");
    for (unsigned i = 0; i < n0; ++i) sx_assert(disk[i] == static_cast<unsigned char>(w[i]), "bytes");
    for (unsigned i = 0; i < n1; ++i) sx_assert(disk[n0 + i] == static_cast<unsigned char>(w[1 + i]), "bytes");
    sx_reach("written");
  } catch (std::runtime_error const&) {
    sx_assert(faults > 0, "exception only on failure");
    sx_reach("write error");
  }
  sx_assert(n_open == 0, "closed");
}
static FILE* handle_of(std::unique_ptr<utl::file> const& f) { return f ? static_cast<FILE*>(*f) : nullptr; }
static void handles() {
  disk_size = 2;
  sx_sym(disk, 2, "disk");
  auto const base = sx_heap_live();
  {
    auto a = std::make_unique<utl::file>("p", "r");
    std::unique_ptr<utl::file> b;
    unsigned opened = 1;
    for (unsigned k = 0; k < sx::param("hops", 4); ++k) {
      switch (sx::choose("op", 6)) {
        case 0: if (handle_of(a)) sx_assert(a->size() == 2, "usable"); break;
        case 1: if (a) { b = std::make_unique<utl::file>(std::move(*a)); sx_assert(handle_of(a) != handle_of(b) || handle_of(b) == nullptr, "one owner"); } break;
        case 2: if (a && b) { auto was = handle_of(a); *b = std::move(*a); sx_assert(handle_of(b) == was, "handle handed over"); } break;
        case 3: a.reset(); break;
        case 4: if (opened < 3) { a = std::make_unique<utl::file>("p", "r"); ++opened; } break;
        default: if (a) { auto& s = *a; auto was = handle_of(a); *a = std::move(s); sx_assert(handle_of(a) == was, "self assignment"); } break;
      }
      unsigned owned = (handle_of(a) ? 1 : 0) + (handle_of(b) ? 1 : 0);
      sx_assert(owned == n_open, "open handles are exactly the owned ones");
    }
    sx_reach("handle history");
  }
  sx_assert(n_open == 0, "all closed");
  sx_assert(sx_heap_live() == base, "no leak");
}
static unsigned char pattern(size_t i) { return static_cast<unsigned char>(i ^ (i >> 8) ^ (i >> 4)); }
static void large_files() {  // sizes around the usual block sizes
  static size_t const sizes[] = {255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16385};
  auto const n = sizes[sx::choose("size", 11)];
  auto const form = sx::choose("form", 3);
  auto const base = sx_heap_live();
  bool done = false;
  {
    auto const src = std::make_unique<unsigned char[]>(n);
    for (size_t i = 0; i < n; ++i) src[i] = pattern(i);
    for (size_t i : {size_t{0}, n / 2, n - 1}) src[i] = sx::any<uint8_t>("byte");
    may_fail = sx::choose("io", 2);
    bool ok = true;
    try {
      if (form == 2) {
        utl::file f{"p", "w+"};
        f.write(src.get(), n);
        sx_assert(faults == 0 && disk_size == n, "all bytes written");
        for (size_t i = 0; i < n; ++i) ok &= disk[i] == src[i];
      } else {
        memcpy(disk, src.get(), n);
        disk_size = n;
        utl::file f{"p", "r"};
        if (form == 0) {
          auto const s = f.content_str();
          sx_assert(faults == 0 && s.size() == n, "complete");
          for (size_t i = 0; i < n; ++i) ok &= static_cast<unsigned char>(s[i]) == src[i];
        } else {
          auto const b = f.content();
          sx_assert(faults == 0 && b.size() == n, "complete");
          for (size_t i = 0; i < n; ++i) ok &= b.data()[i] == src[i];
        }
      }
      sx_assert(ok, "bytes of a large file");
      done = true;
    } catch (std::runtime_error const&) {
      sx_assert(faults > 0, "exception only on failure");
    }
  }
  if (done) sx_reach("large file");
  sx_assert(n_open == 0 && sx_heap_live() == base, "released");
}
extern "C" void sx_main() {
  switch (sx::choose("mode", 6)) {
    case 0: buffers(); break;
    case 1: read_files(); break;
    case 2: short_memory(); break;
    case 3: write_files(); break;
    case 4: handles(); break;
    default: large_files();
  }
}
