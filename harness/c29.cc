// C29: memory-mapped reader
#include "sx.h"
#include <algorithm>
#include "utl/parser/buf_reader.h"
#include "utl/parser/mmap_reader_unix.h"
#include <cstdarg>
#include <memory>
#include <stdexcept>
#include <utility>

// ---- system call model
static size_t file_size, other_size;  // of p and q; q holds the same bytes as far as it goes
static size_t fd_size[8];
static off_t fd_pos[8];
static unsigned char bytes[16];
static bool may_fail;
static unsigned faults, n_open, n_opened, n_maps;
static bool fd_open[8];
static int first_fd;  // 0 if standard input has been closed
static void* maps[8];
static size_t map_len[8];
static bool fails() {
  if (!may_fail || !sx::fork(sx::any<bool>("sysfail"))) return false;
  ++faults;
  return true;
}
static unsigned index_of(int fd) {
  sx_assert(fd >= first_fd && fd < first_fd + static_cast<int>(n_opened), "a descriptor that was opened");
  sx_assert(fd_open[fd - first_fd], "descriptor not used after close");
  return static_cast<unsigned>(fd - first_fd);
}
extern "C" {
int SX_ENV(open)(char const* p, int flags, ...) {
  sx_assert((p[0] == 'p' || p[0] == 'q') && p[1] == 0, "path as given");
  sx_assert((flags & O_ACCMODE) == O_RDONLY && (flags & (O_CREAT | O_TRUNC)) == 0, "opened for reading");
  if (fails()) return -1;
  sx_assert(n_opened < 8, "number of open calls");
  fd_open[n_opened] = true;
  fd_size[n_opened] = p[0] == 'p' ? file_size : other_size;
  ++n_open;
  return first_fd + static_cast<int>(n_opened++);
}
int SX_ENV(close)(int fd) { fd_open[index_of(fd)] = false; --n_open; return 0; }
off_t SX_ENV(lseek)(int fd, off_t off, int whence) {
  auto const i = index_of(fd);
  if (fails()) return -1;
  auto const base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? fd_pos[i] : static_cast<off_t>(fd_size[i]);
  return fd_pos[i] = base + off;
}
int SX_ENV(madvise)(void*, size_t, int) { return 0; }
int SX_ENV(posix_madvise)(void*, size_t, int) { return 0; }
int SX_ENV(posix_fadvise)(int fd, off_t, off_t, int) { index_of(fd); return 0; }
int SX_ENV(fstat)(int fd, struct stat* sb) {
  auto const i = index_of(fd);
  if (fails()) return -1;
  memset(sb, 0, sizeof *sb);
  sb->st_size = static_cast<off_t>(fd_size[i]);
  sb->st_mode = S_IFREG;
  return 0;
}
void* SX_ENV(mmap)(void*, size_t len, int prot, int flags, int fd, off_t off) {
  auto const f = index_of(fd);
  sx_assert(prot == PROT_READ && off == 0, "mapped for reading from the start");
  if (len == 0 || fails()) { if (len == 0) ++faults; return MAP_FAILED; }
  sx_assert(len == fd_size[f], "whole file mapped");
  for (unsigned i = 0; i < 8; ++i)
    if (!maps[i]) {
      auto p = malloc(len);
      memcpy(p, bytes, len);
      maps[i] = p;
      map_len[i] = len;
      ++n_maps;
      return p;
    }
  sx_fail("number of mappings");
  return nullptr;
}
int SX_ENV(munmap)(void* p, size_t len) {
  for (unsigned i = 0; i < 8; ++i)
    if (maps[i] && maps[i] == p) {
      sx_assert(map_len[i] == len, "unmapped with its own length");
      free(p);
      maps[i] = nullptr;
      --n_maps;
      return 0;
    }
  sx_fail("unmap of something that is not mapped");
  return -1;
}
}
static void setup(size_t n) {
  file_size = n;
  if (n) sx_sym(bytes, n, "bytes");
}
static void at(utl::mmap_reader const& r, size_t consumed) {
  sx_assert(r.progress() == (file_size == 0 ? 1.F : static_cast<float>(consumed) / static_cast<float>(file_size)), "progress is consumed / size");
}
static void contents(utl::cstr s, size_t from, size_t n) {
  sx_assert(s.length() == n, "length");
  for (size_t i = 0; i < n; ++i) sx_assert(static_cast<unsigned char>(s[i]) == bytes[from + i], "bytes of the file");
}
// any mixture of block and line reads
static void reads() {
  setup(sx::choose("n", sx::param("n", 3) + 1));
  {
    utl::mmap_reader r{"p"};
    size_t pos = 0;
    at(r, 0);
    for (unsigned k = 0; k < sx::param("ops", 3); ++k) {
      switch (sx::choose("op", 3)) {
        case 0: {
          auto const want = sx::any<uint64_t>("want");
          auto const rest = file_size - pos;
          auto const s = r.read(want);
          auto const n = sx_concretize(want < rest ? want : rest);
          contents(s, pos, n);
          pos += n;
          sx_reach("block");
          break;
        }
        case 1: {
          auto const s = r.read_line();
          if (pos == file_size) {
            sx_assert(s.c_str() == nullptr && s.length() == 0, "nothing after the end");
            sx_reach("end");
            break;
          }
          auto e = pos;
          while (e < file_size && bytes[e] != '\n') ++e;
          contents(s, pos, e - pos);
          sx_assert(s.c_str() != nullptr, "a line");
          pos = e < file_size ? e + 1 : e;
          sx_reach("line");
          break;
        }
        default: {
          auto t = std::move(r);
          at(t, pos);
          r = std::move(t);
        }
      }
      at(r, pos);
    }
  }
  sx_assert(n_open == 0 && n_maps == 0, "descriptor and mapping released");
}
// same lines as the in-memory reader
static void agree() {
  setup(sx::choose("n", sx::param("lines", 4) + 1));
  {
    utl::mmap_reader r{"p"};
    char copy[16];
    memcpy(copy, bytes, sizeof copy);
    utl::buf_reader b{utl::cstr{copy, file_size}};
    for (unsigned k = 0; k <= file_size; ++k) {
      auto const x = r.read_line();
      auto const y = b.read_line();
      sx_assert((x.c_str() == nullptr) == (y.c_str() == nullptr), "same number of lines");
      if (!x.c_str()) break;
      sx_assert(x.length() == y.length(), "same line length");
      for (size_t i = 0; i < x.length(); ++i) sx_assert(x[i] == y[i], "same line");
    }
    sx_assert(r.read_line().c_str() == nullptr, "end");
    at(r, file_size);
    sx_reach("same lines");
  }
  sx_assert(n_open == 0 && n_maps == 0, "released");
}
// construct / move / assign / destroy with failing system calls
static void ownership() {
  setup(sx::choose("n", 3));
  other_size = sx::choose("other", 2) ? 0 : file_size + 1;
  sx_sym(bytes, file_size + 1, "bytes");
  auto const base = sx_heap_live();
  may_fail = true;
  {
    std::unique_ptr<utl::mmap_reader> r[2];
    enum { none, owns, may_own } st[2] = {none, none};  // an assignment may release or hand over what it replaces
    for (unsigned k = 0; k < sx::param("hops", 4); ++k) {
      auto const i = sx::choose("slot", 2);
      auto& a = r[i];
      auto& b = r[1 - i];
      switch (sx::choose("op", 5)) {
        case 0: {
          if (n_opened >= 3) break;
          auto const before = faults, maps_before = n_maps, open_before = n_open;
          try {
            bool const q = sx::choose("file", 2);
            auto p = std::make_unique<utl::mmap_reader>(q ? "q" : "p");
            sx_assert(faults == before, "failures are reported");
            contents(p->read(9), 0, q ? other_size : file_size);
            a = std::move(p);
            st[i] = owns;
            sx_reach("opened");
          } catch (std::runtime_error const&) {
            sx_assert(faults > before, "exception only on failure");
            sx_assert(n_open == open_before && n_maps == maps_before, "failed construction releases everything");
            sx_reach("failed");
          }
          break;
        }
        case 1: if (a) { b = std::make_unique<utl::mmap_reader>(std::move(*a)); a.reset(); st[1 - i] = st[i]; st[i] = none; } break;
        case 2: if (a && b) { auto const was = st[1 - i]; *b = std::move(*a); st[1 - i] = st[i]; st[i] = was == none ? none : may_own; } break;
        case 3: a.reset(); st[i] = none; break;
        default: if (a) { auto& s = *a; *a = std::move(s); } break;
      }
      unsigned least = 0, most = 0;
      for (auto const x : st) { least += x == owns; most += x != none; }
      unsigned mapped = 0;
      for (unsigned f = 0; f < n_opened; ++f) mapped += fd_open[f] && fd_size[f] != 0;
      sx_assert(n_open >= least && n_open <= most && n_maps == mapped, "open resources are exactly the owned ones");
      for (unsigned j = 0; j < 2; ++j) if (st[j] == owns) sx_assert(r[j]->progress() == 1.F, "still at its end");
    }
  }
  sx_assert(n_open == 0 && n_maps == 0, "descriptors and mappings released");
  sx_assert(sx_heap_live() == base, "no leak");
}
extern "C" void sx_main() {
  first_fd = sx::choose("first", 2) ? 10 : 0;
  switch (sx::choose("mode", 3)) {
    case 0: reads(); break;
    case 1: agree(); break;
    default: ownership();
  }
}
