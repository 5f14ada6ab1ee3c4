// Native side of sx.h: replays one test case (values chosen by the solver)
// against the real, natively compiled code.
#include "sx.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <exception>
#include <new>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>

extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void __real_free(void*);

#ifdef SX_SCHED
#include <malloc.h>
void sx_sched_load(std::vector<int> const&);
void sx_sched_start();
bool sx_sched_inside();
void sx_sched_fresh(void*, size_t);
#else
static bool sx_sched_inside() { return false; }
#endif

namespace {
struct Rec { char name[64]; unsigned len; unsigned char* data; };
Rec* g_in; unsigned g_n, g_pos;
struct Par { char name[64]; unsigned long long v; };
Par g_par[64]; unsigned g_npar;
int g_outfd = 1;
long g_live;
int g_fail_budget;
bool g_init;

void out(char const* f, ...) __attribute__((format(printf, 1, 2)));
void out(char const* f, ...) {
  char b[512];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n > 0) { auto r = syscall(SYS_write, g_outfd, b, (size_t)(n < (int)sizeof b ? n : sizeof b - 1)); (void)r; }
}
Rec* next(char const* name) {
  if (g_pos >= g_n) { out("DIVERGED input %s requested beyond the recorded ones\n", name); _exit(79); }
  auto r = &g_in[g_pos++];
  auto same = [&] {  // the case file has _ for blanks
    size_t i = 0;
    for (; name[i] && r->name[i]; ++i) if ((name[i] == ' ' ? '_' : name[i]) != r->name[i]) return false;
    return name[i] == r->name[i];
  };
  if (!same()) { out("DIVERGED input %s requested, %s recorded\n", name, r->name); _exit(79); }
  return r;
}
// pointers handed out by counted allocations
struct Set {
  void** t = nullptr;
  size_t cap = 0, n = 0;
  static size_t h(void* p) { return (reinterpret_cast<size_t>(p) >> 4) * 0x9E3779B97F4A7C15ULL; }
  void grow() {
    auto o = t;
    auto oc = cap;
    cap = cap ? cap * 2 : 4096;
    t = static_cast<void**>(__real_calloc(cap, sizeof(void*)));
    n = 0;
    for (size_t i = 0; i < oc; ++i) if (o[i] && o[i] != (void*)1) add(o[i]);
    __real_free(o);
  }
  void add(void* p) {
    if ((n + 1) * 2 > cap) grow();
    size_t i = h(p) & (cap - 1);
    while (t[i]) i = (i + 1) & (cap - 1);
    t[i] = p;
    ++n;
  }
  bool del(void* p) {
    if (!cap) return false;
    size_t i = h(p) & (cap - 1);
    while (t[i]) { if (t[i] == p) { t[i] = (void*)1; return true; } i = (i + 1) & (cap - 1); }
    return false;
  }
} g_set;

bool from_harness(void* ra) {
  static void* base = nullptr;
  Dl_info i;
  if (!base) { if (dladdr((void*)&sx_main, &i)) base = i.dli_fbase; }
  return dladdr(ra, &i) && i.dli_fbase == base;
}
bool inject() {
  if (!g_fail_budget) return false;
  auto r = next("allocfail");
  if (r->data[0] == 1) { if (g_fail_budget > 0) --g_fail_budget; return true; }
  return false;
}
constexpr size_t BIG = (size_t(1) << 20) - 2 * 0x1000;
void* get(size_t n, void* ra, bool thr) {
  if (!g_init || sx_sched_inside() || !from_harness(ra)) return __real_malloc(n);
  if (n > BIG || inject()) { if (thr) throw std::bad_alloc(); return nullptr; }
  auto p = __real_malloc(n);
  ++g_live;
  g_set.add(p);
#ifdef SX_SCHED
  sx_sched_fresh(p, n);
#endif
  return p;
}
void put(void* p) {
#ifdef SX_SCHED
  if (p) sx_sched_fresh(p, malloc_usable_size(p));
#endif
  if (p && g_set.del(p)) --g_live;
  __real_free(p);
}
}  // namespace

extern "C" {
void sx_sym(void* p, size_t n, char const* name) {
  auto r = next(name);
  if (r->len != n) { out("DIVERGED input %s has %u bytes, %zu requested\n", name, r->len, n); _exit(79); }
  memcpy(p, r->data, n);
}
uint64_t sx_sym_int(unsigned n, char const* name) {
  auto r = next(name);
  uint64_t v = 0;
  memcpy(&v, r->data, n < r->len ? n : r->len);
  return v;
}
void sx_assume(bool b) { if (!b) { out("INFEASIBLE\n"); _exit(78); } }
void sx_assert(bool b, char const* w) { if (!b) { out("VIOL assert %s\n", w); _exit(77); } }
void sx_fail(char const* w) { out("VIOL assert %s\n", w); _exit(77); }
void sx_reach(char const*) {}
void sx_observe(uint64_t v) { out("OBS %llx\n", (unsigned long long)v); }
uint64_t sx_param(char const* name, uint64_t d) {
  for (unsigned i = 0; i < g_npar; ++i) if (!strcmp(g_par[i].name, name)) return g_par[i].v;
  return d;
}
uint64_t sx_concretize(uint64_t v) { return v; }
uint64_t sx_heap_live() { return static_cast<uint64_t>(g_live); }
void sx_alloc_fail(int b) { g_fail_budget = b; }
int sx_is_native() { return 1; }
void sx_print(char const* n, uint64_t v) { fprintf(stderr, "[sx] %s = %llx\n", n, (unsigned long long)v); }
#ifndef SX_SCHED
void sx_yield() {}
void sx_idle() {}
#endif
void* __wrap_malloc(size_t n) { return get(n, __builtin_return_address(0), false); }
void* __wrap_calloc(size_t a, size_t b) {
  auto p = get(a * b, __builtin_return_address(0), false);
  if (p) memset(p, 0, a * b);
  return p;
}
void __wrap_free(void* p) { put(p); }
void* __wrap_realloc(void* p, size_t n) {
  auto ra = __builtin_return_address(0);
  if (!g_init || !from_harness(ra)) return __real_realloc(p, n);
  if (n > BIG || inject()) return nullptr;
  if (p && n == 0) { put(p); return nullptr; }
  bool counted = p && g_set.del(p);
  auto q = __real_realloc(p, n);
  if (!counted) ++g_live;
  if (q) g_set.add(q);
  return q;
}
}
void* operator new(size_t n) { return get(n, __builtin_return_address(0), true); }
void* operator new[](size_t n) { return get(n, __builtin_return_address(0), true); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return get(n, __builtin_return_address(0), false); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return get(n, __builtin_return_address(0), false); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { put(p); }

int main(int argc, char** argv) {
  // case file: "P name value" | "I name hex" | "S n n n ..."
  // raw system calls: the harness may replace the library functions
  auto fd = argc > 1 ? syscall(SYS_openat, AT_FDCWD, argv[1], O_RDONLY) : 0;
  if (fd < 0) return 3;
  std::string text;
  static char chunk[1 << 16];
  for (long k; (k = syscall(SYS_read, fd, chunk, sizeof chunk)) > 0;) text.append(chunk, (size_t)k);
  static char line[1 << 20];
  size_t at = 0;
  auto next_line = [&] {
    if (at >= text.size()) return false;
    auto nl = text.find('\n', at);
    if (nl == std::string::npos) nl = text.size();
    auto l = std::min(nl - at, sizeof line - 1);
    memcpy(line, text.data() + at, l);
    line[l] = 0;
    at = nl + 1;
    return true;
  };
  std::vector<int> sched;
  while (next_line()) {
    char name[64];
    if (line[0] == 'P') {
      unsigned long long v;
      if (sscanf(line, "P %63s %llu", name, &v) == 2) { strcpy(g_par[g_npar].name, name); g_par[g_npar++].v = v; }
    } else if (line[0] == 'I') {
      int off = 0;
      if (sscanf(line, "I %63s%n", name, &off) < 1) continue;
      auto h = line + off;
      while (*h == ' ') ++h;
      g_in = (Rec*)__real_realloc(g_in, sizeof(Rec) * (g_n + 1));
      auto& r = g_in[g_n++];
      strcpy(r.name, name);
      size_t l = strspn(h, "0123456789abcdef") / 2;
      r.len = (unsigned)l;
      r.data = (unsigned char*)__real_malloc(l + 1);
      for (size_t i = 0; i < l; ++i) { unsigned v; sscanf(h + 2 * i, "%2x", &v); r.data[i] = (unsigned char)v; }
    } else if (line[0] == 'S') {
      for (char* t = strtok(line + 1, " \n"); t; t = strtok(nullptr, " \n")) sched.push_back(atoi(t));
    }
  }
  syscall(SYS_close, fd);
  // the harness may replace functions such as write/close: keep a private copy of stdout
#ifdef SX_SCHED
  sx_sched_load(sched);
  sx_sched_start();
#endif
  g_init = true;
  try {
    sx_main();
  } catch (std::exception const& e) {
    out("VIOL exception escapes: %s\n", typeid(e).name());
    _exit(77);
  } catch (...) {
    out("VIOL exception escapes\n");
    _exit(77);
  }
  g_init = false;
  if (g_pos != g_n) { out("DIVERGED %u of %u inputs consumed\n", g_pos, g_n); _exit(79); }
  out("DONE\n");
  _exit(0);
}
