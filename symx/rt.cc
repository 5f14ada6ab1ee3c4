// Model of the parts of the C/C++ runtime library that are not header code.
// Compiled to bitcode and linked with every harness.
#include <cerrno>
#include <chrono>
#include <ctime>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <functional>
#include <list>
#include <pthread.h>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include "sx.h"

extern "C" {
int sx_mutex_lock(void*);
int sx_mutex_trylock(void*);
int sx_mutex_unlock(void*);
void sx_cv_wait(void* cv, void* m);
void sx_cv_notify_one(void*);
void sx_cv_notify_all(void*);
int sx_thread_create(void* (*)(void*), void*);
void sx_thread_join(int);
int sx_thread_self();

size_t strlen(char const* s) { size_t n = 0; while (s[n]) ++n; return n; }
void* sx_memchr(void const* p, int c, size_t n) __asm__("memchr");
void* sx_memchr(void const* p, int c, size_t n) {
  auto s = static_cast<unsigned char const*>(p);
  for (size_t i = 0; i < n; ++i) if (s[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char*>(s + i);
  return nullptr;
}
int strcmp(char const* a, char const* b) {
  for (;; ++a, ++b) {
    if (*a != *b) return static_cast<unsigned char>(*a) < static_cast<unsigned char>(*b) ? -1 : 1;
    if (!*a) return 0;
  }
}
int strncmp(char const* a, char const* b, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    if (a[i] != b[i]) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]) ? -1 : 1;
    if (!a[i]) return 0;
  }
  return 0;
}
char* sx_strchr(char const* s, int c) __asm__("strchr");
char* sx_strchr(char const* s, int c) {
  for (;; ++s) {
    if (*s == static_cast<char>(c)) return const_cast<char*>(s);
    if (!*s) return nullptr;
  }
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isblank(int c) { return c == ' ' || c == 9; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }

size_t strnlen(char const* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char* strcpy(char* d, char const* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* stpcpy(char* d, char const* s) { while ((*d = *s++)) ++d; return d; }
char* strncpy(char* d, char const* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
char* strcat(char* d, char const* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, char const* s, size_t n) {
  char* p = d + strlen(d);
  while (n-- && *s) *p++ = *s++;
  *p = 0;
  return d;
}
char* strdup(char const* s) {
  auto const n = strlen(s) + 1;
  auto p = static_cast<char*>(malloc(n));
  return static_cast<char*>(memcpy(p, s, n));
}
void* mempcpy(void* d, void const* s, size_t n) { memcpy(d, s, n); return static_cast<char*>(d) + n; }
size_t strspn(char const* s, char const* a) {
  size_t n = 0;
  for (; s[n]; ++n) { char const* p = a; while (*p && *p != s[n]) ++p; if (!*p) break; }
  return n;
}
size_t strcspn(char const* s, char const* a) {
  size_t n = 0;
  for (; s[n]; ++n) { char const* p = a; while (*p && *p != s[n]) ++p; if (*p) break; }
  return n;
}
char* sx_strpbrk(char const* s, char const* a) __asm__("strpbrk");
char* sx_strpbrk(char const* s, char const* a) { s += strcspn(s, a); return *s ? const_cast<char*>(s) : nullptr; }
void* sx_memmem(void const* h, size_t n, void const* x, size_t m) __asm__("memmem");
void* sx_memmem(void const* h, size_t n, void const* x, size_t m) {
  for (size_t i = 0; m <= n && i <= n - m; ++i)
    if (memcmp(static_cast<char const*>(h) + i, x, m) == 0) return static_cast<char*>(const_cast<void*>(h)) + i;
  return nullptr;
}
char* sx_strstr(char const* s, char const* t) __asm__("strstr");
char* sx_strstr(char const* s, char const* t) { return static_cast<char*>(sx_memmem(s, strlen(s), t, strlen(t))); }
void* sx_memrchr(void const* p, int c, size_t n) __asm__("memrchr");
void* sx_memrchr(void const* p, int c, size_t n) {
  auto s = static_cast<unsigned char const*>(p);
  while (n--) if (s[n] == static_cast<unsigned char>(c)) return const_cast<unsigned char*>(s + n);
  return nullptr;
}
int strncasecmp(char const* a, char const* b, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    int const x = tolower(static_cast<unsigned char>(a[i])), y = tolower(static_cast<unsigned char>(b[i]));
    if (x != y) return x - y;
    if (!x) return 0;
  }
  return 0;
}
int strcasecmp(char const* a, char const* b) { return strncasecmp(a, b, ~size_t{0}); }

static int sx_err;
int* __errno_location() { return &sx_err; }
// value of the digits at s (sign and base prefix as in strtol), saturated
static unsigned long sx_strto(char const* s, char** end, int base, bool& neg, bool& over) {
  char const* const s0 = s;
  while (isspace(static_cast<unsigned char>(*s))) ++s;
  neg = *s == '-';
  if (*s == '-' || *s == '+') ++s;
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit(static_cast<unsigned char>(s[2]))) { s += 2; base = 16; }
  else if (base == 0) base = s[0] == '0' ? 8 : 10;
  unsigned long v = 0;
  bool any = false;
  over = false;
  for (;; ++s) {
    int const c = static_cast<unsigned char>(*s);
    int const d = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99;
    if (d >= base) break;
    any = true;
    unsigned long p, q;
    if (__builtin_mul_overflow(v, static_cast<unsigned long>(base), &p) || __builtin_add_overflow(p, static_cast<unsigned long>(d), &q)) { over = true; continue; }
    v = q;
  }
  if (end) *end = const_cast<char*>(any ? s : s0);
  return v;
}
static long sx_stol(char const* s, char** e, int b) {
  bool neg, over;
  auto const v = sx_strto(s, e, b, neg, over);
  auto const lim = neg ? 0x8000000000000000UL : 0x7fffffffffffffffUL;
  if (over || v > lim) { sx_err = ERANGE; return static_cast<long>(lim); }
  return static_cast<long>(neg ? 0 - v : v);
}
static unsigned long sx_stoul(char const* s, char** e, int b) {
  bool neg, over;
  auto const v = sx_strto(s, e, b, neg, over);
  if (over) { sx_err = ERANGE; return ~0UL; }
  return neg ? 0 - v : v;
}
long strtol(char const* s, char** e, int b) { return sx_stol(s, e, b); }
long long strtoll(char const* s, char** e, int b) { return sx_stol(s, e, b); }
unsigned long strtoul(char const* s, char** e, int b) { return sx_stoul(s, e, b); }
unsigned long long strtoull(char const* s, char** e, int b) { return sx_stoul(s, e, b); }

int pthread_mutex_lock(pthread_mutex_t* m) { return sx_mutex_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return sx_mutex_trylock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return sx_mutex_unlock(m); }
int pthread_mutex_init(pthread_mutex_t*, pthread_mutexattr_t const*) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { sx_cv_wait(c, m); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { sx_cv_notify_one(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { sx_cv_notify_all(c); return 0; }
unsigned long pthread_self() { return static_cast<unsigned long>(sx_thread_self()) + 1; }
__attribute__((weak)) int pthread_setname_np(unsigned long, char const*) { return 0; }
__attribute__((weak)) time_t time(time_t* p) { if (p) *p = 1318060029; return 1318060029; }
tm* gmtime_r(time_t const* p, tm* t) {
  memset(t, 0, sizeof *t);
  long const secs = static_cast<long>(sx_concretize(static_cast<uint64_t>(*p)));
  long days = secs / 86400, rem = secs % 86400;
  if (rem < 0) { rem += 86400; --days; }
  t->tm_hour = static_cast<int>(rem / 3600);
  t->tm_min = static_cast<int>(rem / 60 % 60);
  t->tm_sec = static_cast<int>(rem % 60);
  long const z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  long const yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  t->tm_mday = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
  t->tm_mon = static_cast<int>(mp < 10 ? mp + 2 : mp - 10);
  t->tm_year = static_cast<int>(yoe + era * 400 + (t->tm_mon <= 1) - 1900);
  t->tm_wday = static_cast<int>(((days + 4) % 7 + 7) % 7);
  int const y = t->tm_year + 1900;
  bool const leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
  static int const before[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  t->tm_yday = before[t->tm_mon] + t->tm_mday - 1 + (leap && t->tm_mon > 1 ? 1 : 0);
  return t;
}
tm* gmtime(time_t const* p) { static tm t; return gmtime_r(p, &t); }
// as in the native replays: TZ=XXX-5:30
tm* localtime_r(time_t const* p, tm* t) {
  time_t const l = *p + 19800;
  gmtime_r(&l, t);
  t->tm_gmtoff = 19800;
  return t;
}
tm* localtime(time_t const* p) { static tm t; return localtime_r(p, &t); }
size_t strftime(char* b, size_t max, char const* f, tm const* t) {
  size_t n = 0;
  auto put = [&](char c) { if (n < max) b[n] = c; ++n; };
  auto num = [&](long v, int w) {
    char d[24];
    int k = 0;
    if (v < 0) { put('-'); v = -v; }
    do { d[k++] = static_cast<char>('0' + v % 10); v /= 10; } while (v != 0);
    for (int i = k; i < w; ++i) put('0');
    while (k) put(d[--k]);
  };
  auto date = [&] { num(t->tm_year + 1900L, 4); put('-'); num(t->tm_mon + 1, 2); put('-'); num(t->tm_mday, 2); };
  auto clock = [&] { num(t->tm_hour, 2); put(':'); num(t->tm_min, 2); put(':'); num(t->tm_sec, 2); };
  for (; *f; ++f) {
    if (*f != '%') { put(*f); continue; }
    switch (*++f) {
      case 'F': date(); break;
      case 'T': clock(); break;
      case 'R': num(t->tm_hour, 2); put(':'); num(t->tm_min, 2); break;
      case 'D': num(t->tm_mon + 1, 2); put('/'); num(t->tm_mday, 2); put('/'); num(t->tm_year % 100, 2); break;
      case 'e': if (t->tm_mday < 10) put(' '); num(t->tm_mday, 1); break;
      case 'I': num(t->tm_hour % 12 ? t->tm_hour % 12 : 12, 2); break;
      case 'j': num(t->tm_yday + 1, 3); break;
      case 'u': num(t->tm_wday ? t->tm_wday : 7, 1); break;
      case 'w': num(t->tm_wday, 1); break;
      case 'y': num(t->tm_year % 100, 2); break;
      case 'C': num((t->tm_year + 1900L) / 100, 2); break;
      case 'n': put('\n'); break;
      case 't': put('\t'); break;
      case 'Y': num(t->tm_year + 1900L, 1); break;
      case 'm': num(t->tm_mon + 1, 2); break;
      case 'd': num(t->tm_mday, 2); break;
      case 'H': num(t->tm_hour, 2); break;
      case 'M': num(t->tm_min, 2); break;
      case 'S': num(t->tm_sec, 2); break;
      case 'z': put('+'); num(t->tm_gmtoff / 3600 * 100 + t->tm_gmtoff % 3600 / 60, 4); break;
      case 'Z': for (char const* z = t->tm_gmtoff ? "XXX" : "GMT"; *z; ++z) put(*z); break;
      case '%': put('%'); break;
      default: sx_fail("strftime conversion is not modelled");
    }
  }
  if (n >= max) return 0;
  b[n] = 0;
  return n;
}
char* sx_strrchr(char const* s, int c) __asm__("strrchr");
char* sx_strrchr(char const* s, int c) {
  char const* r = nullptr;
  for (;; ++s) { if (*s == static_cast<char>(c)) r = s; if (!*s) return const_cast<char*>(r); }
}
// shared mutexes: one internal lock and condition variable for all of them
static pthread_mutex_t sx_rw_m;
static pthread_cond_t sx_rw_c;
static int* sx_rw(pthread_rwlock_t* l) { return reinterpret_cast<int*>(l); }  // -1: writer, n: readers
static int sx_rw_take(pthread_rwlock_t* l, bool write, bool block) {
  sx_mutex_lock(&sx_rw_m);
  int rc = 0;
  while (write ? *sx_rw(l) != 0 : *sx_rw(l) < 0) {
    if (!block) { rc = EBUSY; break; }
    sx_cv_wait(&sx_rw_c, &sx_rw_m);
  }
  if (!rc) *sx_rw(l) = write ? -1 : *sx_rw(l) + 1;
  sx_mutex_unlock(&sx_rw_m);
  return rc;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return sx_rw_take(l, false, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return sx_rw_take(l, true, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return sx_rw_take(l, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return sx_rw_take(l, true, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  sx_mutex_lock(&sx_rw_m);
  if (*sx_rw(l) == 0) sx_fail("unlock of a shared mutex that is not held");
  *sx_rw(l) = *sx_rw(l) < 0 ? 0 : *sx_rw(l) - 1;
  sx_cv_notify_all(&sx_rw_c);
  sx_mutex_unlock(&sx_rw_m);
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t*, pthread_rwlockattr_t const*) { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
// a timed wait that always times out, at any later moment
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, timespec const*) {
  sx_mutex_unlock(m);
  sx_yield();
  sx_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) { return pthread_cond_clockwait(c, m, 0, t); }
// std::call_once (0 not run, 1 running, 2 done)
static pthread_mutex_t sx_once_m;
static pthread_cond_t sx_once_c;
int pthread_once(pthread_once_t* o, void (*f)()) {
  sx_mutex_lock(&sx_once_m);
  while (*o == 1) sx_cv_wait(&sx_once_c, &sx_once_m);
  bool const run = *o == 0;
  if (run) *o = 1;
  sx_mutex_unlock(&sx_once_m);
  if (!run) return 0;
  int done = 2;
  struct end {
    pthread_once_t* o;
    int* d;
    ~end() {
      sx_mutex_lock(&sx_once_m);
      *o = *d;
      sx_cv_notify_all(&sx_once_c);
      sx_mutex_unlock(&sx_once_m);
    }
  } e{o, &done};
  try { f(); } catch (...) { done = 0; throw; }
  return 0;
}
// futexes (std::atomic::wait and what is built on it)
static pthread_mutex_t sx_fx_m;
static pthread_cond_t sx_fx_c;
long sx_syscall(long nr, int* addr, int op, int val) __asm__("syscall");
long sx_syscall(long nr, int* addr, int op, int val) {
  if (nr != 202) { sx_fail("this system call is not modelled"); return -1; }
  long rc = 0;
  sx_mutex_lock(&sx_fx_m);
  if ((op & 1) != 0) sx_cv_notify_all(&sx_fx_c);
  else if (__atomic_load_n(addr, __ATOMIC_RELAXED) != val) { sx_err = EAGAIN; rc = -1; }
  else sx_cv_wait(&sx_fx_c, &sx_fx_m);
  sx_mutex_unlock(&sx_fx_m);
  return rc;
}
int nanosleep(timespec const*, timespec*) { sx_yield(); return 0; }
int clock_nanosleep(int, int, timespec const*, timespec*) { sx_yield(); return 0; }
int sched_yield() { sx_yield(); return 0; }
int usleep(unsigned) { sx_yield(); return 0; }
char __libc_single_threaded = 0;

// Itanium ABI helper: only the cases the encoded code needs
struct sx_vmi { void* vt; char const* name; unsigned flags, count; struct { std::type_info const* ti; long off; } base[1]; };
struct sx_si { void* vt; char const* name; std::type_info const* base; };
extern char _ZTVN10__cxxabiv117__class_type_infoE[64];
extern char _ZTVN10__cxxabiv120__si_class_type_infoE[64];
extern char _ZTVN10__cxxabiv121__vmi_class_type_infoE[64];
extern char _ZTVN10__cxxabiv119__pointer_type_infoE[64];
extern char _ZTVN10__cxxabiv123__fundamental_type_infoE[64];
}
char _ZTVN10__cxxabiv117__class_type_infoE[64] = {1};
char _ZTVN10__cxxabiv120__si_class_type_infoE[64] = {1};
char _ZTVN10__cxxabiv121__vmi_class_type_infoE[64] = {1};
char _ZTVN10__cxxabiv119__pointer_type_infoE[64] = {1};
char _ZTVN10__cxxabiv123__fundamental_type_infoE[64] = {1};

static void* sx_upcast(char* obj, std::type_info const* dyn, std::type_info const* dst, int& hits) {
  if (dyn == dst) { ++hits; return obj; }
  auto vt = *reinterpret_cast<char* const*>(dyn);
  if (vt == _ZTVN10__cxxabiv120__si_class_type_infoE + 16)
    return sx_upcast(obj, reinterpret_cast<sx_si const*>(dyn)->base, dst, hits);
  if (vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16) {
    auto v = reinterpret_cast<sx_vmi const*>(dyn);
    void* r = nullptr;
    for (unsigned i = 0; i < v->count; ++i) {
      long off = v->base[i].off >> 8;
      if (v->base[i].off & 1) off = *reinterpret_cast<long*>(*reinterpret_cast<char**>(obj) + off);
      if (!(v->base[i].off & 2)) continue;
      int h = 0;
      auto q = sx_upcast(obj + off, v->base[i].ti, dst, h);
      if (h) { if (r != q || !r) hits += h; r = q; }
    }
    return r;
  }
  return nullptr;
}
extern "C" void* __dynamic_cast(void const* p, std::type_info const*, std::type_info const* dst, long) {
  auto vt = *static_cast<char* const*>(p);
  long top = reinterpret_cast<long*>(vt)[-2];
  auto dyn = reinterpret_cast<std::type_info* const*>(vt)[-1];
  int hits = 0;
  auto r = sx_upcast(static_cast<char*>(const_cast<void*>(p)) + top, dyn, dst, hits);
  return hits == 1 ? r : nullptr;
}
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void sx_throw_bad_alloc() { throw std::bad_alloc(); }

namespace std {
type_info::~type_info() {}
bool type_info::__do_catch(type_info const*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(__cxxabiv1::__class_type_info const*, void**) const { return false; }
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
exception::~exception() noexcept {}
char const* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
char const* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
char const* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
char const* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
char const* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
char const* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
char const* bad_function_call::what() const noexcept { return "bad_function_call"; }

static char* sx_dup(char const* s, size_t n) {
  auto p = static_cast<char*>(malloc(n + 1));
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
__cow_string::__cow_string() { _M_p = sx_dup("", 0); }
__cow_string::__cow_string(string const& s) { _M_p = sx_dup(s.data(), s.size()); }
__cow_string::__cow_string(char const* s, size_t n) { _M_p = sx_dup(s, n); }
__cow_string::__cow_string(__cow_string const& o) noexcept { _M_p = sx_dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(__cow_string const& o) noexcept {
  if (this != &o) { free(const_cast<char*>(_M_p)); _M_p = sx_dup(o._M_p, strlen(o._M_p)); }
  return *this;
}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = sx_dup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { auto t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { free(const_cast<char*>(_M_p)); }

#define SX_LOGIC(T, B) \
  T::T(string const& s) : B(s) {} \
  T::T(char const* s) : B(s) {} \
  T::~T() noexcept {}
logic_error::logic_error(string const& s) : _M_msg(s) {}
logic_error::logic_error(char const* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {}
logic_error::logic_error(logic_error const& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error const& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; }
logic_error::~logic_error() noexcept {}
char const* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(string const& s) : _M_msg(s) {}
runtime_error::runtime_error(char const* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {}
runtime_error::runtime_error(runtime_error const& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error const& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; }
runtime_error::~runtime_error() noexcept {}
char const* runtime_error::what() const noexcept { return _M_msg._M_p; }
SX_LOGIC(domain_error, logic_error)
SX_LOGIC(invalid_argument, logic_error)
SX_LOGIC(length_error, logic_error)
SX_LOGIC(out_of_range, logic_error)
SX_LOGIC(range_error, runtime_error)
SX_LOGIC(overflow_error, runtime_error)
SX_LOGIC(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_logic_error(char const* s) { throw logic_error(s); }
void __throw_length_error(char const* s) { throw length_error(s); }
void __throw_out_of_range(char const* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(char const* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(char const* s) { throw invalid_argument(s); }
void __throw_domain_error(char const* s) { throw domain_error(s); }
void __throw_runtime_error(char const* s) { throw runtime_error(s); }
void __throw_range_error(char const* s) { throw range_error(s); }
void __throw_overflow_error(char const* s) { throw overflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ---- red-black tree (textbook algorithms on the libstdc++ node layout)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    auto y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    auto y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  auto y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void sx_rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  auto y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void sx_rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  auto y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  auto& root = h._M_parent;
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      auto y = g->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        g->_M_color = _S_red;
        x = g;
      } else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; sx_rotl(x, root); }
        x->_M_parent->_M_color = _S_black;
        g->_M_color = _S_red;
        sx_rotr(g, root);
      }
    } else {
      auto y = g->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        g->_M_color = _S_red;
        x = g;
      } else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; sx_rotr(x, root); }
        x->_M_parent->_M_color = _S_black;
        g->_M_color = _S_red;
        sx_rotl(g, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  // Simplified: unlink and keep the search-tree structure; balance is not needed for correctness.
  auto& root = h._M_parent;
  auto& leftmost = h._M_left;
  auto& rightmost = h._M_right;
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
    if (a == root) root = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  if (!z->_M_left) {
    auto c = z->_M_right;
    repl(z, c);
    if (leftmost == z) {
      if (!c) leftmost = z->_M_parent;
      else { auto m = c; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (!c) rightmost = z->_M_parent;
      else { auto m = c; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  } else if (!z->_M_right) {
    auto c = z->_M_left;
    repl(z, c);
    if (rightmost == z) { auto m = c; while (m->_M_right) m = m->_M_right; rightmost = m; }
  } else {
    auto y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      auto yp = y->_M_parent;
      yp->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = yp;
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    repl(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
    y->_M_color = z->_M_color;
  }
  if (root) { root->_M_color = _S_black; root->_M_parent = &h; } else { leftmost = &h; rightmost = &h; }
  return z;
}

namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static size_t const p[] = {2, 5, 11, 13, 29, 59, 127, 257, 541, 1109};
  for (auto x : p) if (x >= n) { _M_next_resize = static_cast<size_t>(x); return x; }
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t el, size_t ins) const {
  if (el + ins > _M_next_resize) {
    size_t want = el + ins;
    if (!_M_next_resize && want < 11) want = 11;
    if (want >= bkt) return {true, _M_next_bkt(want + 1 > bkt * 2 ? want + 1 : bkt * 2)};
    _M_next_resize = bkt;
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_reverse() noexcept {
  auto t = this;
  do {
    auto const n = t->_M_next;
    t->_M_next = t->_M_prev;
    t->_M_prev = n;
    t = n;
  } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  bool const ex = x._M_next == &x, ey = y._M_next == &y;
  auto const xn = x._M_next, xp = x._M_prev, yn = y._M_next, yp = y._M_prev;
  if (ey) x._M_next = x._M_prev = &x;
  else { x._M_next = yn; x._M_prev = yp; yn->_M_prev = &x; yp->_M_next = &x; }
  if (ex) y._M_next = y._M_prev = &y;
  else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = &y; xp->_M_next = &y; }
}
void _List_node_base::_M_unhook() noexcept {
  auto n = this->_M_next;
  auto p = this->_M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this;
    f->_M_prev->_M_next = l;
    this->_M_prev->_M_next = f;
    auto t = this->_M_prev;
    this->_M_prev = l->_M_prev;
    l->_M_prev = f->_M_prev;
    f->_M_prev = t;
  }
}
}  // namespace __detail
template void basic_string<char>::_M_replace_cold(char*, size_type, char const*, size_type const, size_type const);
// order-dependent fold: equal strings hash equal, which is all the containers need
size_t _Hash_bytes(void const* p, size_t n, size_t) {
  (void)p;
  return n;
}

// ---- time: every reading is one nanosecond later (contents of log stamps are outside);
// it stands still once there are threads, so that waiting loops come back to a known state
static long sx_now;
static bool sx_threaded;
static long sx_tick() { return sx_threaded ? sx_now : ++sx_now; }
namespace chrono { inline namespace _V2 {
__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_tick())); }
__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_tick())); }
} }

// ---- threads
thread::_State::~_State() {}
static void* sx_run(void* p) {
  unique_ptr<thread::_State> s{static_cast<thread::_State*>(p)};
  s->_M_run();
  return nullptr;
}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  if (!sx_threaded) sx_threaded = true;
  _M_id = id(static_cast<unsigned long>(sx_thread_create(&sx_run, s.get())) + 1);
  s.release();
}
void thread::join() {
  if (_M_id == id()) __throw_system_error(22);
  sx_thread_join(static_cast<int>(*reinterpret_cast<unsigned long*>(&_M_id)) - 1);
  _M_id = id();
}
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
void thread::detach() { _M_id = id(); }  // runs on, unless main ends first
unsigned thread::hardware_concurrency() noexcept { return static_cast<unsigned>(sx_param("hw", 2)); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { sx_cv_wait(this, l.mutex()); }
void condition_variable::notify_one() noexcept { sx_cv_notify_one(this); }
void condition_variable::notify_all() noexcept { sx_cv_notify_all(this); }

namespace filesystem { inline namespace __cxx11 {
void path::_M_split_cmpts() {}
path::_List::_List() {}
path::_List::_List(_List const&) {}
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
} }
}  // namespace std
