// Harness interface.  In the engine these are builtins; natively (replay) they
// are implemented by sx_native.cc.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
extern "C" {
void sx_sym(void* p, size_t n, char const* name);
uint64_t sx_sym_int(unsigned bytes, char const* name);
void sx_assume(bool);
void sx_assert(bool, char const* what);
void sx_fail(char const* what);
void sx_reach(char const* label);
void sx_observe(uint64_t v);
uint64_t sx_param(char const* name, uint64_t dflt);
uint64_t sx_concretize(uint64_t);
uint64_t sx_heap_live();
void sx_alloc_fail(int budget);  // 0: off, n>0: up to n allocations may fail, <0: any number
int sx_is_native();
void sx_print(char const* name, uint64_t v);
void sx_yield();
void sx_idle();  // sleeps until no other thread can run
void sx_main();
}
namespace sx {
template <typename T>
inline T any(char const* name) {
  if constexpr (std::is_same_v<T, bool>) {
    return (sx_sym_int(1, name) & 1) != 0;
  } else if constexpr (std::is_floating_point_v<T>) {
    std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t> bits = sx_sym_int(sizeof(T), name);
    T t;
    std::memcpy(&t, &bits, sizeof t);
    return t;
  } else {
    return static_cast<T>(sx_sym_int(sizeof(T), name));
  }
}
// any value in [lo, hi], symbolic
template <typename T>
inline T in(char const* name, T lo, T hi) {
  auto v = any<T>(name);
  sx_assume(v >= lo);
  sx_assume(v <= hi);
  return v;
}
// a choice among 0..n-1; explored case by case
inline unsigned choose(char const* name, unsigned n) {
  if (n <= 1) return 0;
  auto v = static_cast<uint8_t>(sx_sym_int(1, name));
  sx_assume(v < n);
  return static_cast<unsigned>(sx_concretize(v));
}
// splits the path on a condition, so that what follows sees a concrete value
inline bool fork(bool c) { return sx_concretize(c ? 1 : 0) != 0; }
inline unsigned param(char const* name, unsigned d) { return static_cast<unsigned>(sx_param(name, d)); }
inline void observe_bytes(void const* p, size_t n) {
  for (size_t i = 0; i < n; ++i) sx_observe(static_cast<unsigned char const*>(p)[i]);
}
// symbolic bytes in an exactly sized heap block (so that any overrun is caught)
struct bytes {
  explicit bytes(size_t n, char const* name) : n_{n}, p_{n == 0 ? new char[1] : new char[n]} { if (n) sx_sym(p_, n, name); }
  bytes(bytes const&) = delete;
  bytes& operator=(bytes const&) = delete;
  ~bytes() { delete[] p_; }
  size_t size() const { return n_; }
  char* data() { return p_; }
  char const* data() const { return p_; }
  char* begin() { return p_; }
  char* end() { return p_ + n_; }
  char& operator[](size_t i) { return p_[i]; }
  char const& operator[](size_t i) const { return p_[i]; }
  size_t n_;
  char* p_;
};
}  // namespace sx
// environment functions replaced by a harness (natively via --wrap)
#ifdef SX_NATIVE
#define SX_ENV(name) __wrap_##name
#else
#define SX_ENV(name) name
#endif
#define SX_ASSERT(c) sx_assert((c), #c)
#define SX_CHECK(c, what) sx_assert((c), what)
