// Native replay of a schedule: the real threads run one at a time, switching
// only where the engine switches (in front of atomic operations, locks,
// condition variables, joins and at the end of a thread) and in the recorded
// order.  The instrumentation calls of -fsanitize=thread land here; they give
// the scheduling points and an independent happens-before race check.
#include "sx.h"
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace {
enum class St { Run, WaitMutex, WaitCv, WaitJoin, Done, WaitIdle };
constexpr unsigned MAXT = 16;
using Clock = unsigned[MAXT];
struct T {
  St st{St::Run};
  bool granted{false}, woken{false}, joined{false};
  void const* obj{nullptr};
  void const* mtx{nullptr};
  unsigned target{0};
  Clock vc{};
  sem_t sem;
};
struct Shadow { Clock w{}, r{}, aw{}, ar{}; };
struct Vc { Clock v{}; };
// leaked on purpose: used until _exit
struct G {
  std::vector<T*> th;
  std::vector<int> code;
  size_t at{0};
  std::map<void const*, unsigned> owner;  // mutex -> thread + 1
  std::unordered_map<uintptr_t, Shadow> shadow;
  std::map<void const*, Vc> sync;
} *g;
thread_local unsigned me = 0;
thread_local bool inside = false;
bool on = false;
struct Guard { bool o; Guard() : o{inside} { inside = true; } ~Guard() { inside = o; } };

[[noreturn]] void stop(int rc, char const* f, ...) {
  char b[512];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  auto r = write(1, b, (size_t)n);
  (void)r;
  _exit(rc);
}
bool enabled(T const& t) {
  switch (t.st) {
    case St::Run: return true;
    case St::WaitMutex: return g->owner[t.obj] == 0;
    case St::WaitJoin: return g->th[t.target]->st == St::Done;
    case St::WaitIdle:
      for (auto o : g->th) if (o != &t && o->st != St::WaitIdle && enabled(*o)) return false;
      return true;
    default: return false;
  }
}
void pass(unsigned to) {
  if (to == me) return;
  T& self = *g->th[me];
  bool const over = self.st == St::Done;
  sem_post(&g->th[to]->sem);  // from here on another thread owns everything in g
  if (over) return;
  while (sem_wait(&self.sem) != 0) {}
}
void grant(unsigned i) {
  g->th[i]->st = St::Run;
  g->th[i]->granted = true;
  pass(i);
}
void schedule(bool forced) {
  T& t = *g->th[me];
  if (!forced && t.granted) return;
  int first = -1;
  for (unsigned i = 0; i < g->th.size(); ++i) if (enabled(*g->th[i])) { first = (int)i; break; }
  if (first < 0) stop(77, "VIOL deadlock\n");
  if (g->at >= g->code.size()) return grant(forced ? (unsigned)first : me);
  int c = g->code[g->at++];
  if (c >= 2000) {
    T& w = *g->th[(unsigned)c - 2000];
    if (w.st != St::WaitCv) stop(79, "DIVERGED spurious wake-up of a thread that does not wait\n");
    w.woken = true;
    w.st = St::WaitMutex;
    w.obj = w.mtx;
    c = g->at < g->code.size() ? g->code[g->at++] : c - 2000;
  }
  if (c < 0 || (size_t)c >= g->th.size() || !enabled(*g->th[(unsigned)c])) stop(79, "DIVERGED thread %d cannot run at choice %zu\n", c, g->at);
  grant((unsigned)c);
}
bool many() { return on && g->th.size() > 1; }

void acquire(void const* o) {
  if (!many()) return;
  auto it = g->sync.find(o);
  if (it == g->sync.end()) return;
  auto& v = g->th[me]->vc;
  for (unsigned i = 0; i < MAXT; ++i) if (it->second.v[i] > v[i]) v[i] = it->second.v[i];
}
void release(void const* o, bool keep) {
  if (!many()) return;
  auto& y = g->sync[o].v;
  auto& v = g->th[me]->vc;
  for (unsigned i = 0; i < MAXT; ++i) y[i] = keep && y[i] > v[i] ? y[i] : v[i];
  ++v[me];
}
void access(void const* p, size_t n, bool write, bool atomic) {
  if (!many() || (inside && !atomic)) return;
  Guard gd;
  auto& t = *g->th[me];
  for (size_t i = 0; i < n; ++i) {
    auto& h = g->shadow[reinterpret_cast<uintptr_t>(p) + i];
    for (unsigned u = 0; u < g->th.size(); ++u) {
      if (u == me) continue;
      bool race = h.w[u] > t.vc[u] || (write && h.r[u] > t.vc[u]);
      if (!atomic) race = race || h.aw[u] > t.vc[u] || (write && h.ar[u] > t.vc[u]);
      if (race) stop(77, "VIOL data race: %s by thread %u unordered with an access by thread %u\n", write ? "write" : "read", me, u);
    }
    (atomic ? (write ? h.aw : h.ar) : (write ? h.w : h.r))[me] = t.vc[me];
  }
}
void sync_atomic(void const* p, int o, bool rd, bool wr) {
  if (!many()) return;
  bool const acq = o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST;
  bool const rel = o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST;
  if (rd && acq) acquire(p);
  if (wr && rel) release(p, rd);
  else if (wr && !rd) g->sync.erase(p);
}
void point() { if (many() && !inside) { Guard gd; schedule(false); } }
void taken() { if (on) g->th[me]->granted = false; }
}  // namespace

void sx_sched_load(std::vector<int> const& c) { g = new G; g->code = c; }
void sx_sched_start() {
  auto t = new T;
  sem_init(&t->sem, 0, 0);
  g->th.push_back(t);
  on = true;
}
bool sx_sched_inside() { return inside; }
void sx_sched_fresh(void* p, size_t n) {  // memory handed out or given back: forget its history
  if (inside || !many()) return;
  Guard gd;
  for (size_t i = 0; i < n; ++i) g->shadow.erase(reinterpret_cast<uintptr_t>(p) + i);
}
extern "C" {
void sx_yield() { if (on && !inside) { point(); taken(); } }

int __wrap_sched_yield() { sx_yield(); return 0; }
int __wrap_nanosleep(timespec const*, timespec*) { sx_yield(); return 0; }
int __wrap_clock_nanosleep(int, int, timespec const*, timespec*) { sx_yield(); return 0; }
int __wrap_usleep(unsigned) { sx_yield(); return 0; }
void sx_idle() {
  Guard gd;
  if (!many()) return;
  g->th[me]->st = St::WaitIdle;
  schedule(true);
  g->th[me]->granted = false;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  Guard gd;
  if (!on) return 0;
  if (many()) schedule(false);
  T& t = *g->th[me];
  if (g->owner[m] == me + 1) stop(77, "VIOL mutex locked twice by the same thread (deadlock)\n");
  if (g->owner[m] != 0) {
    t.st = St::WaitMutex;
    t.obj = m;
    t.granted = true;
    schedule(true);
    if (g->owner[m] != 0) stop(79, "DIVERGED mutex still held\n");
  }
  g->owner[m] = me + 1;
  t.granted = false;
  acquire(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  Guard gd;
  if (!on) return 0;
  if (many()) schedule(false);
  g->th[me]->granted = false;
  if (g->owner[m] != 0) return 16;
  g->owner[m] = me + 1;
  acquire(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  Guard gd;
  if (!on) return 0;
  if (g->owner[m] != me + 1) stop(77, "VIOL unlock of a mutex that is not held\n");
  g->owner[m] = 0;
  release(m, false);
  return 0;
}
}
static void cv_wait(void const* cv, pthread_mutex_t* m) {
  Guard gd;
  T& t = *g->th[me];
  if (many()) schedule(false);
  if (g->owner[m] != me + 1) stop(77, "VIOL condition wait without holding the mutex\n");
  g->owner[m] = 0;
  release(m, false);
  t.granted = false;
  t.st = St::WaitCv;
  t.obj = cv;
  t.mtx = m;
  schedule(true);
  while (g->owner[m] != 0) { t.st = St::WaitMutex; t.obj = m; schedule(true); }
  g->owner[m] = me + 1;
  acquire(m);
  t.woken = false;
  t.granted = false;
}
static void cv_notify(void const* cv, bool all) {
  Guard gd;
  if (many()) schedule(false);
  g->th[me]->granted = false;
  std::vector<T*> ws;
  std::vector<int> id;
  for (unsigned i = 0; i < g->th.size(); ++i)
    if (g->th[i]->st == St::WaitCv && g->th[i]->obj == cv) { ws.push_back(g->th[i]); id.push_back((int)i); }
  auto wake = [](T* t) { t->woken = true; t->st = St::WaitMutex; t->obj = t->mtx; };
  if (all) { for (auto w : ws) wake(w); return; }
  if (ws.empty()) return;
  size_t k = 0;
  if (ws.size() > 1 && g->at < g->code.size()) {
    int c = g->code[g->at++] - 1000;
    while (k < ws.size() && id[k] != c) ++k;
    if (k == ws.size()) stop(79, "DIVERGED no such waiter\n");
  }
  wake(ws[k]);
}
extern "C" int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { cv_wait(c, m); return 0; }
extern "C" int __wrap_pthread_cond_signal(pthread_cond_t* c) { cv_notify(c, false); return 0; }
extern "C" int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { cv_notify(c, true); return 0; }

// shared mutexes, as in rt.cc
static pthread_mutex_t rw_m;
static pthread_cond_t rw_c;
static std::map<void const*, int>* rw_state;  // -1: writer, n: readers
static int rw_take(void const* l, bool write, bool block) {
  __wrap_pthread_mutex_lock(&rw_m);
  if (!rw_state) { Guard gd; rw_state = new std::map<void const*, int>; }
  auto& s = [&]() -> int& { Guard gd; return (*rw_state)[l]; }();
  int rc = 0;
  while (write ? s != 0 : s < 0) {
    if (!block) { rc = 16; break; }
    cv_wait(&rw_c, &rw_m);
  }
  if (!rc) s = write ? -1 : s + 1;
  __wrap_pthread_mutex_unlock(&rw_m);
  return rc;
}
extern "C" {
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_take(l, false, true); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_take(l, true, true); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_take(l, false, false); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_take(l, true, false); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  __wrap_pthread_mutex_lock(&rw_m);
  auto& s = (*rw_state)[l];
  if (s == 0) stop(77, "VIOL unlock of a shared mutex that is not held\n");
  s = s < 0 ? 0 : s - 1;
  cv_notify(&rw_c, true);
  __wrap_pthread_mutex_unlock(&rw_m);
  return 0;
}
}

extern "C" int __wrap_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, timespec const*) {
  __wrap_pthread_mutex_unlock(m);
  sx_yield();
  __wrap_pthread_mutex_lock(m);
  return 110;
}
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) { return __wrap_pthread_cond_clockwait(c, m, 0, t); }
static pthread_mutex_t once_m;
static pthread_cond_t once_c;
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  __wrap_pthread_mutex_lock(&once_m);
  while (*o == 1) cv_wait(&once_c, &once_m);
  bool const run = *o == 0;
  if (run) *o = 1;
  __wrap_pthread_mutex_unlock(&once_m);
  if (!run) return 0;
  int done = 2;
  struct end {
    pthread_once_t* o;
    int* d;
    ~end() {
      __wrap_pthread_mutex_lock(&once_m);
      *o = *d;
      cv_notify(&once_c, true);
      __wrap_pthread_mutex_unlock(&once_m);
    }
  } e{o, &done};
  try { f(); } catch (...) { done = 0; throw; }
  return 0;
}
extern "C" uint32_t __tsan_atomic32_load(uint32_t const volatile* p, int o);
static pthread_mutex_t fx_m;
static pthread_cond_t fx_c;
extern "C" long __real_syscall(long, ...);
extern "C" long __wrap_syscall(long nr, long a1, long a2, long a3, long a4, long a5, long a6) {
  if (nr != SYS_futex || !on) return __real_syscall(nr, a1, a2, a3, a4, a5, a6);
  auto addr = reinterpret_cast<uint32_t*>(a1);
  auto const op = static_cast<int>(a2);
  auto const val = static_cast<uint32_t>(a3);
  long rc = 0;
  __wrap_pthread_mutex_lock(&fx_m);
  if ((op & 1) != 0) cv_notify(&fx_c, true);
  else if (__tsan_atomic32_load(addr, __ATOMIC_RELAXED) != val) { errno = EAGAIN; rc = -1; }
  else cv_wait(&fx_c, &fx_m);
  __wrap_pthread_mutex_unlock(&fx_m);
  return rc;
}

namespace {
struct Start { std::thread::_State* s; unsigned id; T* t; };
void* entry(void* p) {
  auto st = static_cast<Start*>(p);
  me = st->id;
  while (sem_wait(&st->t->sem) != 0) {}
  {
    std::unique_ptr<std::thread::_State> s{st->s};
    delete st;
    s->_M_run();
  }
  Guard gd;
  g->th[me]->st = St::Done;
  schedule(true);
  for (;;) pause();  // keeps the stack from being handed to a later thread
}
}  // namespace
namespace std {
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  Guard gd;
  auto t = new T;
  sem_init(&t->sem, 0, 0);
  unsigned const id = (unsigned)g->th.size();
  if (id >= MAXT) stop(79, "DIVERGED too many threads\n");
  g->th.push_back(t);
  if (id == 1) g->th[0]->vc[0] = 1;
  for (unsigned i = 0; i < MAXT; ++i) t->vc[i] = g->th[me]->vc[i];
  ++t->vc[id];
  ++g->th[me]->vc[me];
  pthread_t h;
  if (pthread_create(&h, nullptr, entry, new Start{s.release(), id, t}) != 0) stop(79, "DIVERGED no thread\n");
  pthread_detach(h);
  _M_id = thread::id(static_cast<native_handle_type>(id + 1));
}
void thread::join() {
  Guard gd;
  unsigned const id = (unsigned)(*reinterpret_cast<unsigned long*>(&_M_id)) - 1;
  if (id >= g->th.size() || g->th[id]->joined) stop(77, "VIOL join of invalid thread\n");
  T& t = *g->th[me];
  if (g->th[id]->st != St::Done) {
    t.st = St::WaitJoin;
    t.target = id;
    schedule(true);
    t.granted = false;
  }
  g->th[id]->joined = true;
  for (unsigned i = 0; i < MAXT; ++i) if (g->th[id]->vc[i] > t.vc[i]) t.vc[i] = g->th[id]->vc[i];
  _M_id = thread::id();
}
void thread::detach() { _M_id = thread::id(); }
unsigned thread::hardware_concurrency() noexcept { return static_cast<unsigned>(sx_param("hw", 2)); }
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept = default;
void condition_variable::wait(unique_lock<mutex>& l) { cv_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { cv_notify(this, false); }
void condition_variable::notify_all() noexcept { cv_notify(this, true); }
}  // namespace std

extern "C" {
pthread_t __wrap_pthread_self() { return me + 1; }
int pthread_setname_np(pthread_t, char const*) { return 0; }  // handles are numbers here
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false); }
#define RW(n)                                                              \
  void __tsan_read##n(void* p) { access(p, n, false, false); }             \
  void __tsan_write##n(void* p) { access(p, n, true, false); }             \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); }   \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); }   \
  void __tsan_read_write##n(void* p) { access(p, n, false, false); access(p, n, true, false); } \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, false, false); access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false); }
void* __tsan_memcpy(void* d, void const* s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, false); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(bits, ty)                                                                                  \
  ty __tsan_atomic##bits##_load(ty const volatile* p, int o) {                                          \
    point(); access((void*)p, sizeof(ty), false, true); ty v = *p; sync_atomic((void*)p, o, true, false); taken(); return v; } \
  void __tsan_atomic##bits##_store(ty volatile* p, ty v, int o) {                                       \
    point(); access((void*)p, sizeof(ty), true, true); *p = v; sync_atomic((void*)p, o, false, true); taken(); } \
  static ty rmw##bits(ty volatile* p, ty n(ty, ty), ty v, int o) {                                      \
    point(); access((void*)p, sizeof(ty), false, true); access((void*)p, sizeof(ty), true, true);       \
    ty old = *p; *p = n(old, v); sync_atomic((void*)p, o, true, true); taken(); return old; }           \
  ty __tsan_atomic##bits##_exchange(ty volatile* p, ty v, int o) { return rmw##bits(p, [](ty, ty b) { return b; }, v, o); } \
  ty __tsan_atomic##bits##_fetch_add(ty volatile* p, ty v, int o) { return rmw##bits(p, [](ty a, ty b) { return (ty)(a + b); }, v, o); } \
  ty __tsan_atomic##bits##_fetch_sub(ty volatile* p, ty v, int o) { return rmw##bits(p, [](ty a, ty b) { return (ty)(a - b); }, v, o); } \
  ty __tsan_atomic##bits##_fetch_and(ty volatile* p, ty v, int o) { return rmw##bits(p, [](ty a, ty b) { return (ty)(a & b); }, v, o); } \
  ty __tsan_atomic##bits##_fetch_or(ty volatile* p, ty v, int o) { return rmw##bits(p, [](ty a, ty b) { return (ty)(a | b); }, v, o); } \
  ty __tsan_atomic##bits##_fetch_xor(ty volatile* p, ty v, int o) { return rmw##bits(p, [](ty a, ty b) { return (ty)(a ^ b); }, v, o); } \
  int __tsan_atomic##bits##_compare_exchange_strong(ty volatile* p, ty* c, ty v, int o, int fo) {       \
    point(); access((void*)p, sizeof(ty), false, true);                                                 \
    bool const ok = *p == *c;                                                                           \
    if (ok) { access((void*)p, sizeof(ty), true, true); *p = v; }                                       \
    else *c = *p;                                                                                       \
    sync_atomic((void*)p, ok ? o : fo, true, ok); taken(); return ok; }                                 \
  int __tsan_atomic##bits##_compare_exchange_weak(ty volatile* p, ty* c, ty v, int o, int fo) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, o, fo); } \
  ty __tsan_atomic##bits##_compare_exchange_val(ty volatile* p, ty c, ty v, int o, int fo) { __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, o, fo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
}
