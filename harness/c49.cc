// C49: thread names
#include "sx.h"
#include <pthread.h>
#include <sys/prctl.h>
#include <cstdarg>
#include <cerrno>
#include <cstring>
#include <functional>
#include <mutex>
#include <string>
#include <thread>
#include "utl/set_thread_name.h"

// Linux: at most 15 characters, otherwise ERANGE and the name stays
static struct entry { pthread_t id; char name[16]; } names[8];
static unsigned n_names;
static std::mutex names_lock;
static char* name_of(pthread_t t, bool add) {
  for (unsigned i = 0; i < n_names; ++i) if (names[i].id == t) return names[i].name;
  if (!add) return nullptr;
  sx_assert(n_names < 8, "number of threads");
  names[n_names].id = t;
  return names[n_names++].name;
}
extern "C" int SX_ENV(pthread_setname_np)(pthread_t t, char const* name) {
  size_t n = 0;
  while (name[n] != 0) ++n;
  if (n > 15) return ERANGE;
  std::lock_guard<std::mutex> l{names_lock};
  memcpy(name_of(t, true), name, n + 1);
  return 0;
}
extern "C" int SX_ENV(prctl)(int option, ...) {
  va_list a;
  va_start(a, option);
  char const* name = reinterpret_cast<char const*>(va_arg(a, unsigned long));
  va_end(a);
  if (option != PR_SET_NAME) { errno = EINVAL; return -1; }
  std::lock_guard<std::mutex> l{names_lock};
  auto const to = name_of(pthread_self(), true);
  size_t n = 0;
  for (; n < 15 && name[n] != 0; ++n) to[n] = name[n];
  to[n] = 0;
  return 0;
}
static void is(pthread_t t, std::string const& want) {
  auto const got = name_of(t, false);
  sx_assert(got != nullptr, "the thread was named");
  for (size_t i = 0; i < want.size(); ++i) sx_assert(got[i] == want[i], "exactly the given name");
  sx_assert(got[want.size()] == 0, "and nothing else");
}
static std::string text(char const* what, unsigned len) {
  std::string s(len, 'x');
  for (unsigned i = 0; i < len && i < 3; ++i) { s[i] = sx::any<char>(what); sx_assume(s[i] != 0); }
  if (len > 3) { s[len - 1] = sx::any<char>(what); sx_assume(s[len - 1] != 0); }
  return s;
}
extern "C" void sx_main() {
  static unsigned const lens[] = {0, 1, 2, 7, 14, 15};
  auto const self = text("self", lens[sx::choose("self length", 6)]);
  auto const other = text("other", lens[sx::choose("other length", 6)]);
  auto const inner = sx::choose("inner", 2) != 0;
  // in this order or the other one
  bool const first = sx::choose("first", 2) != 0;
  if (first) utl::set_current_thread_name(self);
  std::string const own = "own";
  pthread_t id{};
  std::thread t{[&] { if (inner) utl::set_current_thread_name(own); }};
  id = t.native_handle();
  std::thread u{[] {}};
  utl::set_thread_name(u, other);
  auto const id_u = u.native_handle();
  if (!first) utl::set_current_thread_name(self);
  {
    std::lock_guard<std::mutex> l{names_lock};
    is(id_u, other);
    is(pthread_self(), self);
  }
  // naming others leaves it alone
  t.join();
  if (inner) is(id, own);
  else sx_assert(name_of(id, false) == nullptr || (id == id_u), "nobody else is named");
  u.join();
  is(id_u, other);
  is(pthread_self(), self);
  sx_observe(self.size());
  sx_reach(inner ? "named itself" : "unnamed");
}
