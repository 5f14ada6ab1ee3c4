// C34: thread_pool.  hw pool threads; a client runs `rounds` execute calls of
// up to `jobs` jobs each over symbolic data; every interleaving at atomic
// operations, locks, condition variables, thread starts and ends (sequentially
// consistent, with a happens-before race check on every memory access), and up
// to _spurious spurious wake-ups.
#include "sx.h"
#include <algorithm>
#include "utl/thread_pool.h"
#include <atomic>
#include <condition_variable>
#include <mutex>

// rounds of jobs over symbolic data
static void rounds() {
  auto const hw = sx::param("hw", 2), rounds = sx::param("rounds", 2), max = sx::param("jobs", 2), min = sx::param("min", 0);
  std::atomic<unsigned> inits{0}, fins{0};
  unsigned count[3][4] = {};  // deliberately not atomic: each slot belongs to one job
  uint32_t out[3][4] = {};
  uint32_t in[3][4];
  for (auto r = 0U; r < rounds; ++r) for (auto i = 0U; i < max; ++i) in[r][i] = sx::any<uint32_t>("value");
  {
    utl::thread_pool pool{[&] { inits.fetch_add(1, std::memory_order_relaxed); }, [&] { fins.fetch_add(1, std::memory_order_relaxed); }};
    for (auto r = 0U; r < rounds; ++r) {
      auto const n = min + sx::choose("jobs", max + 1 - min);
      auto const add = r + 7U;
      pool.execute(n, [&, r, n, add](size_t const i) {
        sx_assert(i < n, "index out of range");
        if (i >= n) return;
        ++count[r][i];
        out[r][i] = in[r][i] * 3 + add;
      });
      for (auto i = 0U; i < max; ++i) {
        sx_assert(count[r][i] == (i < n ? 1U : 0U), "every index exactly once, done when execute returns");
        sx_assert(i < n ? out[r][i] - in[r][i] == 2 * in[r][i] + add : out[r][i] == 0, "the results of the round are visible to the caller");
      }
      if (r != 0) for (auto i = 0U; i < max; ++i) sx_assert(count[r - 1][i] <= 1, "no job of an earlier round runs again");
      if (n == 0) sx_reach("no jobs");
      if (n > 1) sx_reach("several jobs");
      if (r == 1 && n != 0) sx_reach("second round");
    }
    sx_assert(fins.load(std::memory_order_relaxed) == 0, "threads stay alive until the pool is destroyed");
  }
  sx_assert(inits.load() == hw, "initializer once per thread");
  sx_assert(fins.load() == hw, "finalizer once per thread, before the destructor returns");
  for (auto i = 0U; i < max; ++i) sx_observe(out[0][i]);
  sx_reach("pool destroyed");
}

// every job runs on a thread whose initializer has returned and whose
// finalizer has not started
static void identity() {
  auto const hw = sx::param("hw", 2), n = 1 + sx::choose("jobs", sx::param("jobs", 2));
  std::atomic<unsigned long> id[4] = {};
  std::atomic<unsigned> next{0}, fins{0};
  unsigned ran = 0;
  auto const self = [] { return static_cast<unsigned long>(pthread_self()); };
  auto const mine = [&] {
    for (auto i = 0U; i < hw; ++i) if (id[i].load(std::memory_order_relaxed) == self()) return true;
    return false;
  };
  auto const client = self();
  {
    utl::thread_pool pool{
        [&] {
          sx_assert(self() != client, "initializer runs on a pool thread");
          sx_assert(!mine(), "initializer runs once per thread");
          id[next.fetch_add(1) % 4].store(self(), std::memory_order_relaxed);
        },
        [&] {
          sx_assert(mine(), "finalizer runs on an initialized thread");
          fins.fetch_add(1, std::memory_order_relaxed);
        }};
    pool.execute(n, [&](size_t) { sx_assert(mine(), "jobs run on initialized pool threads"); });
    ++ran;
  }
  sx_assert(next.load() == hw, "initializer once per thread");
  sx_assert(fins.load() == hw, "finalizer once per thread");
  sx_reach("identities checked");
}

// as many jobs as threads may wait for each other
static void barrier() {
  auto const hw = sx::param("hw", 2), rounds = sx::param("rounds", 1);
  utl::thread_pool pool;
  for (auto r = 0U; r < rounds; ++r) {
    std::mutex m;
    std::condition_variable cv;
    unsigned arrived = 0;
    pool.execute(hw, [&](size_t) {
      std::unique_lock<std::mutex> l{m};
      if (++arrived == hw) cv.notify_all();
      else while (arrived != hw) cv.wait(l);
    });
    sx_assert(arrived == hw, "all jobs met");
  }
  sx_reach("jobs met at the barrier");
}

extern "C" void sx_main() {
  switch (sx::param("mode", 0)) {
    case 0: rounds(); break;
    case 1: identity(); break;
    case 2: barrier(); break;
  }
}
