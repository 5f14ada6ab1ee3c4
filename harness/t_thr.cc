// Self-test of the thread model.
#include "sx.h"
#include <atomic>
#include <condition_variable>
#include <chrono>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <vector>
extern "C" void sx_main() {
  switch (sx::param("mode", 0)) {
    case 0: {  // shared mutex
      std::shared_mutex m;
      int v = 0;
      std::thread a([&] { std::unique_lock l(m); ++v; ++v; });
      std::thread b([&] { std::shared_lock l(m); sx_assert(v == 0 || v == 2, "no half state"); });
      { std::shared_lock l(m); sx_assert(v % 2 == 0, "no half state"); sx_reach(v ? "after" : "before"); }
      a.join(); b.join();
      sx_observe(v);
      break;
    }
    case 1: {  // atomic wait
      std::atomic<int> x{0};
      int data = 0;
      std::thread a([&] { data = 7; x.store(1); x.notify_all(); });
      x.wait(0);
      sx_assert(data == 7, "published");
      a.join();
      sx_reach("woken");
      break;
    }
    case 2: {  // thread locals
      static thread_local int t = 5;
      ++t;
      int seen = 0;
      std::thread a([&] { t += 2; seen = t; });
      a.join();
      sx_assert(seen == 7 && t == 6, "one per thread");
      sx_reach("tls");
      break;
    }
    case 4: {  // call_once, also with a first attempt that fails
      std::once_flag f;
      int n = 0;
      auto go = [&] { try { std::call_once(f, [&] { if (++n == 1) throw 1; }); } catch (int) { sx_reach("failed once"); } };
      std::thread a(go);
      go();
      a.join();
      sx_assert(n == 2, "second attempt runs");
      break;
    }
    case 5: {  // timed wait
      std::mutex m; std::condition_variable c; bool r = false;
      std::thread a([&] { std::lock_guard l(m); r = true; c.notify_one(); });
      { std::unique_lock l(m); while (!r) c.wait_for(l, std::chrono::milliseconds(1)); }
      a.join();
      sx_reach("timed");
      break;
    }
    case 6: {  // detached
      std::atomic<int> n{0};
      std::thread([&] { ++n; }).detach();
      while (n == 0) std::this_thread::yield();
      sx_reach("detached");
      break;
    }
    case 3: {  // a missed wake-up is found by the model: this one is fine
      std::mutex m; std::condition_variable c; bool r = false;
      std::thread a([&] { std::lock_guard l(m); r = true; c.notify_one(); });
      { std::unique_lock l(m); c.wait(l, [&] { return r; }); }
      a.join();
      sx_reach("cv");
      break;
    }
  }
}
