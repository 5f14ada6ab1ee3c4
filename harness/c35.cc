// C35: parallel_for_run, parallel_for_run_threadlocal and parallel_for over
// containers.  hw threads, up to `jobs` jobs with symbolic data and a symbolic
// set of failing jobs; every interleaving at atomic operations, locks, thread
// starts and ends, with a happens-before race check on every access.
#include "sx.h"
#include <array>
#include <condition_variable>
#include <deque>
#include <list>
#include <string>
#ifdef DESC
#include "sx_io.h"
#endif
#include "utl/parallel_for.h"
#include <iostream>
#include <mutex>
#include <string_view>
#include <vector>

struct failure { size_t idx; };
using strat = utl::parallel_error_strategy;
static unsigned long self() { return static_cast<unsigned long>(pthread_self()); }

struct local {
  local() : owner{self()} {}
  ~local() { owner = 0; }
  local(local const&) = delete;
  unsigned long owner;
  unsigned used{0};
};

template <typename C>
static C make(uint32_t const* v, size_t n) { return C(v, v + n); }

static void all() {
  auto const hw = sx::param("hw", 2), n = sx::param("jobs", 2), api = sx::param("api", 0);
  auto const quit = sx::param("quit", 0) != 0;
  auto const progress = sx::param("progress", 1) != 0, pfail = sx::param("pfail", 0) != 0;
  unsigned runs[4] = {}, reports[4] = {};
  uint32_t out[4] = {}, in[4] = {};
  bool bad[4] = {}, badp[4] = {};
  unsigned long threw[4] = {};  // by job: thread it failed on
  for (auto i = 0U; i < n; ++i) {
    in[i] = sx::any<uint32_t>("value");
    bad[i] = sx::any<bool>("job fails");
    badp[i] = pfail && sx::any<bool>("progress callback fails");
  }
  auto const client = self();
  auto const job = [&](size_t const i, uint32_t const x) {
    sx_assert(i < n, "index out of range");
    if (i >= n) return;
    sx_assert(self() != client, "jobs run on worker threads");
    ++runs[i];
    out[i] = x * 3;
    if (sx::fork(bad[i])) {
      threw[i] = self();
      throw failure{i};
    }
  };
  auto const note = [&](size_t const i) {
    sx_assert(i < n, "progress index out of range");
    if (i >= n) return;
    sx_assert(runs[i] == 1, "progress is reported after the job");
    ++reports[i];
    if (pfail && sx::fork(badp[i])) throw failure{i};
  };
  // containers: the element finds its index by address
  auto const by_elem = [&](auto& c) {
    return [&](uint32_t const& x) {
      size_t i = 0;
      for (auto& e : c) { if (&e == &x) break; ++i; }
      job(i, x);
    };
  };
  auto const err = quit ? strat::QUIT_EXEC : strat::CONTINUE_EXEC;
  utl::errors_t errors;
  bool thrown = false;
  size_t thrown_idx = 0;
  auto const run = [&](auto&& p) {
    switch (api) {
      case 0: errors = utl::parallel_for_run(n, [&](size_t const i) { job(i, in[i]); }, p, err); break;
      case 1:
        errors = utl::parallel_for_run_threadlocal<local>(n, [&](local& l, size_t const i) {
          sx_assert(l.owner == self(), "the thread's own local object");
          ++l.used;
          job(i, in[i]);
        }, p, err);
        break;
      case 2: { auto c = make<std::vector<uint32_t>>(in, n); errors = utl::parallel_for(c, by_elem(c), p, err); break; }
      case 3: { auto const c = make<std::list<uint32_t>>(in, n); errors = utl::parallel_for(c, by_elem(c), p, err); break; }
#ifdef DESC
      case 4: {
        auto const c = make<std::vector<uint32_t>>(in, n);
        errors = utl::parallel_for(std::string{"test"}, c, sx::param("mod", 2), by_elem(c), p, err);
        break;
      }
#endif
    }
  };
#ifdef DESC
  sx::outbuf log;
  auto const old = std::clog.rdbuf(&log);
#endif

  try {
    if (progress) run(note); else run(utl::noop_progress_update{});
  } catch (failure const& f) {
    thrown = true;
    thrown_idx = f.idx;
  }
#ifdef DESC
  std::clog.rdbuf(old);
  std::string_view text = log.s_;
  auto const mod = sx::param("mod", 2);
  for (size_t i = 0; i < n; i += mod) {
    if (runs[i] == 0) continue;  // stopped before
    std::string const want = "] test " + std::to_string(i) + "/" + std::to_string(n) + "\n";
    auto const end = text.find('\n');
    sx_assert(end != std::string_view::npos && text.substr(0, end + 1).ends_with(want), "one log line for every mod-th job");
    if (end == std::string_view::npos) break;
    text.remove_prefix(end + 1);
  }
  sx_assert(text.empty(), "no other log line");
#endif
  auto fails = [&](size_t i) { return bad[i] | badp[i]; };
  auto nbad = 0U;
  for (auto i = 0U; i < n; ++i) nbad += fails(i) ? 1 : 0;
  auto nthrew = 0U;
  for (auto i = 0U; i < n; ++i) {
    sx_assert(runs[i] <= 1, "no job runs twice");
    sx_assert(runs[i] == 0 || out[i] - in[i] == 2 * in[i], "the job saw its element");
    sx_assert(!progress || reports[i] == (runs[i] == 1 && !bad[i] ? 1U : 0U), "progress once per successful job");
    nthrew += runs[i] == 1 && fails(i) ? 1 : 0;
    sx_observe(in[i]);
  }
  if (!quit || nbad == 0) {
    sx_assert(!thrown, "nothing is thrown");
    for (auto i = 0U; i < n; ++i) sx_assert(runs[i] == 1, "every job runs");
    sx_assert(errors.size() == nbad, "one entry per failing job");
    unsigned seen[4] = {};
    for (auto const& e : errors) {
      sx_assert(e.first < n && fails(e.first), "entry names a failing job");
      if (e.first >= n) continue;
      ++seen[e.first];
      try {
        std::rethrow_exception(e.second);
      } catch (failure const& f) {
        sx_assert(f.idx == e.first, "entry carries the exception of its job");
      } catch (...) {
        sx_fail("entry carries another exception");
      }
    }
    for (auto i = 0U; i < n; ++i) sx_assert(seen[i] == (fails(i) ? 1U : 0U), "each failing job is listed once");
    if (!quit && nbad > 1) sx_reach("several errors collected");
    if (nbad == 0) sx_reach("no errors");
  } else {
    sx_assert(thrown, "an error is rethrown");
    sx_assert(thrown_idx < n && runs[thrown_idx] == 1 && fails(thrown_idx), "the error of a job that ran");
    sx_assert(nthrew <= hw, "a thread stops after its error");
    for (auto i = 0U; i < n; ++i) for (auto j = 0U; j < i; ++j) sx_assert(threw[i] == 0 || threw[i] != threw[j], "a thread stops after its error");
    if (hw == 1) for (auto i = 0U; i < n; ++i) sx_assert((runs[i] != 0) == (i <= thrown_idx), "a single thread stops at the first error");
    if (nthrew > 1) sx_reach("several errors, one rethrown");
    sx_reach("error rethrown");
  }
}

// quit strategy: once one job has failed and its thread has stopped, a thread
// that was busy all the while starts no further job
static void stops() {
  auto const n = sx::param("jobs", 3), api = sx::param("api", 0);
  std::mutex m;
  auto failed = false, over = false;
  auto late = 0U, started = 0U;
  auto const job = [&](size_t) {
    bool fail;
    {
      std::lock_guard<std::mutex> l{m};
      fail = started++ == 0;
      if (over) ++late;
    }
    if (fail) throw failure{0};
    sx_idle();  // a long job: everybody else stops or waits meanwhile
    std::lock_guard<std::mutex> l{m};
    over = true;
  };
  try {
    if (api == 0) utl::parallel_for_run(n, job);
    else utl::parallel_for_run_threadlocal<local>(n, [&](local&, size_t i) { job(i); });
  } catch (failure const&) {
    failed = true;
  }
  sx_assert(failed, "an error is rethrown");
  sx_assert(late == 0, "no job starts after the failing thread has stopped");
  if (started == 2) sx_reach("busy thread stopped by an error elsewhere");
}

// as many jobs as threads may wait for each other
static void barrier() {
  auto const hw = sx::param("hw", 2), api = sx::param("api", 0);
  std::mutex m;
  std::condition_variable cv;
  unsigned arrived = 0;
  auto const job = [&](size_t) {
    std::unique_lock<std::mutex> l{m};
    if (++arrived == hw) cv.notify_all();
    else while (arrived != hw) cv.wait(l);
  };
  if (api == 0) utl::parallel_for_run(hw, job);
  else utl::parallel_for_run_threadlocal<local>(hw, [&](local&, size_t i) { job(i); });
  sx_assert(arrived == hw, "all jobs met");
  sx_reach("jobs met at the barrier");
}

extern "C" void sx_main() {
  switch (sx::param("mode", 0)) {
    case 0: all(); break;
    case 1: stops(); break;
    case 2: barrier(); break;
  }
}
