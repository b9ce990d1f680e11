// C10: the SecAgg background accumulator and the asynchronous abort signal
// under every schedule (within the bound) of the real thread pools.
#include <memory>
#include <vector>

#include "common/mcsched.h"
#include "fcp/base/scheduler.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/secagg/server/secagg_scheduler.h"
#include "fcp/secagg/shared/async_abort.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
using List = std::vector<int>;
using fcp::secagg::SecAggScheduler;

constexpr int kGen = 1000, kGenEnd = 1100, kAcc = 2000, kAccEnd = 2100,
              kCallback = 3000, kCancelled = 4000, kResult = 5000;

int Count(const std::vector<int>& log, int code) {
  int n = 0;
  for (int c : log) n += c == code;
  return n;
}
int Last(const std::vector<int>& log, int code) {
  int at = -1;
  for (size_t i = 0; i < log.size(); ++i)
    if (log[i] == code) at = i;
  return at;
}

struct World {
  std::unique_ptr<fcp::Scheduler> par, seq;
  fcp::SimulatedClock clock;
  std::unique_ptr<SecAggScheduler> sa;
  std::shared_ptr<fcp::secagg::Accumulator<List>> acc;
  explicit World(int threads)
      : par(fcp::CreateThreadPoolScheduler(threads)),
        seq(fcp::CreateThreadPoolScheduler(1)) {
    sa = std::make_unique<SecAggScheduler>(par.get(), seq.get(), &clock);
    acc = sa->CreateAccumulator<List>(
        std::make_unique<List>(), [](const List& a, const List& b) {
          sched::Log(kAcc + b[0]);
          auto r = std::make_unique<List>(a);
          r->insert(r->end(), b.begin(), b.end());
          sched::Point("accumulate");
          sched::Log(kAccEnd + b[0]);
          return r;
        });
  }
  static std::function<std::unique_ptr<List>()> Gen(int i) {
    return [i] {
      sched::Log(kGen + i);
      auto r = std::make_unique<List>(List{i});
      sched::Point("generate");
      sched::Log(kGenEnd + i);
      return r;
    };
  }
  void Finish() {
    // A parallel task may hand work to the sequential scheduler at its end.
    sa->WaitUntilIdle();
    acc.reset();
    sa.reset();
    par.reset();
    seq.reset();
  }
};
void CheckSum(Ctx& ctx, List got, int n) {
  std::sort(got.begin(), got.end());
  List want;
  for (int i = 0; i < n; ++i) want.push_back(i);
  std::string g;
  for (int v : got) g += std::to_string(v) + " ";
  ctx.Check(got == want, "contributions in the result: " + g);
}
void OneAtATime(Ctx& ctx, const std::vector<int>& log) {
  bool in = false;
  for (int c : log) {
    if (c >= kAcc && c < kAccEnd) {
      ctx.Check(!in, "two accumulation steps overlap");
      in = true;
    } else if (c >= kAccEnd && c < kCallback) {
      in = false;
    } else if (c == kCallback) {
      ctx.Check(!in, "the observer is called during an accumulation step");
    }
  }
}
void Record(Ctx& ctx) {
  std::string o;
  for (int c : sched::Logged()) o += std::to_string(c) + " ";
  ctx.Outcome(o);
}

// Contributions, the observer set at any moment, the result taken in it.
MC_SCENARIO(sum_with_observer, {.bound = 2, .bound_thorough = 3}) {
  int threads = 1 + ctx.Choose(2, "threads");
  int tasks = 1 + ctx.Choose(3, "tasks");
  // The observer is set before task number `when` (only then with 0: no work).
  int when = ctx.Choose(tasks + 1, "observer");
  bool in_callback = ctx.Flip("result taken in the observer");
  sched::Run(ctx, [&] {
    World w(threads);
    List result;
    bool set = false;
    auto observe = [&] {
      set = w.acc->SetAsyncObserver([&] {
        sched::Log(kCallback);
        if (in_callback && when == tasks) {
          ctx.Check(w.acc->IsIdle(), "observed while work remains");
          auto r = w.acc->GetResultAndCancel();
          ctx.Check(r != nullptr, "no result");
          result = *r;
        }
      });
      ctx.Eq(set, when > 0, "work was under way when the observer was set");
    };
    if (when == 0) observe();
    for (int i = 0; i < tasks; ++i) {
      w.acc->Schedule(World::Gen(i));
      if (when == i + 1) observe();
    }
    if (when == 0) {
      // Nothing had been scheduled; now there is something to observe.
      when = tasks;
      observe();
    }
    w.sa->WaitUntilIdle();
    auto log = sched::Logged();
    OneAtATime(ctx, log);
    ctx.Eq(Count(log, kCallback), 1, "calls of the observer");
    for (int i = 0; i < tasks; ++i) {
      ctx.Eq(Count(log, kGen + i), 1, "times a contribution was made");
      ctx.Eq(Count(log, kAccEnd + i), 1, "times a contribution was added");
    }
    if (when == tasks) {
      for (int i = 0; i < tasks; ++i)
        ctx.Check(Last(log, kAccEnd + i) < Last(log, kCallback),
                  "the observer is called before a contribution was added");
    } else {
      for (int i = 0; i < when; ++i)
        ctx.Check(Last(log, kAccEnd + i) < Last(log, kCallback),
                  "the observer is called before a contribution was added");
    }
    ctx.Check(w.acc->IsIdle(), "not idle after all the work");
    if (!(in_callback && when == tasks)) {
      auto r = w.acc->GetResultAndCancel();
      ctx.Check(r != nullptr, "no result");
      result = *r;
    }
    CheckSum(ctx, result, tasks);
    ctx.Check(!w.acc->SetAsyncObserver([] { sched::Log(kCallback); }) ||
                  when < tasks,
              "an observer is accepted although nothing happened since");
    w.Finish();
    if (when == tasks)
      ctx.Eq(Count(sched::Logged(), kCallback), 1, "calls of the observer");
  });
  Record(ctx);
}

// Two batches, each observed.
MC_SCENARIO(two_batches, {.bound = 2, .bound_thorough = 3}) {
  int threads = 1 + ctx.Choose(2, "threads");
  int first = 1 + ctx.Choose(2, "tasks");
  bool wait = ctx.Flip("wait between the batches");
  sched::Run(ctx, [&] {
    World w(threads);
    for (int i = 0; i < first; ++i) w.acc->Schedule(World::Gen(i));
    ctx.Check(w.acc->SetAsyncObserver([] { sched::Log(kCallback); }),
              "the observer is refused");
    if (wait) {
      sched::Until([] { return Count(sched::Logged(), kCallback) == 1; },
                   "first observer");
    } else {
      w.sa->WaitUntilIdle();
    }
    w.acc->Schedule(World::Gen(first));
    ctx.Check(w.acc->SetAsyncObserver([] { sched::Log(kCallback); }),
              "the observer of the second batch is refused");
    sched::Until([] { return Count(sched::Logged(), kCallback) == 2; },
                 "second observer");
    CheckSum(ctx, *w.acc->GetResultAndCancel(), first + 1);
    auto log = sched::Logged();
    OneAtATime(ctx, log);
    ctx.Eq(log.back(), kCallback, "last event");
    w.Finish();
    ctx.Eq(Count(sched::Logged(), kCallback), 2, "calls of the observers");
  });
  Record(ctx);
}

// Cancellation at any moment, from one or two threads.
MC_SCENARIO(cancellation, {.bound = 3, .bound_thorough = 4}) {
  int threads = 1 + ctx.Choose(2, "threads");
  int tasks = 1 + ctx.Choose(2, "tasks");
  int cancels = 1 + ctx.Choose(2, "cancelling threads");
  bool observer = ctx.Flip("observer");
  if (threads == 2 && cancels == 2 && observer && !ctx.thorough()) return;
  sched::Run(ctx, [&] {
    World w(threads);
    auto cancel = [&] {
      w.acc->Cancel();
      sched::Log(kCancelled);
      ctx.Check(w.acc->IsCancelled(), "not cancelled");
    };
    for (int i = 0; i < tasks; ++i) w.acc->Schedule(World::Gen(i));
    if (observer) (void)w.acc->SetAsyncObserver([] { sched::Log(kCallback); });
    mc::thread other;
    if (cancels == 2) other = mc::thread(cancel);
    cancel();
    w.acc->Schedule(World::Gen(tasks));  // does nothing any more
    if (cancels == 2) other.join();
    w.Finish();
    auto log = sched::Logged();
    bool over = false;
    for (int c : log) {
      if (c == kCancelled) {
        over = true;
      } else if (c < kCallback) {
        ctx.Check(!over,
                  "part of the computation runs after cancellation returned");
      }
    }
    OneAtATime(ctx, log);
    for (int i = 0; i < tasks; ++i) {
      ctx.Check(Count(log, kGen + i) <= 1, "a contribution is made twice");
      ctx.Check(Count(log, kAcc + i) <= Count(log, kGenEnd + i),
                "a contribution is added that was not made");
    }
    ctx.Check(Count(log, kCallback) <= 1, "the observer is called twice");
    if (Count(log, kCallback))
      for (int i = 0; i < tasks; ++i)
        ctx.Eq(Count(log, kAccEnd + i), 1, "contributions when observed");
  });
  Record(ctx);
}

// Delayed contributions run only once their time has come.
MC_SCENARIO(delayed, {.bound = 2, .bound_thorough = 3}) {
  int threads = 1 + ctx.Choose(2, "threads");
  int d0 = ctx.Choose(3, "delay");
  int d1 = ctx.Choose(3, "delay");
  bool cancel = ctx.Flip("cancelled at the end");
  sched::Run(ctx, [&] {
    World w(threads);
    int delay[2] = {d0, d1};
    for (int i = 0; i < 2; ++i)
      w.acc->Schedule(World::Gen(i), absl::Seconds(delay[i]));
    ctx.Check(w.acc->SetAsyncObserver([] { sched::Log(kCallback); }),
              "the observer is refused");
    for (int t = 1; t <= 2; ++t) {
      auto log = sched::Logged();
      for (int i = 0; i < 2; ++i)
        if (delay[i] >= t)
          ctx.Eq(Count(log, kGen + i), 0, "contributions made before their time");
      w.clock.AdvanceTime(absl::Seconds(1));
    }
    if (cancel) {
      w.acc->Cancel();
      sched::Log(kCancelled);
    } else {
      w.sa->WaitUntilIdle();
      ctx.Eq(Count(sched::Logged(), kCallback), 1, "calls of the observer");
      CheckSum(ctx, *w.acc->GetResultAndCancel(), 2);
    }
    w.Finish();
    auto log = sched::Logged();
    bool over = false;
    for (int c : log) {
      if (c == kCancelled) over = true;
      if (c < kCallback)
        ctx.Check(!over,
                  "part of the computation runs after cancellation returned");
    }
  });
  Record(ctx);
}

// The abort signal: once raised it stays raised, with the message given.
MC_SCENARIO(abort_signal, {.bound = 4, .bound_thorough = 6}) {
  int aborters = 1 + ctx.Choose(2, "aborters");
  int pollers = 1 + ctx.Choose(2, "pollers");
  sched::Run(ctx, [&] {
    mc::atomic<std::string*> signal{nullptr};
    fcp::secagg::AsyncAbort abort(&signal);
    const char* text[2] = {"first reason, long enough for the heap",
                           "second reason, also long enough for it"};
    auto poll = [&] {
      bool seen = false;
      for (int i = 0; i < 3; ++i) {
        int done = Count(sched::Logged(), kCancelled);
        bool s = abort.Signalled();
        ctx.Check(s || !seen, "a raised abort signal is no longer raised");
        ctx.Check(s || done == 0, "an abort that was signalled is not seen");
        if (s) {
          std::string m = abort.Message();
          ctx.Check(m == text[0] || (aborters == 2 && m == text[1]),
                    "abort message: " + m);
        }
        seen = s;
      }
    };
    auto raise = [&](int i) {
      abort.Abort(text[i]);
      sched::Log(kCancelled);
    };
    std::vector<mc::thread> ts;
    for (int i = 0; i < pollers; ++i) ts.emplace_back(poll);
    if (aborters == 2) ts.emplace_back([&] { raise(1); });
    raise(0);
    for (auto& t : ts) t.join();
    ctx.Check(abort.Signalled(), "the abort is lost");
    poll();
  });
  Record(ctx);
}
}  // namespace
static int init = (
    mc::Rule("Parallel pools of 1-2 threads and a sequential one, 1-3 contributions, the observer "
             "set at every position, cancellation from one or two threads, delays of 0-2 s on a "
             "simulated clock, 1-2 aborting and 1-2 polling threads; every schedule with at most "
             "2-4 (thorough: 3-6) deviations from running each thread until it blocks."),
    mc::Assumption("Memory is sequentially consistent between synchronisation operations; "
                   "unordered plain accesses are reported as data races."),
    0);
