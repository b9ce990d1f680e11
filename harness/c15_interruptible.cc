// C15: interruptible work: its result, its cancellation, the diagnostics and
// the runner's destruction, on virtual time and under every schedule (within
// the bound).
#include <memory>
#include <vector>

#include "common/mcsched.h"
#include "fcp/client/interruptible_runner.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
using fcp::client::DebugDiagCode;
using fcp::client::HistogramCounters;
using fcp::client::InterruptibleRunner;
using fcp::client::ProdDiagCode;

constexpr ProdDiagCode kInterrupted =
    ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_TF_EXECUTION;
constexpr ProdDiagCode kTimeout =
    ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_TF_EXECUTION_TIMED_OUT;
constexpr ProdDiagCode kInterruptedExtended =
    ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_TF_EXTENDED_EXECUTION_COMPLETED;
constexpr ProdDiagCode kTimeoutExtended =
    ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_TF_EXTENDED_EXECUTION_TIMED_OUT;

class Log : public fcp::client::LogManager {
 public:
  void LogDiag(ProdDiagCode c) override { codes.push_back(c); }
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int,
                          fcp::client::engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
  std::vector<ProdDiagCode> codes;
};

int64_t Ms() { return mc::rt::NowNanos() / 1'000'000; }
absl::Duration D(int ms) { return absl::Milliseconds(ms); }
std::string Show(const std::vector<ProdDiagCode>& v) {
  std::string s;
  for (ProdDiagCode c : v)
    s += c == kInterrupted           ? "interrupted "
         : c == kTimeout             ? "timeout "
         : c == kInterruptedExtended ? "interrupted-extended "
         : c == kTimeoutExtended     ? "timeout-extended "
                                     : "? ";
  return s;
}
constexpr int kPoll = 10, kGraceful = 30, kExtended = 50;
std::unique_ptr<InterruptibleRunner> MakeRunner(Log* log, std::function<bool()> f) {
  InterruptibleRunner::TimingConfig t{D(kPoll), D(kGraceful), D(kExtended)};
  InterruptibleRunner::DiagnosticsConfig d{kInterrupted, kTimeout, kInterruptedExtended,
                                           kTimeoutExtended};
  return std::make_unique<InterruptibleRunner>(log, std::move(f), t, d);
}
absl::Status Result(int i) {
  switch (i) {
    case 0: return absl::OkStatus();
    case 1: return absl::DataLossError("the work's own failure");
    default: return absl::CancelledError("the work's own cancellation");
  }
}

// One run in exact virtual time against a calculation of what must happen.
struct Expect {
  bool started = true, aborted = false, exits = false, own = false;
  int64_t returns = 0, abort_at = 0, work_end = 0;
  std::vector<ProdDiagCode> diags;
};
// `natural`: when the work ends by itself; `signal`: from when on the abort
// signal is up (-1: never); `reaction`: how long the work needs once told.
Expect Predict(int natural, int signal, int reaction) {
  Expect e;
  if (signal == 0) {
    e.started = false;
    return e;
  }
  for (int t = kPoll;; t += kPoll) {
    if (natural < t) {
      e.own = true;
      e.returns = e.work_end = natural;
      return e;
    }
    if (signal >= 0 && signal <= t) {
      e.aborted = true;
      e.abort_at = t;
      break;
    }
  }
  e.work_end = std::min<int64_t>(natural, e.abort_at + reaction);
  int64_t took = e.work_end - e.abort_at;
  if (took < kGraceful) {
    e.diags = {kInterrupted};
    e.returns = e.work_end;
  } else if (took < kGraceful + kExtended) {
    e.diags = {kTimeout, kInterruptedExtended};
    e.returns = e.work_end;
  } else {
    e.diags = {kTimeout, kTimeoutExtended};
    e.returns = e.abort_at + kGraceful + kExtended;
    e.exits = true;
  }
  return e;
}

MC_SCENARIO(exact_runs, {.bound = 0}) {
  static const int kNatural[] = {0, 5, 15, 35, 47, 73, 99, 121, 100000};
  static const int kSignal[] = {-1, 0, 3, 10, 17, 40, 41, 60};
  static const int kReaction[] = {0, 1, 29, 31, 79, 81, 500};
  int runs = 1 + ctx.Choose(ctx.thorough() ? 3 : 2, "runs");
  struct One {
    int natural, signal, reaction, result;
  };
  std::vector<One> plan;
  for (int i = 0; i < runs; ++i) {
    One o;
    o.natural = kNatural[ctx.Choose(9, "natural end")];
    o.signal = kSignal[ctx.Choose(8, "signal")];
    o.reaction = kReaction[ctx.Choose(7, "reaction")];
    o.result = ctx.Choose(i == 0 ? 3 : 1, "result");
    if (o.signal < 0 && o.natural > 1000) ctx.Prune();
    if (i > 0 && plan[0].natural % 2 == 0 && !ctx.thorough()) ctx.Prune();
    if (i > 1 && (plan[0].natural != 5 || plan[1].reaction > 31)) ctx.Prune();
    // an exiting process makes no further runs
    if (i > 0 && Predict(plan[i - 1].natural, plan[i - 1].signal, plan[i - 1].reaction).exits)
      ctx.Prune();
    plan.push_back(o);
  }
  sched::Run(ctx, [&] {
    Log log;
    int64_t signal_time = -1;
    auto runner = MakeRunner(&log, [&] { return signal_time >= 0 && Ms() >= signal_time; });
    for (const One& o : plan) {
      Expect e = Predict(o.natural, o.signal, o.reaction);
      int64_t start = Ms();
      signal_time = o.signal < 0 ? -1 : start + o.signal;
      log.codes.clear();
      int started = 0, ended = 0, aborts = 0;
      int64_t abort_at = -1, work_end = -1;
      mc::abslx::Mutex mu;
      bool told = false;
      bool exited = false;
      absl::Status s;
      try {
        s = runner->Run(
            [&] {
              ++started;
              {
                mc::abslx::MutexLock l(&mu);
                mu.AwaitWithTimeout(mc::abslx::Condition(&told), D(o.natural));
              }
              bool t;
              {
                mc::abslx::MutexLock l(&mu);
                t = told;
              }
              if (t) {
                int64_t rest = std::min<int64_t>(o.reaction, start + o.natural - Ms());
                if (rest > 0) mc::this_thread::sleep_for(std::chrono::milliseconds(rest));
              }
              work_end = Ms() - start;
              ++ended;
              return Result(o.result);
            },
            [&] {
              ++aborts;
              abort_at = Ms() - start;
              mc::abslx::MutexLock l(&mu);
              told = true;
            });
      } catch (mc::ProcessExit& x) {
        exited = true;
        ctx.Eq(x.code, 0, "exit code");
      }
      ctx.Eq(Ms() - start, e.returns, "milliseconds until the run returns");
      ctx.Eq(exited, e.exits, "the process gives up");
      ctx.Eq(Show(log.codes), Show(e.diags), "diagnostics");
      ctx.Eq(aborts, e.aborted ? 1 : 0, "calls of the abort function");
      if (e.aborted) ctx.Eq(abort_at, e.abort_at, "time of the abort");
      if (!exited) {
        ctx.Eq(started, e.started ? 1 : 0, "times the work was started");
        ctx.Eq(ended, e.started ? 1 : 0, "times the work has ended");
        if (e.started) ctx.Eq(work_end, e.work_end, "end of the work");
        if (e.own)
          ctx.Eq(s.ToString(), Result(o.result).ToString(), "status");
        else
          ctx.Eq((int)s.code(), (int)absl::StatusCode::kCancelled, "status code");
      } else {
        runner = nullptr;
        ctx.Eq(ended, 1, "the work has ended when the runner is gone");
      }
    }
    runner = nullptr;
  });
}

// The same under every schedule, with the signal raised by another thread.
MC_SCENARIO(schedules, {.bound = 4, .bound_thorough = 5}) {
  int runs = 1 + ctx.Choose(2, "runs");
  int natural = ctx.Choose(3, "the work");  // at once, after a while, when told
  bool slow = natural == 2 && ctx.Flip("slow to react");
  int signals = natural == 2 ? 1 : ctx.Choose(2, "signal");
  sched::Run(ctx, [&] {
    Log log;
    mc::atomic<bool> signal{false};
    bool seen = false;  // only touched by the calling thread
    auto runner = MakeRunner(&log, [&] {
      bool r = signal.load();
      seen |= r;
      return r;
    });
    mc::thread other([&] {
      if (signals) {
        if (natural) mc::this_thread::sleep_for(std::chrono::milliseconds(12));
        signal.store(true);
      }
    });
    for (int i = 0; i < runs; ++i) {
      log.codes.clear();
      seen = false;
      int begun = 0, finished = 0;  // plain memory: handed over by the runner
      int aborts = 0;
      mc::abslx::Notification told;
      bool exited = false;
      absl::Status s;
      int64_t aborted_at = 0;
      try {
        s = runner->Run(
            [&] {
              begun++;
              if (natural == 1) mc::this_thread::sleep_for(std::chrono::milliseconds(25));
              if (natural == 2) {
                told.WaitForNotification();
                if (slow) mc::this_thread::sleep_for(std::chrono::milliseconds(45));
              }
              finished++;
              return absl::DataLossError("own");
            },
            [&] {
              ctx.Check(seen, "an abort without a signal");
              ++aborts;
              aborted_at = Ms();
              told.Notify();
            });
      } catch (mc::ProcessExit&) {
        exited = true;
      }
      if (exited) {
        // (only when virtual time runs ahead of the work)
        ctx.Eq(aborts, 1, "aborts before giving up");
        ctx.Check(Ms() - aborted_at >= kGraceful + kExtended, "gives up early");
        ctx.Eq(Show(log.codes), Show({kTimeout, kTimeoutExtended}), "diagnostics");
        break;
      }
      if (s.code() == absl::StatusCode::kDataLoss) {
        ctx.Eq(aborts, 0, "aborts of work that ended by itself");
        ctx.Eq(begun, 1, "starts");
        ctx.Eq(finished, 1, "ends");
        ctx.Eq(Show(log.codes), "", "diagnostics");
        ctx.Check(natural != 2, "work that was not told has ended");
      } else {
        ctx.Eq((int)s.code(), (int)absl::StatusCode::kCancelled, "status code");
        ctx.Check(seen, "a cancellation without a signal");
        if (aborts == 0) {
          ctx.Eq(begun, 0, "starts of work that was cancelled before");
          ctx.Eq(Show(log.codes), "", "diagnostics");
        } else {
          ctx.Eq(aborts, 1, "aborts");
          ctx.Eq(begun, 1, "starts");
          ctx.Eq(finished, 1, "ends");
          std::string d = Show(log.codes);
          int64_t took = Ms() - aborted_at;
          bool in_time = d == Show({kInterrupted});
          ctx.Check(in_time || d == Show({kTimeout, kInterruptedExtended}),
                    "wrong diagnostics: " + d);
          ctx.Check(in_time || took >= kGraceful, "a timeout before its time");
        }
      }
      ctx.Outcome(s.ToString() + Show(log.codes));
    }
    runner = nullptr;
    other.join();
  });
}

// A runner destroyed while work of an exited run goes on waits for it.
MC_SCENARIO(destruction, {.bound = 4, .bound_thorough = 5}) {
  int late = ctx.Choose(3, "the work ends");
  sched::Run(ctx, [&] {
    Log log;
    bool signal = false;
    auto runner = MakeRunner(&log, [&] { return std::exchange(signal, true); });
    auto heap = std::make_unique<int>(0);  // freed once the runner is gone
    bool exited = false;
    try {
      runner->Run(
          [&, late] {
            mc::this_thread::sleep_for(std::chrono::milliseconds(95 + 40 * late));
            ++*heap;
            return absl::OkStatus();
          },
          [] {});
    } catch (mc::ProcessExit&) {
      exited = true;
    }
    runner = nullptr;
    ctx.Eq(*heap, 1, "the work has ended");
    heap = nullptr;
    ctx.Outcome(exited ? "exit" : "done");
  });
}
}  // namespace

static int init = (
    mc::Rule("Every combination of 9 durations of the work, 8 times of the signal, 7 reaction times "
             "and 3 results for up to 2 (thorough: 3) runs in exact virtual time; every schedule with "
             "at most 4 (thorough: 5) deviations of the work, the signalling thread, the caller and "
             "the timeouts."),
    mc::Assumption("Memory is sequentially consistent between synchronisation operations; weaker "
                   "orderings are only covered by the race detector."),
    mc::Assumption("Ending the process is replaced by an exception that leaves the call."),
    0);
