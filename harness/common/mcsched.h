// Controlled scheduling of real threads.  Run() executes `body` as thread 0;
// every thread started through the controlled primitives joins the same
// execution.  Exactly one thread runs at a time, and the scheduler decides
// through Ctx::Choose who continues at each synchronisation operation, so that
// the explorer enumerates the schedules.  The default schedule lets a thread run
// until it blocks and then takes the next one in turn; every deviation from it
// (a preemption, another successor, a timer firing early, a spurious wake-up of
// a condition variable, a signal reaching another than the longest waiter) costs
// 1 of the scenario's bound.
//
// In every execution the runtime also detects data races (vector clocks over
// the compiler's access instrumentation), deadlocks, use of freed memory,
// misuse of locks, and failed FCP_CHECKs.
#ifndef VERIF_MCSCHED_H_
#define VERIF_MCSCHED_H_
#include <functional>
#include <string>

#include "common/mc.h"
#include "mcsync/mcstd.h"

namespace mc {
namespace sched {
struct RunOptions {
  bool leftovers_ok = false;   // threads may still be blocked at the end
  bool spurious = true;        // condition variables may wake spuriously
  bool reset_statics = false;  // function-local statics start afresh each time
  bool fresh_threads = false;  // new system threads (fresh thread_locals) each time
  int64_t start_ns = 1'000'000'000LL * 1000;
  bool fatal_throws = false;   // a failed FCP_CHECK throws mc_fatal::Fatal
  int switch_cost = 1;  // of picking another than the next thread in turn when
                        // the running one blocks (0: a pure preemption bound)
  int max_points = 20000;
};
void Run(Ctx& ctx, std::function<void()> body, RunOptions o = {});
// A place in harness code where the scheduler may switch threads.
void Point(const char* what = "step");
// Blocks the calling thread until `ready` holds.
void Until(std::function<bool()> ready, const char* what = "until");
// True when no other thread can make progress (used to wait for quiescence).
void UntilQuiet();
int Self();
// What happened, in order (kept outside of the race detector's view).
void Log(int code);
std::vector<int> Logged();
// Advances virtual time (timed waiters whose deadline has come become ready).
void AdvanceNanos(int64_t n);
}  // namespace sched
}  // namespace mc
#endif
