// C12: alarms on the simulated and the real-time clock.
#include <algorithm>
#include <memory>
#include <vector>

#include "common/mcsched.h"
#include "fcp/base/clock.h"
#include "fcp/base/simulated_clock.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
using fcp::Clock;
using fcp::SimulatedClock;

absl::Time T(int s) { return absl::UnixEpoch() + absl::Seconds(s); }

struct Alarm {
  int deadline = 0;
  int registered_at = 0;  // position in the order of registrations
  int wakes = 0;
  int woken_at = 0;       // position in the order of wake-ups
  int op = -1;            // operation during which it was woken
  bool reentrant = false; // registered from within a wake-up
  int reg_op = -1;
};

class Waiter : public Clock::Waiter {
 public:
  explicit Waiter(std::function<void()> f) : f_(std::move(f)) {}
  void WakeUp() override { f_(); }

 private:
  std::function<void()> f_;
};

// Every sequence of registrations, time changes and re-entrant registrations
// on one thread.
MC_SCENARIO(simulated_sequences, {.exec_limit_s = 10}) {
  int depth = ctx.thorough() ? 6 : 5;
  SimulatedClock clock(T(0));
  std::vector<std::unique_ptr<Alarm>> alarms;
  int now = 0, order = 0, wake_order = 0, op = 0;
  // What a waiter does when woken: nothing, register another (relative
  // deadline), or change the time.
  std::function<void(int, int, bool)> add = [&](int deadline, int action,
                                               bool reentrant) {
    alarms.push_back(std::make_unique<Alarm>());
    Alarm* a = alarms.back().get();
    a->deadline = deadline;
    a->registered_at = order++;
    a->reentrant = reentrant;
    a->reg_op = op;
    clock.WakeupWithDeadline(
        T(deadline), std::make_shared<Waiter>([&, a, action] {
          ctx.Check(clock.Now() >= T(a->deadline), "an alarm is woken early");
          ctx.Eq(++a->wakes, 1, "wake-ups of an alarm");
          a->woken_at = wake_order++;
          a->op = op;
          if (action == 1) add(now - 1, 0, true);
          if (action == 2) add(now + 1, 0, true);
          if (action == 3) {
            ++now;
            clock.AdvanceTime(absl::Seconds(1));
          }
        }));
  };
  for (op = 0; op < depth; ++op) {
    int what = ctx.Choose(ctx.thorough() ? 11 : 9, "operation");
    ctx.Step();
    switch (what) {
      case 0: now += 1; clock.AdvanceTime(absl::Seconds(1)); break;
      case 1: now += 2; clock.SetTime(T(now)); break;
      case 2: add(now + 1, 0, false); break;
      case 3: add(now + 2, 0, false); break;
      case 4: add(now, 0, false); break;
      case 5: add(now + 1, 1, false); break;
      case 6: add(now + 1, 2, false); break;
      case 7: add(now + 1, 3, false); break;
      case 8: now -= 1; clock.SetTime(T(now)); break;
      case 9: add(now + 3, 2, false); break;
      case 10: add(now - 1, 3, false); break;
    }
    ctx.Check(clock.Now() == T(now), "the time is not the one set");
    std::string canon = std::to_string(what);
    for (auto& a : alarms) {
      // Time may have been set back since an alarm was woken; none that is due
      // now may be outstanding.
      if (a->deadline <= now)
        ctx.Eq(a->wakes, 1, "wake-ups of an alarm that is due");
      for (auto& b : alarms) {
        // delivered together, both registered before this operation
        if (a->op == op && b->op == op && a->reg_op < op && b->reg_op < op &&
            !a->reentrant && !b->reentrant) {
          bool before = a->deadline < b->deadline ||
                        (a->deadline == b->deadline &&
                         a->registered_at < b->registered_at);
          if (before)
            ctx.Check(a->woken_at < b->woken_at,
                      "alarms delivered together come in deadline order, ties in "
                      "the order of registration");
        }
      }
    }
  }
  std::string canon;
  for (auto& a : alarms)
    canon += std::to_string(a->deadline - now) + (a->wakes ? "w " : "p ");
  ctx.State(canon);
}

// Threads registering alarms and moving the time.
MC_SCENARIO(simulated_threads, {.bound = 3, .bound_thorough = 4}) {
  int registrars = 1 + ctx.Choose(2, "registering threads");
  int movers = 1 + ctx.Choose(2, "threads moving the time");
  int d0 = ctx.Choose(3, "deadline"), d1 = ctx.Choose(3, "deadline");
  int action = ctx.Choose(3, "re-entrancy");
  if (!ctx.thorough() && registrars == 2 && movers == 2 && action) return;
  sched::Run(ctx, [&] {
    SimulatedClock clock(T(0));
    auto add = [&](int id, int deadline, int then) {
      clock.WakeupWithDeadline(
          T(deadline), std::make_shared<Waiter>([&ctx, &clock, id, deadline, then] {
            ctx.Check(clock.Now() >= T(deadline), "an alarm is woken early");
            sched::Log(id);
            if (then == 1)
              clock.WakeupWithDeadline(
                  T(deadline), std::make_shared<Waiter>([] { sched::Log(10); }));
            if (then == 2) clock.AdvanceTime(absl::Seconds(0));
          }));
      sched::Log(100 + id);
    };
    std::vector<mc::thread> ts;
    ts.emplace_back([&] {
      add(0, d0, action);
      if (registrars == 1) add(1, d1, 0);
    });
    if (registrars == 2) ts.emplace_back([&] { add(1, d1, 0); });
    if (movers == 2)
      ts.emplace_back([&] { clock.AdvanceTime(absl::Seconds(1)); });
    else
      clock.AdvanceTime(absl::Seconds(1));
    clock.AdvanceTime(absl::Seconds(1));
    for (auto& t : ts) t.join();
    ctx.Check(clock.Now() == T(2), "a time change is lost");
    auto log = sched::Logged();
    for (int id : {0, 1})
      ctx.Eq(std::count(log.begin(), log.end(), id), 1,
             "wake-ups of an alarm that is due");
    ctx.Eq(std::count(log.begin(), log.end(), 10), action == 1 ? 1 : 0,
           "wake-ups of an alarm registered in a wake-up");
  });
  std::string o;
  for (int c : sched::Logged()) o += std::to_string(c) + " ";
  ctx.Outcome(o);
}

// Sleeping on the simulated clock ends exactly when its time has come.
MC_SCENARIO(simulated_sleep, {.bound = 2, .bound_thorough = 3}) {
  int d = ctx.Choose(4, "sleep");
  int sleepers = 1 + ctx.Choose(2, "sleepers");
  sched::Run(ctx, [&] {
    SimulatedClock clock(T(0));
    std::vector<mc::thread> ts;
    for (int i = 0; i < sleepers; ++i)
      ts.emplace_back([&] {
        // Time may move while the call starts: the end is relative to a moment
        // between `before` and the call.
        absl::Time before = clock.Now();
        clock.Sleep(absl::Seconds(d));
        ctx.Check(clock.Now() >= before + absl::Seconds(d),
                  "a sleep ends early");
        sched::Log(1);
      });
    // One second at a time until everyone has woken up.
    for (int s = 0; static_cast<int>(sched::Logged().size()) < sleepers; ++s) {
      ctx.Check(s <= 60, "a sleep does not end");
      mc::this_thread::yield();
      clock.AdvanceTime(absl::Seconds(1));
    }
    for (auto& t : ts) t.join();
  });
}

// ... and no later.
MC_SCENARIO(simulated_sleep_end, {.bound = 1, .bound_thorough = 2}) {
  int d = ctx.Choose(4, "sleep");
  sched::Run(ctx, [&] {
    SimulatedClock clock(T(5));
    mc::thread t([&] {
      sched::Log(1);
      clock.Sleep(absl::Seconds(d));
      sched::Log(2);
    });
    auto settle = [] {
      for (int i = 0; i < 6; ++i) mc::this_thread::yield();
    };
    settle();
    for (int i = 0; i < d; ++i) {
      ctx.Eq(sched::Logged().size(), 1u, "a sleep ends early");
      clock.AdvanceTime(absl::Seconds(1));
      settle();
    }
    ctx.Eq(sched::Logged().size(), 2u, "a sleep has ended when its time has come");
    t.join();
  });
}

int64_t Now() { return mc::rt::NowNanos(); }
constexpr int64_t kMs = 1000000;
int64_t CeilMs(int64_t n) { return (n + kMs - 1) / kMs * kMs; }

// The real-time clock's wake-up thread, on virtual time.
void RealAlarms(Ctx& ctx, bool exact) {
  static const int64_t us[] = {0, 1000, 1500, 3000, 3000000};
  int n = 1 + ctx.Choose(ctx.thorough() ? 3 : 2, "alarms");
  std::vector<int64_t> delay;
  for (int i = 0; i < n; ++i) delay.push_back(us[ctx.Choose(5, "delay")] * 1000);
  bool two_threads = n > 1 && !exact && ctx.Flip("two threads");
  bool again = ctx.Flip("registers again when woken");
  bool pause = ctx.Flip("pause between registrations");
  sched::RunOptions o;
  o.leftovers_ok = true;
  o.reset_statics = true;
  sched::Run(ctx, [&] {
    Clock* clock = Clock::RealClock();
    ctx.Check(clock == Clock::RealClock(), "there are two real-time clocks");
    std::vector<int64_t> due(n + 1), reg(n + 1), woke(n + 1);
    auto add = [&](int id, int64_t in, auto&& add) -> void {
      int64_t at = Now() + in;
      reg[id] = Now();
      due[id] = at;
      clock->WakeupWithDeadline(
          absl::FromUnixNanos(at), std::make_shared<Waiter>([&, id, at] {
            ctx.Check(Now() >= at, "an alarm is woken early");
            if (exact) woke[id] = Now();
            if (again && id == 0) add(n, 2 * kMs, add);
            sched::Log(id);
          }));
    };
    std::unique_ptr<mc::thread> other;
    for (int i = 0; i < n; ++i) {
      if (i == 1 && two_threads) {
        other = std::make_unique<mc::thread>([&] { add(1, delay[1], add); });
        continue;
      }
      if (i > 0 && pause) clock->Sleep(absl::Milliseconds(1));
      add(i, delay[i], add);
    }
    if (other) other->join();
    size_t total = n + again;
    sched::Until([&] { return sched::Logged().size() >= total; },
                 "alarms of the real-time clock");
    sched::UntilQuiet();
    auto log = sched::Logged();
    for (size_t id = 0; id < total; ++id) {
      ctx.Eq(std::count(log.begin(), log.end(), id), 1, "wake-ups of an alarm");
      if (exact)
        ctx.Check(woke[id] <= std::max(reg[id], CeilMs(due[id])),
                  "an alarm is woken more than a millisecond late");
    }
  }, o);
  std::string out;
  for (int c : sched::Logged()) out += std::to_string(c) + " ";
  ctx.Outcome(out);
}
MC_SCENARIO(real_time_exact, {.bound = 0}) { RealAlarms(ctx, true); }
MC_SCENARIO(real_time_threads, {.bound = 3, .bound_thorough = 4}) {
  RealAlarms(ctx, false);
}
MC_SCENARIO(real_time_sleep, {.bound = 0}) {
  int64_t d = 1000 * ctx.Pick(std::vector<int64_t>{0, 1, 999, 1000, 60000000},
                              "sleep");
  sched::RunOptions o;
  o.leftovers_ok = true;
  o.reset_statics = true;
  sched::Run(ctx, [&] {
    Clock* clock = Clock::RealClock();
    int64_t t = Now();
    ctx.Check(clock->Now() == absl::FromUnixNanos(t), "the time is not the real one");
    clock->Sleep(absl::Nanoseconds(d));
    ctx.Eq(Now() - t, d, "time slept");
  }, o);
}
}  // namespace
static int init = (
    mc::Rule("Every sequence of 5 (thorough: 6) operations out of 9 (11) on the simulated clock, with "
             "waiters that register further alarms or move the time when woken; 1-2 registering and "
             "1-2 time-moving threads; 1-2 (3) alarms on the real-time clock with its wake-up thread "
             "on virtual time; every schedule with at most 2-3 (3-4) deviations from running each "
             "thread until it blocks."),
    mc::Assumption("Memory is sequentially consistent between synchronisation operations; "
                   "unordered plain accesses are reported as data races."),
    0);
