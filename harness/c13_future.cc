// C13: futures, reentrancy guards and process-unique identifiers under every
// schedule (within the bound).
#include <memory>
#include <set>
#include <vector>

#include "common/mcsched.h"
#include "fcp/base/future.h"
#include "fcp/base/move_to_lambda.h"
#include "fcp/base/process_unique_id.h"
#include "fcp/base/reentrancy_guard.h"
#include "fcp/base/scheduler.h"
#include "fcp/base/unique_value.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
using fcp::thread::Future;
using fcp::thread::MakeFuture;
using fcp::thread::Promise;
using Value = std::unique_ptr<std::string>;  // move-only, on the heap

constexpr int kProvided = 1;

Value Make() { return std::make_unique<std::string>("the value that was given"); }
int64_t Now() { return mc::rt::NowNanos(); }

// One thread provides (or drops) the value, another waits and takes it.
MC_SCENARIO(future_and_promise, {.bound = 8, .bound_thorough = 12}) {
  enum { kSet, kDrop, kMoveSet, kMoveDrop, kAssignSet, kOverwrite, kLate };
  int how = ctx.Choose(7, "promise");
  // what the consumer does before taking: poll, wait with various timeouts
  int waits = ctx.Choose(3, "waits");
  int kind = waits ? ctx.Choose(4, "timeout") : 0;
  bool moved = ctx.Flip("future moved");
  sched::Run(ctx, [&] {
    auto pair = MakeFuture<Value>();
    auto other = MakeFuture<Value>();
    mc::thread producer([&, p = std::make_shared<Promise<Value>>(
                                std::move(pair.promise))] {
      switch (how) {
        case kSet:
          sched::Log(kProvided);
          std::move(*p).Set(Make());
          break;
        case kDrop: {
          sched::Log(kProvided);
          Promise<Value> gone(std::move(*p));
          break;
        }
        case kMoveSet: {
          Promise<Value> q(std::move(*p));
          sched::Log(kProvided);
          std::move(q).Set(Make());
          break;
        }
        case kMoveDrop: {
          auto q = std::make_unique<Promise<Value>>(std::move(*p));
          sched::Point();
          sched::Log(kProvided);
          q.reset();
          break;
        }
        case kAssignSet: {
          auto spare = MakeFuture<Value>();
          Promise<Value> q(std::move(spare.promise));
          std::move(q).Set(Make());
          q = std::move(*p);
          sched::Log(kProvided);
          std::move(q).Set(Make());
          break;
        }
        case kOverwrite:
          // the only promise for the future is replaced: it is gone
          sched::Log(kProvided);
          *p = std::move(other.promise);
          break;
        case kLate:
          mc::this_thread::sleep_for(std::chrono::milliseconds(5));
          sched::Log(kProvided);
          std::move(*p).Set(Make());
          break;
      }
    });
    Future<Value> f(std::move(pair.future));
    if (moved) {
      Future<Value> g(std::move(f));
      f = std::move(g);
    }
    bool ready = false;
    for (int i = 0; i < waits; ++i) {
      static const absl::Duration kTimeout[] = {
          absl::ZeroDuration(), absl::Milliseconds(1), absl::Milliseconds(10),
          absl::InfiniteDuration()};
      int64_t t = Now();
      bool r = f.Wait(kTimeout[kind]);
      bool provided = !sched::Logged().empty();
      ctx.Check(!r || provided, "a wait reports readiness before it is there");
      ctx.Check(r || !ready, "a future that was ready is no longer ready");
      if (!r)
        ctx.Check(kind < 3 && Now() - t >= absl::ToInt64Nanoseconds(kTimeout[kind]),
                  "a wait gives up before its time");
      ready = r;
    }
    int64_t t = Now();
    std::optional<Value> v = std::move(f).Take();
    ctx.Check(!sched::Logged().empty(), "a value is taken before it is there");
    if (ready) ctx.Eq(Now() - t, 0, "time to take a value that is ready");
    bool want = how != kDrop && how != kMoveDrop && how != kOverwrite;
    ctx.Eq(v.has_value(), want, "the future has a value");
    if (want)
      ctx.Check(*v != nullptr && **v == *Make(), "the future has another value");
    producer.join();
  });
  ctx.Outcome(std::to_string(how) + "/" + std::to_string(waits));
}

// The consumer gives up its future; the producer must not notice.
MC_SCENARIO(future_dropped, {.bound = 4, .bound_thorough = 6}) {
  int how = ctx.Choose(2, "promise");
  sched::Run(ctx, [&] {
    auto pair = MakeFuture<Value>();
    mc::thread producer(
        [how, p = std::make_shared<Promise<Value>>(std::move(pair.promise))] {
          if (how == 0) std::move(*p).Set(Make());
        });
    { Future<Value> f(std::move(pair.future)); }
    producer.join();
  });
}

// A computation on a real pool, delivered through a future.
MC_SCENARIO(scheduled_future, {.bound = 4, .bound_thorough = 5}) {
  int threads = 1 + ctx.Choose(2, "threads");
  int n = 1 + ctx.Choose(2, "futures");
  sched::Run(ctx, [&] {
    auto pool = fcp::CreateThreadPoolScheduler(threads);
    int runs[2] = {0, 0};
    std::vector<Future<std::string>> fs;
    for (int i = 0; i < n; ++i)
      fs.push_back(fcp::thread::ScheduleFuture<std::string>(
          pool.get(), [&runs, i]() -> std::string {
            ++runs[i];
            return "result of the computation number " + std::to_string(i);
          }));
    for (int i = n - 1; i >= 0; --i) {
      auto v = std::move(fs[i]).Take();
      ctx.Check(v.has_value() &&
                    *v == "result of the computation number " + std::to_string(i),
                "the future does not have the computation's result");
      ctx.Eq(runs[i], 1, "runs of the computation");
    }
    pool->WaitUntilIdle();
    pool.reset();
  });
}

// A scheduler that drops its tasks: the futures end without a value.
class Dropping : public fcp::Scheduler {
 public:
  void Schedule(std::function<void()> task) override { tasks.push_back(task); }
  void WaitUntilIdle() override {}
  std::vector<std::function<void()>> tasks;
};
MC_SCENARIO(dropped_future, {}) {
  int run = ctx.Choose(3, "run");
  Dropping d;
  auto a = fcp::thread::ScheduleFuture<int>(&d, [] { return 1; });
  auto b = fcp::thread::ScheduleFuture<int>(&d, [] { return 2; });
  ctx.Step();
  if (run > 0) d.tasks[0]();
  if (run > 1) d.tasks[1]();
  ctx.Eq(a.Wait(absl::ZeroDuration()), run > 0, "first future ready");
  ctx.Eq(b.Wait(absl::ZeroDuration()), run > 1, "second future ready");
  d.tasks.clear();
  auto x = std::move(a).Take();
  auto y = std::move(b).Take();
  ctx.Eq(x.value_or(-1), run > 0 ? 1 : -1, "value of the first future");
  ctx.Eq(y.value_or(-1), run > 1 ? 2 : -1, "value of the second future");
  ctx.State(std::to_string(run));
}

// A guarded section entered by several threads.
MC_SCENARIO(reentrancy_guard, {.bound = 4, .bound_thorough = 6}) {
  int threads = 2 + ctx.Choose(2, "threads");
  int rounds = 1 + ctx.Choose(2, "rounds");
  bool nested = ctx.Flip("nested call");
  sched::Run(ctx, [&] {
    mc::atomic<bool> in_use{false};
    int section = 0;  // plain: overlapping entries are races
    auto method = [&](auto&& method, bool inner) -> bool {
      fcp::ReentrancyGuard guard;
      auto s = guard.Check(&in_use);
      if (!s.ok()) {
        ctx.Check(absl::IsFailedPrecondition(s),
                  "the error for a concurrent call");
        return false;
      }
      sched::Log(1);
      ++section;
      if (nested && !inner)
        ctx.Check(!method(method, true), "a nested call is admitted");
      sched::Point();
      ++section;
      sched::Log(-1);
      return true;
    };
    std::vector<mc::thread> ts;
    int admitted[3] = {0};
    for (int i = 0; i < threads; ++i) {
      auto body = [&, i] {
        for (int r = 0; r < rounds; ++r) admitted[i] += method(method, false);
      };
      if (i + 1 < threads)
        ts.emplace_back(body);
      else
        body();
    }
    for (auto& t : ts) t.join();
    auto log = sched::Logged();
    int depth = 0, entries = 0;
    for (int e : log) {
      depth += e;
      entries += e > 0;
      ctx.Check(depth <= 1, "two callers are in the guarded section");
    }
    ctx.Eq(admitted[0] + admitted[1] + admitted[2], entries, "admitted calls");
    ctx.Check(entries >= 1, "nobody was admitted");
    ctx.Check(method(method, false), "the section is not free after it was left");
    ctx.Outcome(std::to_string(entries));
  });
}
// With no one inside, a caller is admitted: two callers one after another.
MC_SCENARIO(guard_sequences, {}) {
  mc::atomic<bool> a{false}, b{false};
  std::vector<std::pair<int, std::unique_ptr<fcp::ReentrancyGuard>>> open;
  bool held[2] = {false, false};
  for (int i = 0; i < 6; ++i) {
    int op = ctx.Choose(3, "operation");
    ctx.Step();
    if (op < 2) {
      auto g = std::make_unique<fcp::ReentrancyGuard>();
      bool ok = g->Check(op ? &b : &a).ok();
      ctx.Eq(ok, !held[op], "admitted");
      // keeps refused guards too: leaving them must not free the section
      open.emplace_back(ok ? op : -1, std::move(g));
      held[op] = true;
    } else if (!open.empty()) {
      int which = ctx.Choose(open.size(), "leave");
      if (open[which].first >= 0) held[open[which].first] = false;
      open.erase(open.begin() + which);
    }
    ctx.Eq(a.load(), held[0], "first section in use");
    ctx.Eq(b.load(), held[1], "second section in use");
  }
  ctx.State(std::to_string(held[0]) + std::to_string(held[1]) +
            std::to_string(open.size()));
}

MC_SCENARIO(unique_ids, {.bound = 6, .bound_thorough = 8}) {
  int threads = 2 + ctx.Choose(2, "threads");
  int each = 1 + ctx.Choose(3, "identifiers each");
  sched::Run(ctx, [&] {
    std::vector<std::vector<uint64_t>> got(threads);
    auto draw = [&](int i) {
      for (int k = 0; k < each; ++k)
        got[i].push_back(fcp::ProcessUniqueId::Next().value());
    };
    std::vector<mc::thread> ts;
    for (int i = 1; i < threads; ++i) ts.emplace_back([&, i] { draw(i); });
    draw(0);
    for (auto& t : ts) t.join();
    std::set<uint64_t> all;
    for (auto& v : got)
      for (uint64_t x : v)
        ctx.Check(all.insert(x).second, "an identifier is drawn twice");
    // A copy is the same identifier, a later one is new.
    auto id = fcp::ProcessUniqueId::Next();
    auto copy = id;
    ctx.Eq(copy.value(), id.value(), "a copied identifier");
    ctx.Check(all.insert(id.value()).second, "an identifier is drawn twice");
  });
}
// Move-only values and values moved into lambdas.
MC_SCENARIO(unique_values, {}) {
  using UV = fcp::UniqueValue<std::shared_ptr<int>>;
  std::shared_ptr<int> v[2] = {std::make_shared<int>(7), std::make_shared<int>(8)};
  UV x(v[0]), y(v[1]);
  int mx = 0, my = 1;  // model: which value, -1 none
  for (int i = 0; i < 4; ++i) {
    int op = ctx.Choose(8, "operation");
    ctx.Step();
    switch (op) {
      case 0: x = std::move(y); mx = my; my = -1; break;
      case 1: { UV z(std::move(x)); y = std::move(z); my = mx; mx = -1; break; }
      case 2: x.Reset(); mx = -1; break;
      case 3: y.Emplace(v[0]); my = 0; break;
      case 4:
        if (x.has_value()) {
          ctx.Check(std::move(x).Take() == v[mx], "value taken");
          mx = -1;
        }
        break;
      case 5: { UV gone(std::move(y)); my = -1; break; }
      case 6:
        if (mx >= 0) {
          auto w = fcp::MoveToLambda(std::move(x));
          mx = -1 - mx - 1;
          auto f = [w]() mutable { return std::move(*w).Take(); };
          auto f2 = f;  // the copy has the value now
          ctx.Check(f2() == v[-mx - 2], "value moved into a lambda");
          mx = -1;
        }
        break;
      case 7: y = UV(std::nullopt); my = -1; break;
    }
    ctx.Eq(x.has_value(), mx >= 0, "first holds a value");
    ctx.Eq(y.has_value(), my >= 0, "second holds a value");
    if (mx >= 0) ctx.Check(*x == v[mx], "first value");
    if (my >= 0) ctx.Check(*y == v[my], "second value");
    for (int k = 0; k < 2; ++k)
      ctx.Eq(v[k].use_count(), 1 + (mx == k) + (my == k), "copies of a value");
  }
  ctx.State(std::to_string(mx) + "/" + std::to_string(my));
}
}  // namespace
static int init = (
    mc::Rule("7 ways to provide or drop a value against 0-2 waits with 4 timeouts; 1-2 computations "
             "on pools of 1-2 threads; 2-3 threads entering a guarded section once or twice, nested "
             "or not; every sequence of 6 entries and exits over two sections; 2-3 threads drawing "
             "1-3 identifiers; every schedule with at most 4-8 (thorough: 5-12) deviations from "
             "running each thread until it blocks."),
    mc::Assumption("Memory is sequentially consistent between synchronisation operations; "
                   "unordered plain accesses are reported as data races."),
    0);
