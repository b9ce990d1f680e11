// C11: thread-pool scheduler and workers under every schedule (within the
// preemption bound) of the pool's threads and the submitters.
#include <memory>
#include <vector>

#include "common/mcsched.h"
#include "fcp/base/scheduler.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;

constexpr int kStart = 1000, kEnd = 2000;

// Runs `id`: start, a place where others may run, end.  `cells[id]` is plain
// memory, so that the race detector checks the ordering guarantees too.
void Body(int* cell, int id) {
  sched::Log(kStart + id);
  ++*cell;
  sched::Point("task");
  sched::Log(kEnd + id);
}
int Count(const std::vector<int>& log, int code) {
  int n = 0;
  for (int c : log) n += c == code;
  return n;
}
int At(const std::vector<int>& log, int code) {
  for (size_t i = 0; i < log.size(); ++i)
    if (log[i] == code) return i;
  return -1;
}
void AllOnce(Ctx& ctx, int n, const int* cells, const char* when) {
  auto log = sched::Logged();
  for (int i = 0; i < n; ++i) {
    ctx.Eq(Count(log, kStart + i), 1, std::string("starts of a task ") + when);
    ctx.Eq(Count(log, kEnd + i), 1, std::string("ends of a task ") + when);
    ctx.Eq(cells[i], 1, std::string("effect of a task seen ") + when);
  }
}

// Tasks from the owner of the pool, some of which schedule further tasks.
MC_SCENARIO(pool_tasks, {.bound = 3, .bound_thorough = 4}) {
  int threads = 1 + ctx.Choose(ctx.thorough() ? 3 : 2, "threads");
  int tasks = ctx.Choose(4, "tasks");
  int spawner = ctx.Choose(3, "spawning");  // none, first, chain of two
  bool reuse = (tasks < 2 || ctx.thorough()) && ctx.Flip("second wave");
  if (tasks == 0 && spawner) return;
  sched::Run(ctx, [&] {
    int cells[8] = {0};
    auto pool = fcp::CreateThreadPoolScheduler(threads);
    int total = tasks;
    if (tasks > 0) total += spawner;
    for (int i = 0; i < tasks; ++i) {
      pool->Schedule([&, i] {
        Body(&cells[i], i);
        if (i == 0 && spawner > 0)
          pool->Schedule([&] {
            Body(&cells[tasks], tasks);
            if (spawner > 1)
              pool->Schedule([&] { Body(&cells[tasks + 1], tasks + 1); });
          });
      });
    }
    pool->WaitUntilIdle();
    AllOnce(ctx, total, cells, "when idle");
    if (reuse) {
      pool->Schedule([&] { Body(&cells[total], total); });
      pool->WaitUntilIdle();
      ++total;
      AllOnce(ctx, total, cells, "when idle again");
    }
    pool.reset();
    AllOnce(ctx, total, cells, "after the pool is gone");
  });
  std::string o;
  for (int c : sched::Logged()) o += std::to_string(c) + " ";
  ctx.Outcome(o);
}

// Several threads submit, several wait.
MC_SCENARIO(pool_submitters, {.bound = 3, .bound_thorough = 4}) {
  int threads = 1 + ctx.Choose(2, "threads");
  int each = 1 + ctx.Choose(2, "tasks each");
  bool others_wait = ctx.Flip("submitters wait too");
  sched::Run(ctx, [&] {
    int cells[8] = {0};
    auto pool = fcp::CreateThreadPoolScheduler(threads);
    auto submit = [&](int base) {
      for (int i = 0; i < each; ++i) {
        int id = base + i;
        pool->Schedule([&cells, id] { Body(&cells[id], id); });
      }
      if (others_wait) {
        pool->WaitUntilIdle();
        auto log = sched::Logged();
        for (int i = 0; i < each; ++i)
          ctx.Eq(Count(log, kEnd + base + i), 1,
                 "ends of one's own task after waiting");
      }
    };
    mc::thread a([&] { submit(0); });
    mc::thread b([&] { submit(each); });
    a.join();
    b.join();
    pool->WaitUntilIdle();
    AllOnce(ctx, 2 * each, cells, "when idle");
    pool.reset();
  });
  std::string o;
  for (int c : sched::Logged()) o += std::to_string(c) + " ";
  ctx.Outcome(o);
}

// With more threads than one, tasks really run in parallel: two tasks that
// wait for each other finish.
MC_SCENARIO(pool_parallel, {.bound = 3, .bound_thorough = 4}) {
  int threads = 2 + ctx.Choose(2, "threads");
  bool during = ctx.Flip("scheduled while another runs");
  sched::Run(ctx, [&] {
    auto pool = fcp::CreateThreadPoolScheduler(threads);
    auto task = [&] {
      sched::Log(1);
      sched::Until([] { return sched::Logged().size() >= 2; }, "meeting");
    };
    pool->Schedule(task);
    if (during)
      sched::Until([] { return sched::Logged().size() >= 1; }, "first task");
    pool->Schedule(task);
    pool->WaitUntilIdle();
    pool.reset();
  });
  ctx.Eq(sched::Logged().size(), 2u, "tasks run");
}

// A worker's tasks run one at a time, in the order they were scheduled.
MC_SCENARIO(worker_order, {.bound = 3, .bound_thorough = 4}) {
  int threads = 1 + ctx.Choose(2, "threads");
  int tasks = 1 + ctx.Choose(3, "tasks");
  int nested = ctx.Choose(tasks + 1, "nested from");  // tasks: none
  sched::Run(ctx, [&] {
    int cells[8] = {0};
    int shared = 0;  // only ordered by the worker
    auto pool = fcp::CreateThreadPoolScheduler(threads);
    auto worker = pool->CreateWorker();
    for (int i = 0; i < tasks; ++i) {
      worker->Schedule([&, i] {
        ++shared;
        if (i == nested)
          worker->Schedule([&] {
            ++shared;
            Body(&cells[tasks], tasks);
          });
        Body(&cells[i], i);
      });
    }
    pool->WaitUntilIdle();
    int total = tasks + (nested < tasks ? 1 : 0);
    AllOnce(ctx, total, cells, "when idle");
    ctx.Eq(shared, total, "runs counted by the tasks");
    auto log = sched::Logged();
    for (size_t i = 0; i + 1 < log.size(); i += 2)
      ctx.Eq(log[i] + kEnd - kStart, log[i + 1],
             "a worker's task ends before another starts");
    for (int i = 0; i + 1 < tasks; ++i)
      ctx.Check(At(log, kStart + i) < At(log, kStart + i + 1),
                "a worker runs its tasks in the order they were scheduled");
    if (nested < tasks)
      ctx.Check(At(log, kStart + nested) < At(log, kStart + tasks),
                "a nested task runs after the one that scheduled it");
    worker.reset();
    pool.reset();
  });
  std::string o;
  for (int c : sched::Logged()) o += std::to_string(c) + " ";
  ctx.Outcome(o);
}

// Two threads feed two workers of one pool (or one worker).
MC_SCENARIO(worker_submitters, {.bound = 3, .bound_thorough = 4}) {
  int threads = 1 + ctx.Choose(2, "threads");
  bool one = ctx.Flip("one worker");
  sched::Run(ctx, [&] {
    int cells[8] = {0};
    auto pool = fcp::CreateThreadPoolScheduler(threads);
    auto w0 = pool->CreateWorker();
    auto w1 = pool->CreateWorker();
    auto submit = [&](int base, fcp::Worker* w) {
      for (int i = base; i < base + 2; ++i)
        w->Schedule([&cells, i] { Body(&cells[i], i); });
    };
    mc::thread a([&] { submit(0, w0.get()); });
    submit(2, one ? w0.get() : w1.get());
    a.join();
    pool->WaitUntilIdle();
    AllOnce(ctx, 4, cells, "when idle");
    auto log = sched::Logged();
    auto ordered = [&](int x, int y) {
      ctx.Check(At(log, kEnd + x) < At(log, kStart + y),
                "tasks one thread gave to one worker run in that order");
    };
    ordered(0, 1);
    ordered(2, 3);
    if (one)
      for (size_t i = 0; i + 1 < log.size(); i += 2)
        ctx.Eq(log[i] + kEnd - kStart, log[i + 1],
               "a worker's task ends before another starts");
    w0.reset();
    w1.reset();
    pool.reset();
  });
  std::string o;
  for (int c : sched::Logged()) o += std::to_string(c) + " ";
  ctx.Outcome(o);
}
}  // namespace

static int init = (
    mc::Rule("Pools of 1-2 (thorough: 3) threads, up to 5 tasks with nesting, up to 2 "
             "submitting threads, up to 2 workers; every schedule with at most 3 "
             "(thorough: 4) deviations from running each thread until it blocks."),
    mc::Assumption("Memory is sequentially consistent between synchronisation operations; "
                   "unordered plain accesses are reported as data races."),
    0);
