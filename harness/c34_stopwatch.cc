// C34 (stopwatches): the total is the time during which at least one handle
// was alive, on one thread and on several.
#include <memory>
#include <vector>

#include "common/mcsched.h"
#include "fcp/base/wall_clock_stopwatch.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
using fcp::WallClockStopwatch;
struct Held {
  explicit Held(WallClockStopwatch* w) : h(w->Start()) {}
  WallClockStopwatch::Handle h;
};
int64_t Nanos(absl::Duration d) { return absl::ToInt64Nanoseconds(d); }

// Every sequence of starts, stops, readings and passing time on one thread.
MC_SCENARIO(one_thread, {}) {
  int depth = ctx.thorough() ? 9 : 7;
  bool noop = ctx.Flip("no-op");
  std::vector<int> ops, args;
  int live = 0;
  for (int i = 0; i < depth; ++i) {
    int op = ctx.Choose(4, "operation");
    if (op == 0) break;
    int arg = 0;
    if (op == 1 && ++live > 3) ctx.Prune();
    if (op == 2) {
      if (!live) ctx.Prune();
      arg = ctx.Choose(live--, "which");
    }
    if (op == 3) arg = 1 + ctx.Choose(2, "time");
    ops.push_back(op);
    args.push_back(arg);
  }
  sched::Run(ctx, [&] {
    auto w = noop ? WallClockStopwatch::CreateNoop() : WallClockStopwatch::Create();
    std::vector<std::unique_ptr<Held>> h;
    int64_t total = 0;
    for (size_t i = 0; i < ops.size(); ++i) {
      if (ops[i] == 1) h.push_back(std::make_unique<Held>(w.get()));
      if (ops[i] == 2) h.erase(h.begin() + args[i]);
      if (ops[i] == 3) {
        sched::AdvanceNanos(args[i] == 1 ? 1 : 1'500'000'007);
        if (!h.empty()) total += args[i] == 1 ? 1 : 1'500'000'007;
      }
      ctx.Eq(Nanos(w->GetTotalDuration()), noop ? 0 : total, "total");
      ctx.Step();
    }
    h.clear();
    sched::AdvanceNanos(5);
    ctx.Eq(Nanos(w->GetTotalDuration()), noop ? 0 : total, "total at the end");
  });
}
// Several threads measure on one stopwatch while time passes and one reads.
MC_SCENARIO(threads, {.bound = 4, .bound_thorough = 6}) {
  int n = 2;
  bool twice = ctx.Flip("twice");
  bool nested = ctx.Flip("nested");
  struct Span {
    int64_t b0 = 0, b1 = 0, e0 = 0, e1 = 0;  // times just before and after the start and the end
  };
  std::vector<Span> spans;
  int64_t total = 0, later = 0;
  std::vector<int64_t> seen;
  sched::Run(ctx, [&] {
    spans.assign(8, Span());
    seen.clear();
    auto w = WallClockStopwatch::Create();
    int64_t t0 = mc::rt::NowNanos();
    auto now = [t0] { return mc::rt::NowNanos() - t0; };
    std::vector<mc::thread> th;
    for (int t = 0; t < n; ++t)
      th.emplace_back([&, t] {
        for (int k = 0; k < (twice ? 2 : 1); ++k) {
          Span& s = spans[2 * t + k];
          s.b0 = now();
          {
            auto h = w->Start();
            s.b1 = now();
            if (nested) { auto g = w->Start(); }
            s.e0 = now();
          }
          s.e1 = now();
        }
      });
    th.emplace_back([&] {
      for (int i = 0; i < 3; ++i) {
        sched::Point("time passes");
        sched::AdvanceNanos(1 << (4 * i));
      }
    });
    seen.push_back(Nanos(w->GetTotalDuration()));
    seen.push_back(Nanos(w->GetTotalDuration()));
    for (auto& x : th) x.join();
    total = Nanos(w->GetTotalDuration());
    sched::AdvanceNanos(7);
    later = Nanos(w->GetTotalDuration());
  });
  // Union of the intervals, at the least and at the most.
  auto measure = [&](bool most) {
    int64_t sum = 0;
    for (int64_t t = 0; t < 1 + 16 + 256; ++t) {
      bool in = false;
      for (auto& s : spans) in |= most ? (s.b0 <= t && t < s.e1) : (s.b1 <= t && t < s.e0);
      sum += in;
    }
    return sum;
  };
  ctx.Check(measure(false) <= total && total <= measure(true),
            "total " + std::to_string(total) + " is not between " + std::to_string(measure(false)) + " and " + std::to_string(measure(true)));
  ctx.Eq(later, total, "total changes with nothing running");
  ctx.Check(0 <= seen[0] && seen[0] <= seen[1] && seen[1] <= total, "readings go backwards");
  ctx.Outcome(std::to_string(total));
}
static int init = (mc::Rule("all sequences of starts, stops and passing time with up to three handles; two threads measuring while time passes and a third reads, "
                            "under every schedule within the bound"), 0);
}  // namespace
