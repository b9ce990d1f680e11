// C33: long-running operations are polled until done.
#include <google/longrunning/operations.pb.h>
#include <google/protobuf/wrappers.pb.h>

#include <memory>
#include <vector>

#include "common/fakehttp.h"
#include "common/mcsched.h"
#include "fcp/base/clock.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "fcp/client/http/protocol_request_helper.h"
#include "fcp/client/interruptible_runner.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "fcp/protos/federatedcompute/task_assignments.pb.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
namespace fk = mc::fakehttp;
namespace v1 = google::internal::federatedcompute::v1;
using namespace fcp::client::http;
using fcp::client::InterruptibleRunner;
using google::longrunning::Operation;
using Code = absl::StatusCode;
constexpr int64_t kMs = 1'000'000;

class Log : public fcp::client::LogManager {
 public:
  void LogDiag(fcp::client::ProdDiagCode c) override {
    if (c == fcp::client::ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT) sched::UntilQuiet();
  }
  void LogDiag(fcp::client::DebugDiagCode) override {}
  void LogToLongHistogram(fcp::client::HistogramCounters, int, int, fcp::client::engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};
std::unique_ptr<InterruptibleRunner> MakeRunner(Log* log, std::function<bool()> f) {
  using P = fcp::client::ProdDiagCode;
  return std::make_unique<InterruptibleRunner>(
      log, std::move(f), InterruptibleRunner::TimingConfig{absl::Milliseconds(10), absl::Seconds(10), absl::Seconds(20)},
      InterruptibleRunner::DiagnosticsConfig{P::BACKGROUND_TRAINING_INTERRUPT_HTTP, P::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT,
                                             P::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED,
                                             P::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT});
}
// Sleeping is recorded and passes virtual time.
class TestClock : public fcp::Clock {
 public:
  absl::Time Now() override { return absl::FromUnixNanos(mc::rt::NowNanos()); }
  absl::Time NowLocked() override { return Now(); }
  void Sleep(absl::Duration d) override {
    sleeps.push_back(absl::ToInt64Nanoseconds(d));
    if (d > absl::ZeroDuration()) sched::AdvanceNanos(absl::ToInt64Nanoseconds(d));
  }
  void ScheduleWakeup(absl::Time) override {}
  std::vector<int64_t> sleeps;
};

struct Want {
  int64_t min, max;   // nanoseconds to wait
};
// Chooses the description of progress that comes with a pending operation.
Want ChooseMetadata(Ctx& ctx, bool full, Operation* op) {
  struct I {
    int64_t s;
    int32_t n;
    int64_t min, max;
  };
  static const std::vector<I> kIntervals = {
      {2, 0, 2000 * kMs, 2000 * kMs}, {0, 1'000'000, kMs, kMs}, {0, 700'000'000, 700 * kMs, 700 * kMs}, {60, 0, 60'000 * kMs, 60'000 * kMs},
      {60, 1, 60'000 * kMs, 60'000 * kMs}, {3600, 0, 60'000 * kMs, 60'000 * kMs}, {315576000000, 0, 60'000 * kMs, 60'000 * kMs},
      {0, 0, 0, 500 * kMs}, {-1, 0, 0, 500 * kMs}, {0, -1, 0, 500 * kMs}, {-315576000000, 0, 0, 500 * kMs}};
  int type = ctx.Choose(full ? 7 : 2, "metadata");
  if (type == 1) return {500 * kMs, 500 * kMs};  // none
  I i = kIntervals[ctx.Choose(full && type < 5 ? kIntervals.size() : 1, "interval")];
  auto pack = [&](auto m) {
    m.mutable_polling_interval()->set_seconds(i.s);
    m.mutable_polling_interval()->set_nanos(i.n);
    op->mutable_metadata()->PackFrom(m);
  };
  switch (type) {
    case 0: pack(v1::StartTaskAssignmentMetadata()); break;
    case 2: pack(v1::AdvertiseKeysMetadata()); break;
    case 3: pack(v1::ShareKeysMetadata()); break;
    case 4: pack(v1::SubmitSecureAggregationResultMetadata()); break;
    case 5: {
      google::protobuf::Int32Value v;
      v.set_value(7);
      op->mutable_metadata()->PackFrom(v);
      return {500 * kMs, 500 * kMs};
    }
    case 6:
      pack(v1::ShareKeysMetadata());
      op->mutable_metadata()->set_value("\x0a\xff");
      return {500 * kMs, 500 * kMs};
  }
  return {i.min, i.max};
}
struct Op {
  Operation op;
  Want wait{0, 0};
  bool bad_name = false, unencodable = false;
};
enum Name { kSame, kOther, kEmpty, kForeign, kNonAscii, kNames };
Op ChoosePending(Ctx& ctx, bool full, int depth) {
  Op o;
  int name = ctx.Choose(kNames, "name");
  static const char* kName[] = {"operations/a", "operations/b/c d", "", "operation/x", "operations/\xc3\xa9"};
  o.op.set_name(kName[name]);
  o.bad_name = name == kEmpty || name == kForeign;
  o.unencodable = name == kNonAscii;
  if (!o.bad_name) o.wait = ChooseMetadata(ctx, full, &o.op);
  return o;
}
std::string Address(const Operation& o) {
  return o.name() == "operations/a" ? "https://base/v1/operations/a?%24alt=proto" : "https://base/v1/operations/b/c%20d?%24alt=proto";
}
Operation Done(Ctx& ctx, std::string name) {
  Operation o;
  o.set_name(name);
  o.set_done(true);
  switch (ctx.Choose(3, "result")) {
    case 0: {
      google::protobuf::StringValue v;
      v.set_value("the result");
      o.mutable_response()->PackFrom(v);
      break;
    }
    case 1:
      o.mutable_error()->set_code(5);
      o.mutable_error()->set_message("failed there");
      break;
    case 2: break;
  }
  return o;
}
}  // namespace

// Every sequence of answers: what is asked, how long is waited, what comes out.
void Polling(Ctx& ctx, int depth, bool full, bool exact = true) {
  sched::Run(ctx, [&] {
    Log log;
    int interrupt_at = -1, polls = 0;
    auto runner = MakeRunner(&log, [&] { return interrupt_at >= 0 && polls >= interrupt_at; });
    fk::Client http;
    TestClock clock;
    auto watch = fcp::WallClockStopwatch::Create();
    int64_t down = 100, up = 1000;
    ProtocolRequestHelper helper(&http, &down, &up, watch.get(), &clock);
    ProtocolRequestCreator creator("https://base", "key", HeaderList{{"h", "v"}}, false);

    // The model runs along: `cur` is the last operation seen.
    Op cur;
    Operation first;
    std::vector<std::string> addresses;
    std::vector<Want> waits;
    int64_t wdown = 100, wup = 1000, busy = 0;
    bool ended = false;
    absl::StatusOr<Operation> want = absl::UnknownError("");
    auto pending = [&](Op o) {
      if (o.bad_name) {
        want = absl::InvalidArgumentError("");
        ended = true;
        return;
      }
      waits.push_back(o.wait);
      if (o.unencodable) {
        want = absl::InvalidArgumentError("");
        ended = true;
        return;
      }
      addresses.push_back(Address(o.op));
    };
    int kind = ctx.Choose(2, "first");
    if (kind == 1) {
      first = Done(ctx, ctx.Flip("nameless") ? "" : "operations/a");
      want = first;
      ended = true;
    } else {
      Op o = ChoosePending(ctx, full, 0);
      first = o.op;
      pending(o);
    }
    int step = 0;
    http.serve = [&](const fk::Call& c) {
      fk::Reply r;
      ++step;
      ctx.Step();
      if (ended) {
        ctx.Fail("a request after the end: " + c.uri);
      }
      ctx.Eq(c.method, "GET", "method");
      ctx.Eq(c.uri, addresses.back(), "address polled");
      ctx.Check(!c.has_body, "a poll with a body");
      ctx.Eq(c.header("h"), "v", "forwarded header");
      ctx.Eq(c.header("x-goog-api-key"), "key", "API key");
      r.sent = 1 + step;
      r.received = 10 * step;
      wup += r.sent;
      wdown += r.received;
      sched::AdvanceNanos(3 * kMs);
      busy += 3 * kMs;
      enum { kDone, kPending, kGarbage, kCode, kFail, kFailBody, kEncoding, kKinds };
      int k = ctx.Choose(step >= depth ? 1 : (int)kKinds, "answer");
      auto end = [&](absl::StatusOr<Operation> s) {
        want = s;
        ended = true;
      };
      switch (k) {
        case kDone: {
          Operation o = Done(ctx, "operations/whatever");
          r.chunks = {o.SerializeAsString()};
          end(o);
          break;
        }
        case kPending: {
          Op o = ChoosePending(ctx, full, step);
          r.chunks = {o.op.SerializeAsString()};
          pending(o);
          break;
        }
        case kGarbage:
          // (the second one is a finished operation that is cut off)
          r.chunks = {ctx.Flip("cut off") ? "\x18\x01\x0a\x30operations/" : "\xff\xff garbage"};
          end(absl::InvalidArgumentError(""));
          break;
        case kCode: {
          static const std::vector<std::pair<int, Code>> kCodes = {{404, Code::kNotFound}, {503, Code::kUnavailable}, {500, Code::kInternal}, {401, Code::kUnauthenticated}};
          auto [code, status] = kCodes[ctx.Choose(kCodes.size(), "code")];
          r.code = code;
          Operation o;
          o.set_done(true);
          r.chunks = {o.SerializeAsString()};
          end(absl::Status(status, ""));
          break;
        }
        case kFail:
          r.kind = fk::Reply::kFail;
          r.error = absl::DeadlineExceededError("x");
          end(r.error);
          break;
        case kFailBody: {
          Operation o;
          o.set_done(true);
          r.chunks = {o.SerializeAsString()};
          r.kind = fk::Reply::kFailInBody;
          r.error = absl::AbortedError("x");
          end(r.error);
          break;
        }
        case kEncoding:
          r.headers = {{"Content-Encoding", "gzip"}};
          r.chunks = {Done(ctx, "").SerializeAsString()};
          end(absl::InvalidArgumentError(""));
          break;
      }
      return r;
    };
    absl::StatusOr<Operation> got = helper.PollOperationResponseUntilDone(first, creator, *runner);
    ctx.Check(ended, "returned before the end: " + got.status().ToString());
    ctx.Check(got.ok() == want.ok(), "expected " + want.status().ToString() + ", got " + got.status().ToString());
    if (want.ok()) ctx.Check(got->SerializeAsString() == want->SerializeAsString(), "another operation was returned");
    else ctx.Eq(absl::StatusCodeToString(got.status().code()), absl::StatusCodeToString(want.status().code()), "error");
    ctx.Eq(http.calls.size(), addresses.size(), "polls");
    // A name that cannot be sent may be found out before or after waiting.
    if (clock.sleeps.size() + 1 == waits.size() && !want.ok() && waits.size() > addresses.size()) waits.pop_back();
    ctx.Eq(clock.sleeps.size(), waits.size(), "waits");
    for (size_t i = 0; i < waits.size(); ++i)
      ctx.Check(clock.sleeps[i] >= waits[i].min && clock.sleeps[i] <= waits[i].max, "waited " + std::to_string(clock.sleeps[i]) + " ns");
    ctx.Eq(down, wdown, "bytes received");
    ctx.Eq(up, wup, "bytes sent");
    int64_t measured = absl::ToInt64Nanoseconds(watch->GetTotalDuration());
    if (exact) ctx.Eq(measured, busy, "network time");
    else ctx.Check(measured >= busy, "network time");  // (virtual time may run ahead of a thread)
  });
}
MC_SCENARIO(sequences, {.bound = 0, .bound_thorough = 0}) { Polling(ctx, ctx.thorough() ? 6 : 5, false); }
MC_SCENARIO(intervals, {.bound = 0, .bound_thorough = 0}) { Polling(ctx, ctx.thorough() ? 3 : 2, true); }
MC_SCENARIO(schedules, {.bound = 2, .bound_thorough = 3}) { Polling(ctx, 2, false, false); }

// An interruption before or during any poll ends the polling.
MC_SCENARIO(interruption, {.bound = 3, .bound_thorough = 4}) {
  int at = ctx.Choose(4, "poll");
  int how = ctx.Choose(3, "how");   // before the poll, before its answer, in its body
  sched::Run(ctx, [&] {
    Log log;
    mc::atomic<int64_t> when{INT64_MAX};
    auto runner = MakeRunner(&log, [&] { return mc::rt::NowNanos() >= when.load(); });
    fk::Client http;
    TestClock clock;
    auto watch = fcp::WallClockStopwatch::Create();
    int64_t down = 0, up = 0;
    ProtocolRequestHelper helper(&http, &down, &up, watch.get(), &clock);
    ProtocolRequestCreator creator("https://base", "key", {}, false);
    Operation op;
    op.set_name("operations/a");
    int step = 0;
    if (how == 0 && at == 0) when = 0;
    http.serve = [&](const fk::Call&) {
      fk::Reply r;
      ++step;
      r.received = 5;
      r.chunks = {op.SerializeAsString()};
      if (how == 0 && step == at) when = 0;
      if (how > 0 && step == at + 1) {
        r.kind = how == 1 ? fk::Reply::kHang : fk::Reply::kHangInBody;
        when = mc::rt::NowNanos() + 25 * kMs;
      }
      return r;
    };
    absl::StatusOr<Operation> got;
    try {
      got = helper.PollOperationResponseUntilDone(op, creator, *runner);
    } catch (mc::ProcessExit&) {
      ctx.Outcome("out of patience");
      return;
    }
    ctx.Step();
    ctx.Check(!got.ok() && got.status().code() == Code::kCancelled, "an interrupted poll returned " + got.status().ToString());
    ctx.Eq(step, how == 0 ? at : at + 1, "polls");
    ctx.Eq(down, int64_t{5 * step}, "bytes received");
  });
}
// Cancelling asks once, for exactly that operation, and reports what came back.
MC_SCENARIO(cancelling, {.bound = 0, .bound_thorough = 0}) {
  static const std::vector<std::pair<std::string, std::string>> kNames2 = {
      {"operations/a", "operations/a"}, {"operations/a b", "operations/a%20b"}, {"operations/x:y", "operations/x%3Ay"}, {"operations/\xc3\xa9", ""}};
  auto [name, coded] = ctx.Pick(kNames2, "name");
  int code = ctx.Pick(std::vector<int>{200, 404, 503, 0}, "answer");
  sched::Run(ctx, [&] {
    Log log;
    auto runner = MakeRunner(&log, [] { return false; });
    fk::Client http;
    TestClock clock;
    auto watch = fcp::WallClockStopwatch::Create();
    int64_t down = 0, up = 0;
    ProtocolRequestHelper helper(&http, &down, &up, watch.get(), &clock);
    ProtocolRequestCreator creator("https://base/x", "key", {}, true);
    http.serve = [&, code = code](const fk::Call& c) {
      fk::Reply r;
      r.sent = 3;
      r.received = 4;
      if (code) r.code = code;
      else r.kind = fk::Reply::kFail, r.error = absl::DataLossError("x");
      r.chunks = {"answer"};
      return r;
    };
    auto r = helper.CancelOperation(name, creator, *runner);
    ctx.Step();
    if (coded.empty()) {
      ctx.Check(!r.ok() && http.calls.empty(), "a name that cannot be sent");
      return;
    }
    ctx.Eq(http.calls.size(), size_t{1}, "requests");
    ctx.Eq(http.calls[0].uri, "https://base/x/v1/" + coded + ":cancel?%24alt=proto", "address");
    ctx.Eq(http.calls[0].method, "POST", "method");
    ctx.Eq(down, int64_t{4}, "bytes received");
    ctx.Eq(up, int64_t{3}, "bytes sent");
    Code want = code == 200 ? Code::kOk : code == 404 ? Code::kNotFound : code == 503 ? Code::kUnavailable : Code::kDataLoss;
    ctx.Check(r.status().code() == want, "answer " + r.status().ToString());
    if (r.ok()) ctx.Eq(std::string(r->body), "answer", "body");
    ctx.Check(clock.sleeps.empty(), "a cancellation waited");
  });
}
static int init = (mc::Rule("all sequences of up to five (thorough six) answers out of pending - with every name and progress description -, done, unreadable, error "
                            "statuses and broken transfers, against a model that runs along; interruption before and during every poll under every schedule "
                            "within the bound"), 0);
