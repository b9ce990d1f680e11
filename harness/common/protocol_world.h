// A federated-compute server played by the harness, and a real
// HttpFederatedProtocol talking to it.  The server keeps a list of the
// requests it is waiting for; anything else is a violation.  A handler decides
// the reply to a request and may extend the list.
#ifndef VERIF_PROTOCOL_WORLD_H_
#define VERIF_PROTOCOL_WORLD_H_
#include <google/longrunning/operations.pb.h>

#include <deque>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/strings/ascii.h"
#include "common/client_fakes.h"
#include "common/fakehttp.h"
#include "absl/log/absl_log.h"
#include "common/mcsched.h"
#include "fcp/base/clock.h"
#include "fcp/base/compression.h"
#include "fcp/client/http/http_federated_protocol.h"
#include "fcp/protos/federatedcompute/aggregations.pb.h"
#include "fcp/protos/federatedcompute/eligibility_eval_tasks.pb.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "fcp/protos/federatedcompute/task_assignments.pb.h"

namespace mc {
namespace world {
namespace sched = mc::sched;
namespace fk = mc::fakehttp;
namespace v1 = google::internal::federatedcompute::v1;
using fcp::client::FederatedProtocol;
using google::longrunning::Operation;
using Code = absl::StatusCode;
constexpr int64_t kMs = 1'000'000, kSec = 1'000'000'000;

class Log : public fcp::client::LogManager {
 public:
  void LogDiag(fcp::client::ProdDiagCode c) override {
    if (c == fcp::client::ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT) sched::UntilQuiet();
    mc::abslx::MutexLock l(&mu);
    ++prod[c];
  }
  void LogDiag(fcp::client::DebugDiagCode) override {}
  void LogToLongHistogram(fcp::client::HistogramCounters, int, int, fcp::client::engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
  mc::abslx::Mutex mu;
  std::map<int, int> prod;
};
class Clock : public fcp::Clock {
 public:
  absl::Time Now() override { return absl::FromUnixNanos(mc::rt::NowNanos()); }
  absl::Time NowLocked() override { return Now(); }
  void Sleep(absl::Duration d) override {
    if (d > absl::ZeroDuration()) sched::AdvanceNanos(absl::ToInt64Nanoseconds(d));
  }
  void ScheduleWakeup(absl::Time) override {}
};
class Flags : public mc::TestFlags {
 public:
  bool enable_confidential_aggregation() const override { return confidential; }
  bool enable_lightweight_client_report_wire_format() const override { return lightweight; }
  bool untie_lw_client_report_format_support_from_requiring_lw_report() const override { return untie; }
  int64_t federated_training_transient_errors_retry_delay_secs() const override { return 300; }
  float federated_training_transient_errors_retry_delay_jitter_percent() const override { return 0; }
  int64_t federated_training_permanent_errors_retry_delay_secs() const override { return 40000; }
  float federated_training_permanent_errors_retry_delay_jitter_percent() const override { return 0; }
  std::vector<int32_t> federated_training_permanent_error_codes() const override {
    return {static_cast<int>(Code::kNotFound), static_cast<int>(Code::kInvalidArgument), static_cast<int>(Code::kUnimplemented)};
  }
  int32_t waiting_period_sec_for_cancellation() const override { return 10; }
  bool confidential = false, lightweight = false, untie = false;
};
inline bool Permanent(Code c) { return c == Code::kNotFound || c == Code::kInvalidArgument || c == Code::kUnimplemented; }
constexpr int64_t kAccepted = 7000, kRejected = 9000;   // retry windows of the server, in seconds

struct Expect {
  std::string what, method = "POST", uri;
  fcp::client::http::HeaderList headers;     // beside the API key
  std::function<void(const fk::Call&, const std::string& body)> check;
  std::function<fk::Reply()> reply;
  int group = 0;
  bool delayed = false;     // sent even when the client is being interrupted
  bool optional = false;
};

class World {
 public:
  explicit World(mc::Ctx& c) : ctx(c) {
    http.serve = [this](const fk::Call& call) { return Serve(call); };
    http.read_size = 7;
  }
  mc::Ctx& ctx;
  fk::Client http;
  Log log;
  Clock clock;
  Flags flags;
  mc::atomic<int64_t> abort_at{INT64_MAX};
  std::deque<Expect> waiting;
  int group = 0, requests = 0;
  int64_t sent = 0, received = 0;
  bool interrupted = false;
  std::function<void()> on_request;

  bool Aborting() { return mc::rt::NowNanos() >= abort_at.load(); }
  // Requests expected together, in any order, after all that came before.
  void Expecting(std::vector<Expect> es) {
    ++group;
    for (auto& e : es) {
      if (interrupted && !e.delayed) continue;   // nothing is sent any more
      e.group = group;
      waiting.push_back(e);
    }
  }
  static std::string Body(const fk::Call& c, mc::Ctx& ctx) {
    if (c.header("content-encoding").empty()) return c.body;
    ctx.Eq(c.header("content-encoding"), "gzip", "content encoding");
    auto u = fcp::UncompressWithGzip(c.body);
    ctx.Check(u.ok(), "a body that cannot be unpacked");
    return std::string(*u);
  }
  fk::Reply Serve(const fk::Call& c) {
    ctx.Step();
    ++requests;
    if (on_request) on_request();
    int first = INT_MAX;   // requests of later groups wait for those of earlier ones that must be sent
    for (auto& e : waiting)
      if (!e.optional) first = std::min(first, e.group);
    for (auto it = waiting.begin(); it != waiting.end() && it->group <= first; ++it) {
      if (it->uri != c.uri) continue;
      Expect e = *it;
      waiting.erase(it);
      ctx.Eq(c.method, e.method, "method of the " + e.what + " request");
      if (c.uri.find("https://res") != 0) {
        ctx.Eq(c.header("x-goog-api-key"), "the-key", "API key of the " + e.what + " request");
        size_t known = 1;
        for (auto& [k, v] : e.headers) {
          ctx.Eq(c.header(k), v, "header " + k + " of the " + e.what + " request");
          ++known;
        }
        for (auto& [k, v] : c.headers) {
          if (absl::AsciiStrToLower(k).find("x-fwd") != 0) continue;
          bool asked = false;
          for (auto& [ek, ev] : e.headers) asked |= ek == k && ev == v;
          ctx.Check(asked, "the " + e.what + " request carries the header " + k + ": " + v);
        }
      }
      if (e.check) e.check(c, Body(c, ctx));
      fk::Reply r = e.reply ? e.reply() : fk::Reply{};
      r.sent = 3 + requests;
      r.received = 50 + requests;
      sent += r.sent;
      received += r.received;
      sched::AdvanceNanos(kMs);
      return r;
    }
    std::string w;
    for (auto& e : waiting) w += " " + e.uri;
    ctx.Fail("an unexpected request " + c.method + " " + c.uri + "; expected:" + (w.empty() ? " none" : w));
    return {};
  }
  // Ends the transfer being answered by an interruption.
  fk::Reply Interrupt(bool in_body = false) {
    fk::Reply r;
    r.kind = in_body ? fk::Reply::kHangInBody : fk::Reply::kHang;
    abort_at = mc::rt::NowNanos() + 25 * kMs;
    interrupted = true;
    return r;
  }
  void Finished(const std::string& what) {
    for (auto& e : waiting)
      if (!e.optional) ctx.Fail("after " + what + ": the " + e.what + " request was never sent");
  }
};
inline std::unique_ptr<fcp::client::http::HttpFederatedProtocol> MakeProtocol(
    World& w, std::unique_ptr<fcp::client::SecAggRunnerFactory> secagg = nullptr,
    std::unique_ptr<fcp::client::attestation::AttestationVerifier> verifier = nullptr,
    fcp::client::SecAggEventPublisher* publisher = nullptr, const std::string& population = "pop/1") {
  return std::make_unique<fcp::client::http::HttpFederatedProtocol>(
      &w.clock, &w.log, &w.flags, &w.http, std::move(secagg), publisher, nullptr, std::move(verifier), "https://entry",
      "the-key", population, "retry-token", "version-7", "measured", [&w] { return w.Aborting(); }, absl::BitGen(),
      fcp::client::InterruptibleRunner::TimingConfig{absl::Milliseconds(10), absl::Seconds(10), absl::Seconds(20)});
}

// How a request ends when it does not succeed.
struct Failure {
  fk::Reply reply;
  Code code;
};
enum FailKind { kFail404, kFail503, kFailTransport, kFailInBody, kInterrupted, kFailKinds };
inline Failure Fail(World& w, int kind) {
  Failure f;
  switch (kind) {
    case kFail404: f.reply.code = 404; f.code = Code::kNotFound; break;
    case kFail503: f.reply.code = 503; f.code = Code::kUnavailable; break;
    case kFailTransport:
      f.reply.kind = fk::Reply::kFail;
      f.reply.error = absl::DeadlineExceededError("x");
      f.code = Code::kDeadlineExceeded;
      break;
    case kFailInBody:
      f.reply.kind = fk::Reply::kFailInBody;
      f.reply.error = absl::AbortedError("x");
      f.code = Code::kAborted;
      break;
    default: f.reply = w.Interrupt(); f.code = Code::kCancelled; break;
  }
  return f;
}
inline fk::Reply Ok(const google::protobuf::MessageLite& m) {
  fk::Reply r;
  std::string s = m.SerializeAsString();
  // (in two pieces)
  r.chunks = {s.substr(0, s.size() / 2), s.substr(s.size() / 2)};
  return r;
}
inline fk::Reply Garbage() {
  fk::Reply r;
  r.chunks = {"\xff\xff garbage"};
  return r;
}

// Addresses handed out: every one distinct, so that a mix-up shows.
inline void Forward(v1::ForwardingInfo* f, const std::string& base, const std::string& tag) {
  f->set_target_uri_prefix(base);
  (*f->mutable_extra_request_headers())["x-fwd-" + tag] = "v-" + tag;
}
inline fcp::client::http::HeaderList Headers(const std::string& tag) { return {{"x-fwd-" + tag, "v-" + tag}}; }

// A resource as the server describes it, what it holds, and how getting it fails.
enum ResKind { kInline, kUri, kInlineGzip, kUnset, kUri404, kUri503, kUriInterrupted, kEmptyUri, kOddCompression, kResKinds };
struct Res {
  v1::Resource proto;
  std::string content;
  std::vector<Expect> fetch;
  bool bad = false;            // refused before anything is fetched
  std::optional<Code> error;   // the expected failure
};
inline Res MakeRes(World& w, int kind, const std::string& name, const std::string& content) {
  Res r;
  switch (kind) {
    case kInline: r.proto.mutable_inline_resource()->set_data(content); break;
    case kInlineGzip:
      r.proto.mutable_inline_resource()->set_data(fcp::CompressWithGzip(content).value());
      r.proto.mutable_inline_resource()->set_compression_format(v1::RESOURCE_COMPRESSION_FORMAT_GZIP);
      break;
    case kUnset: break;
    case kEmptyUri: r.proto.set_uri(""); r.error = Code::kInvalidArgument; r.bad = true; break;
    case kOddCompression:
      r.proto.mutable_inline_resource()->set_data(content);
      r.proto.mutable_inline_resource()->set_compression_format(v1::RESOURCE_COMPRESSION_FORMAT_UNSPECIFIED);
      r.error = Code::kUnimplemented;
      r.bad = true;
      break;
    default: {
      r.proto.set_uri("https://res/" + name);
      Expect e{.what = "fetch of " + name, .method = "GET", .uri = "https://res/" + name};
      e.reply = [&w, kind, content] {
        fk::Reply a;
        if (kind == kUri) a.chunks = {content.substr(0, 2), content.size() > 2 ? content.substr(2) : ""};
        else if (kind == kUri404) a.code = 404;
        else if (kind == kUri503) a.code = 503;
        else a = w.Interrupt();
        return a;
      };
      r.fetch = {e};
      if (kind == kUri404) r.error = Code::kNotFound;
      if (kind == kUri503) r.error = Code::kUnavailable;
      if (kind == kUriInterrupted) r.error = Code::kCancelled;
    }
  }
  if (kind != kUnset) r.content = content;
  return r;
}
inline std::string Text(const std::variant<std::string, absl::Cord>& v) {
  return std::holds_alternative<std::string>(v) ? std::get<std::string>(v) : std::string(std::get<absl::Cord>(v));
}
inline std::string Name(Code c) { return absl::StatusCodeToString(c); }
}  // namespace world
}  // namespace mc
#endif
