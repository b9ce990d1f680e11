// What the check-in protocol is expected to do, next to protocol_world.h: each
// Expect... function makes the server choose its answers, and returns what the
// client is to make of them.
#ifndef VERIF_PROTOCOL_MODEL_H_
#define VERIF_PROTOCOL_MODEL_H_
#include "common/protocol_world.h"
#include "fcp/protos/population_eligibility_spec.pb.h"

namespace mc {
namespace world {
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::TaskEligibilityInfo;

// The outcome a call must have.
struct Want {
  enum Kind { kError, kRejection, kDisabled, kTask, kTasks } kind = kError;
  std::set<Code> codes;          // any of these; empty: any error
  void Fails(Code c) { kind = kError; codes = {c}; }
};
struct WantTask {
  std::string task_name, agg_id, select, plan, ckpt, policy, session, token, agg_base, agg_tag;
  int agg = 0;                   // 0 none, 1 simple, 2 secure, 3 confidential
  bool valid = true;
  std::optional<Code> refused;   // by its description alone
  std::set<Code> errors;         // by its resources
  bool failed() const { return refused || !errors.empty(); }
};

// Where the conversation stands.
enum class At { kNew, kEetFailed, kEetFailedForGood, kEetRejected, kDisabled, kEnabled, kMultiFailed, kMultiFailedForGood,
                kMultiNone, kMultiAccepted, kFailed, kFailedForGood, kRejectedNow, kAcceptedNow };
struct Options {
  bool compact = false;          // few ways for each request to go
  int res_kinds = kResKinds;
};

class Model {
 public:
  explicit Model(World& world) : w(world), ctx(world.ctx) {}
  World& w;
  mc::Ctx& ctx;
  At at = At::kNew;
  bool enabled = false, eet_reported = false, multi_called = false;
  std::optional<int64_t> windows_at;   // when the retry windows arrived
  const std::string session = "sess 1";
  int report_failures = 0;
  int turns_left = INT_MAX;            // how often something out of the ordinary may still happen
  int Turn(int n, const char* what) {
    if (turns_left == 0) return 0;
    int k = ctx.Choose(n, what);
    if (k) --turns_left;
    return k;
  }
  std::map<std::string, WantTask> tasks;   // by aggregation id
  std::optional<WantTask> single;

  int64_t RemainingSeconds(int64_t window) { return (*windows_at + window * kSec - mc::rt::NowNanos() + kSec / 2) / kSec; }
  static std::string Alt() { return "?%24alt=proto"; }

  v1::ResourceCapabilities Capabilities() {
    v1::ResourceCapabilities c;
    c.add_supported_compression_formats(v1::RESOURCE_COMPRESSION_FORMAT_GZIP);
    if (w.flags.confidential) c.set_supports_confidential_aggregation(true);
    return c;
  }
  template <typename M>
  std::function<void(const fk::Call&, const std::string&)> BodyIs(const M& m) {
    return [this, m](const fk::Call& c, const std::string& body) {
      M got;
      ctx.Check(got.ParseFromString(body), "an unreadable request to " + c.uri);
      ctx.Eq(got.DebugString(), m.DebugString(), "request to " + c.uri);
    };
  }
  // A failing reply, or nullopt for success; the first choice is success.
  std::optional<Failure> ChooseFailure(const char* what, bool compact) {
    if (turns_left == 0) return std::nullopt;
    int k = ctx.Choose(compact ? 3 : kFailKinds + 2, what);
    if (k == 0) return std::nullopt;
    --turns_left;
    if (compact) return Fail(w, k == 1 ? kFail404 : kFail503);
    if (k == kFailKinds + 1) return Failure{Garbage(), Code::kInvalidArgument};
    return Fail(w, k - 1);
  }
  // The best-effort report that the eligibility computation was done.
  Expect EetResult(absl::StatusCode code) {
    v1::ReportEligibilityEvalTaskResultRequest r;
    r.set_status_code(static_cast<google::rpc::Code>(code));
    Expect e{.what = "eligibility result", .uri = "https://entry/v1/populations/pop%2F1/eligibilityevaltasks/sess%201:reportresult" + Alt(),
             .check = BodyIs(r)};
    e.reply = [this] {
      if (w.interrupted || !ctx.Flip("eligibility result lost")) return fk::Reply{};
      ++report_failures;
      return Fail(w, kFail503).reply;
    };
    return e;
  }

  // --- eligibility ---
  struct Eligibility : Want {
    std::string execution_id, plan, ckpt;
    std::optional<std::string> spec;
    int callbacks = 0;
  };
  // Chooses the conversation lazily, while it takes place.
  void ExpectEligibility(Eligibility* want, Options o = {}) {
    v1::EligibilityEvalTaskRequest body;
    body.mutable_client_version()->set_version_code("version-7");
    body.mutable_attestation_measurement()->set_value("measured");
    *body.mutable_resource_capabilities() = Capabilities();
    body.mutable_eligibility_eval_task_capabilities()->set_supports_multiple_task_assignment(true);
    body.mutable_eligibility_eval_task_capabilities()->set_supports_native_eets(true);
    Expect e{.what = "eligibility", .uri = "https://entry/v1/eligibilityevaltasks/pop%2F1:request" + Alt(), .check = BodyIs(body)};
    e.reply = [this, want, o] {
      if (auto f = ChooseFailure("eligibility request", o.compact)) {
        want->Fails(f->code);
        at = Permanent(f->code) ? At::kEetFailedForGood : At::kEetFailed;
        return f->reply;
      }
      v1::EligibilityEvalTaskResponse r;
      r.set_session_id(session);
      r.mutable_retry_window_if_accepted()->mutable_delay_min()->set_seconds(kAccepted);
      r.mutable_retry_window_if_accepted()->mutable_delay_max()->set_seconds(kAccepted);
      r.mutable_retry_window_if_rejected()->mutable_delay_min()->set_seconds(kRejected);
      r.mutable_retry_window_if_rejected()->mutable_delay_max()->set_seconds(kRejected);
      windows_at = mc::rt::NowNanos() + kMs;
      int answer = ctx.Choose(o.compact ? 3 : 5, "eligibility answer");   // disabled, task, rejected, nothing, no address
      if (answer != 4) Forward(r.mutable_task_assignment_forwarding_info(), "https://ta", "ta");
      auto fails = [&](std::set<Code> codes) {
        want->kind = Want::kError;
        want->codes = codes;
        at = At::kEetFailed;   // (made permanent by the code that came back)
      };
      if (answer == 2) {
        r.mutable_rejection_info();
        want->kind = Want::kRejection;
        at = At::kEetRejected;
      } else if (answer == 0 || answer == 4) {
        r.mutable_no_eligibility_eval_configured();
        if (answer == 4) fails({Code::kInvalidArgument});
        else want->kind = Want::kDisabled, at = At::kDisabled;
      } else if (answer == 3) {
        fails({Code::kUnimplemented});
      } else {
        auto* t = r.mutable_eligibility_eval_task();
        t->set_execution_id("exec-1");
        want->execution_id = "exec-1";
        want->callbacks = 1;
        enum { kNoSpec, kPolicies, kNoPolicies, kBadSpec, kSpecKinds };
        int spec = ctx.Choose(o.compact ? 3 : (int)kSpecKinds, "spec");
        bool go_on = true;
        if (spec != kNoSpec) {
          PopulationEligibilitySpec s;
          s.add_task_info()->set_task_name("t");
          if (spec != kNoPolicies) s.add_eligibility_policies()->set_name("p");
          static const std::vector<int> kKinds = {kInline, kUri, kUri404, kUri503, kUriInterrupted, kEmptyUri};
          Res res = MakeRes(w, o.compact ? kInline : ctx.Pick(kKinds, "spec resource"), "spec", spec == kBadSpec ? "\xff\xff" : s.SerializeAsString());
          *t->mutable_population_eligibility_spec() = res.proto;
          w.Expecting(res.fetch);
          if (res.error) fails({*res.error}), go_on = false;
          else if (spec == kBadSpec) fails({Code::kInvalidArgument}), go_on = false;
          else if (spec == kNoPolicies) want->kind = Want::kDisabled, want->spec = s.SerializeAsString(), at = At::kDisabled, go_on = false;
          else want->spec = s.SerializeAsString();
        }
        if (!go_on) return Ok(r);
        Res plan = MakeRes(w, o.compact ? kInline : ctx.Choose(o.res_kinds, "plan"), "plan", "the plan");
        Res ckpt = MakeRes(w, o.compact ? kInline : ctx.Choose(o.res_kinds, "checkpoint"), "ckpt", "the checkpoint");
        *t->mutable_plan() = plan.proto;
        *t->mutable_init_checkpoint() = ckpt.proto;
        auto empty = [](const v1::Resource& x) { return !x.has_uri() && !x.has_inline_resource(); };
        want->kind = Want::kTask;
        at = At::kEnabled;
        if (!empty(plan.proto) && !empty(ckpt.proto)) {
          std::set<Code> errors = Together({&plan, &ckpt});
          if (errors.empty()) want->plan = plan.content, want->ckpt = ckpt.content;
          else fails(errors);
        }
        enabled = at == At::kEnabled;
      }
      return Ok(r);
    };
    w.Expecting({e});
  }
  // The resources of one task are fetched together.
  std::set<Code> Together(std::vector<Res*> rs) {
    std::set<Code> errors;
    bool bad = false, cut = false;
    std::vector<Expect> f;
    for (Res* r : rs) {
      if (r->error) errors.insert(*r->error);
      bad |= r->bad;
      cut |= r->error == Code::kCancelled;
      f.insert(f.end(), r->fetch.begin(), r->fetch.end());
    }
    if (bad) {
      // Nothing has to be fetched for a task that cannot be had.
      std::set<Code> only;
      for (Res* r : rs)
        if (r->bad) only.insert(*r->error);
      return only;
    }
    if (!f.empty()) w.Expecting(f);
    if (cut) return {Code::kCancelled};
    return errors;
  }

  // --- tasks ---
  // Chooses a task of the server's; fetches are expected by the caller.
  WantTask ChooseTask(v1::TaskAssignment* t, int n, Options o, std::vector<Res>* resources) {
    WantTask k;
    std::string i = std::to_string(n);
    k.task_name = "task/" + i;
    k.agg_id = "agg " + i;
    k.session = "tsess" + i;
    k.token = "token:" + i;
    k.agg_base = "https://agg" + i;
    k.agg_tag = "agg" + i;
    t->set_task_name(k.task_name);
    t->set_aggregation_id(k.agg_id);
    t->set_session_id(k.session);
    t->set_authorization_token(k.token);
    k.agg = 1;
    if (!o.compact) k.agg = ctx.Choose(4, "aggregation type");
    if (k.agg == 1) t->mutable_aggregation_info();
    if (k.agg == 2) t->mutable_secure_aggregation_info()->set_minimum_clients_in_server_visible_aggregate(40 + n);
    if (k.agg == 3) t->mutable_confidential_aggregation_info();
    bool select = !o.compact && ctx.Flip("select");
    if (select) k.select = "https://select/" + i, t->mutable_federated_select_uri_info()->set_uri_template(k.select);
    if (o.compact || !ctx.Flip("no address")) Forward(t->mutable_aggregation_data_forwarding_info(), k.agg_base, k.agg_tag);
    else k.refused = Code::kInvalidArgument;
    if (k.agg == 3 && !w.flags.confidential) k.refused = Code::kInvalidArgument;
    if (k.agg == 0 && w.flags.confidential) k.refused = Code::kInvalidArgument;
    Options ro = o;
    Res plan = MakeRes(w, o.compact ? kInline : ctx.Choose(ro.res_kinds, "plan"), "plan" + i, "plan of " + i);
    Res ckpt = MakeRes(w, o.compact ? kInline : ctx.Choose(ro.res_kinds, "checkpoint"), "ckpt" + i, "checkpoint of " + i);
    *t->mutable_plan() = plan.proto;
    *t->mutable_init_checkpoint() = ckpt.proto;
    *resources = {plan, ckpt};
    k.plan = plan.content;
    k.ckpt = ckpt.content;
    if (k.agg == 3) {
      static const std::vector<int> kKinds = {kInline, kUri, kUri404, kEmptyUri};
      Res policy = MakeRes(w, o.compact ? kInline : ctx.Pick(kKinds, "policy"), "policy" + i, "policy of " + i);
      *t->mutable_confidential_aggregation_info()->mutable_data_access_policy() = policy.proto;
      resources->push_back(policy);
      k.policy = policy.content;
    }
    return k;
  }
  struct Checkin : Want {
    WantTask task;
    int min_callbacks = 0, max_callbacks = 0;
    int cancel_failures = 0;
  };
  TaskEligibilityInfo Info() {
    TaskEligibilityInfo i;
    i.set_version(1);
    auto* t = i.add_task_weights();
    t->set_task_name("task/1");
    t->set_weight(2);
    return i;
  }
  void Failed(Want* want, std::set<Code> codes) {
    want->kind = Want::kError;
    want->codes = codes;
    at = At::kFailed;
  }
  // The end of a task assignment operation.
  void FinishOperation(Operation* op, Checkin* want, Options o) {
    op->set_done(true);
    enum { kTaskGiven, kRejected, kOpError, kEmpty, kOdd, kAnswers };
    int answer = ctx.Choose(o.compact ? 3 : (int)kAnswers, "assignment");
    v1::StartTaskAssignmentResponse r;
    switch (answer) {
      case kOpError: {
        static const std::vector<int> kCodes = {5, 14, 10};
        int code = o.compact ? 14 : ctx.Pick(kCodes, "error");
        op->mutable_error()->set_code(code);
        op->mutable_error()->set_message("no");
        Failed(want, {static_cast<Code>(code)});
        return;
      }
      case kRejected:
        r.mutable_rejection_info();
        want->kind = Want::kRejection;
        at = At::kRejectedNow;
        break;
      case kEmpty: Failed(want, {Code::kUnimplemented}); break;
      case kOdd: {
        op->mutable_response()->PackFrom(op->metadata());   // another type of message
        Failed(want, {Code::kInvalidArgument});
        return;
      }
      default: {
        std::vector<Res> res;
        want->task = ChooseTask(r.mutable_task_assignment(), 1, o, &res);
        std::vector<Res*> p;
        for (auto& x : res) p.push_back(&x);
        want->kind = Want::kTask;
        want->min_callbacks = want->max_callbacks = 1;
        if (want->task.refused) {
          want->min_callbacks = 0;
          std::set<Code> codes = {*want->task.refused};
          for (auto& x : res)
            if (x.error) codes.insert(*x.error);
          std::vector<Expect> f;
          for (auto& x : res)
            for (auto e : x.fetch) e.optional = true, f.push_back(e);
          if (!f.empty()) w.Expecting(f);
          Failed(want, codes);
        } else {
          want->task.errors = Together(p);
          if (!want->task.errors.empty()) Failed(want, want->task.errors);
          else at = At::kAcceptedNow, single = want->task;
        }
      }
    }
    op->mutable_response()->PackFrom(r);
  }
  void ExpectCancel(Checkin* want, const std::string& coded) {
    Expect e{.what = "cancellation", .uri = "https://ta/v1/operations/" + coded + ":cancel" + Alt(), .headers = Headers("ta"),
             .check = [this](const fk::Call& c, const std::string& b) { ctx.Eq(b, "", "body of the cancellation"); }, .delayed = true};
    e.reply = [this, want] {
      int k = ctx.Choose(3, "cancellation");
      if (k == 0) return fk::Reply{};
      ++want->cancel_failures;
      return Fail(w, k == 1 ? kFail503 : kFailTransport).reply;
    };
    w.Expecting({e});
  }
  void ExpectPoll(Checkin* want, Options o, int left) {
    Expect e{.what = "poll", .method = "GET", .uri = "https://ta/v1/operations/op%201" + Alt(), .headers = Headers("ta")};
    e.reply = [this, want, o, left] {
      Operation op;
      op.set_name("operations/op 1");
      if (left > 0 && ctx.Flip("still pending")) {
        ExpectPoll(want, o, left - 1);
        return Ok(op);
      }
      if (auto f = ChooseFailure("poll", o.compact)) {
        Failed(want, {f->code});
        ExpectCancel(want, "op%201");
        return f->reply;
      }
      FinishOperation(&op, want, o);
      return Ok(op);
    };
    w.Expecting({e});
  }
  void ExpectCheckin(Checkin* want, Options o = {}, int polls = 1) {
    v1::StartTaskAssignmentRequest body;
    body.mutable_client_version()->set_version_code("version-7");
    if (enabled) *body.mutable_task_eligibility_info() = Info();
    *body.mutable_resource_capabilities() = Capabilities();
    Expect e{.what = "task assignment", .uri = "https://ta/v1/populations/pop%2F1/taskassignments/sess%201:start" + Alt(), .headers = Headers("ta"),
             .check = BodyIs(body)};
    e.reply = [this, want, o, polls] {
      Operation op;
      op.set_name("operations/op 1");
      if (auto f = ChooseFailure("task assignment request", o.compact)) {
        Failed(want, {f->code});
        return f->reply;
      }
      int how = ctx.Choose(o.compact ? 2 : 3, "operation");   // done, pending, pending under a bad name
      if (how == 0) FinishOperation(&op, want, o);
      if (how == 1) ExpectPoll(want, o, polls - 1);
      if (how == 2) op.set_name("op 1"), Failed(want, {Code::kInvalidArgument});
      return Ok(op);
    };
    std::vector<Expect> es = {e};
    if (enabled && !eet_reported) es.push_back(EetResult(Code::kOk)), eet_reported = true;
    w.Expecting(es);
  }

  // --- several tasks ---
  struct Multi : Want {
    std::vector<WantTask> tasks;
    std::optional<int> callback;
  };
  void ExpectMulti(Multi* want, const std::vector<std::string>& names, int max_tasks, Options o = {}) {
    multi_called = true;
    v1::PerformMultipleTaskAssignmentsRequest body;
    body.mutable_client_version()->set_version_code("version-7");
    *body.mutable_resource_capabilities() = Capabilities();
    for (auto& n : names) body.add_task_names(n);
    Expect e{.what = "assignment of several tasks", .uri = "https://ta/v1/populations/pop%2F1/taskassignments/sess%201:performmultiple" + Alt(),
             .headers = Headers("ta"), .check = BodyIs(body)};
    e.reply = [this, want, o, max_tasks] {
      if (auto f = ChooseFailure("several tasks", o.compact)) {
        want->Fails(f->code);
        at = Permanent(f->code) ? At::kMultiFailedForGood : At::kMultiFailed;
        return f->reply;
      }
      v1::PerformMultipleTaskAssignmentsResponse r;
      int n = ctx.Choose(max_tasks + 1, "tasks");
      want->kind = Want::kTasks;
      at = n ? At::kMultiFailed : At::kMultiNone;
      std::vector<Expect> f;
      int described = 0;
      bool cut = false;
      for (int i = 0; i < n; ++i) {
        std::vector<Res> res;
        WantTask t = ChooseTask(r.add_task_assignments(), i + 1, o, &res);
        if (!t.refused) {
          ++described;
          bool bad = false;
          for (auto& x : res) bad |= x.bad;
          for (auto& x : res)
            if (x.error && (!bad || x.bad)) t.errors.insert(*x.error);
          if (!bad)
            for (auto& x : res) f.insert(f.end(), x.fetch.begin(), x.fetch.end()), cut |= x.error == Code::kCancelled;
          tasks[t.agg_id] = t;
        }
        want->tasks.push_back(t);
      }
      if (n) want->callback = described;
      if (!f.empty()) w.Expecting(f);
      if (cut) want->Fails(Code::kCancelled);
      else if (described) at = At::kMultiAccepted;
      return Ok(r);
    };
    std::vector<Expect> es = {e};
    if (enabled) es.push_back(EetResult(Code::kOk)), eet_reported = true;
    w.Expecting(es);
  }

  // --- checks ---
  // The status of a call that must fail, or succeed.
  bool CheckOutcome(const absl::Status& s, const Want& want, const std::string& what) {
    if (want.kind != Want::kError) {
      ctx.Check(s.ok(), what + " failed: " + s.ToString());
      return true;
    }
    ctx.Check(!s.ok(), what + " succeeded, though it could not");
    if (!want.codes.empty()) {
      std::string names;
      for (Code c : want.codes) names += " " + Name(c);
      ctx.Check(want.codes.count(s.code()) > 0, what + ": expected" + names + ", got " + s.ToString());
    }
    return false;
  }
  void CheckTask(const FederatedProtocol::TaskAssignment& t, const WantTask& k) {
    ctx.Eq(t.task_name, k.task_name, "task name");
    ctx.Eq(t.aggregation_session_id, k.agg_id, "aggregation session");
    ctx.Eq(t.federated_select_uri_template, k.select, "slice address");
    ctx.Eq(t.sec_agg_info.has_value(), k.agg == 2, "secure aggregation of " + k.task_name);
    if (k.agg == 2) ctx.Eq(t.sec_agg_info->minimum_clients_in_server_visible_aggregate, 40 + (k.task_name.back() - '0'), "minimum clients");
    ctx.Eq(t.confidential_agg_info.has_value(), k.agg == 3, "confidential aggregation of " + k.task_name);
    ctx.Eq(Text(t.payloads.plan), k.plan, "plan of " + k.task_name);
    ctx.Eq(Text(t.payloads.checkpoint), k.ckpt, "checkpoint of " + k.task_name);
    if (k.agg == 3) ctx.Eq(std::string(t.confidential_agg_info->data_access_policy), k.policy, "policy of " + k.task_name);
  }
  // The retry window that follows from where the conversation stands (before any report).
  void CheckWindow(FederatedProtocol& p) {
    auto win = p.GetLatestRetryWindow();
    ctx.Check(win.delay_min().seconds() == win.delay_max().seconds() && win.delay_min().nanos() == win.delay_max().nanos(), "a window of some width");
    int64_t got = win.delay_min().seconds() + (win.delay_min().nanos() >= 500'000'000 ? 1 : 0);
    int64_t want = 0;
    std::string why;
    switch (at) {
      case At::kNew: case At::kEetFailed: case At::kMultiFailed: case At::kFailed:
        want = windows_at ? RemainingSeconds(kRejected) : 300;
        why = windows_at ? "the server's window for rejections" : "the delay for passing errors";
        break;
      case At::kEetFailedForGood: case At::kMultiFailedForGood: case At::kFailedForGood: want = 40000; why = "the delay for lasting errors"; break;
      case At::kAcceptedNow:
        want = RemainingSeconds(multi_called ? kRejected : kAccepted);
        why = multi_called ? "the server's window for rejections" : "the server's window for accepted clients";
        break;
      default: want = RemainingSeconds(kRejected); why = "the server's window for rejections";
    }
    ctx.Check(got == want, "retry in " + std::to_string(got) + " s; expected " + why + ", " + std::to_string(want) + " s");
  }
  void CheckNetwork(FederatedProtocol& p) {
    auto n = p.GetNetworkStats();
    ctx.Eq(n.bytes_uploaded, w.sent, "bytes sent");
    ctx.Eq(n.bytes_downloaded, w.received, "bytes received");
  }
  void After(FederatedProtocol& p, const absl::Status& s, const std::string& what) {
    w.Finished(what);
    if (!s.ok() && Permanent(s.code())) {
      if (at == At::kEetFailed) at = At::kEetFailedForGood;
      if (at == At::kMultiFailed) at = At::kMultiFailedForGood;
      if (at == At::kFailed) at = At::kFailedForGood;
    }
    CheckWindow(p);
    CheckNetwork(p);
  }

  // --- calls ---
  Eligibility DoEligibility(FederatedProtocol& p, Options o = {}) {
    Eligibility want;
    ExpectEligibility(&want, o);
    int callbacks = 0;
    auto r = p.EligibilityEvalCheckin([&](const FederatedProtocol::EligibilityEvalTask& t) {
      ++callbacks;
      ctx.Eq(t.execution_id, want.execution_id, "execution id announced");
    });
    if (CheckOutcome(r.status(), want, "eligibility check-in")) {
      if (want.kind == Want::kRejection) ctx.Check(std::holds_alternative<FederatedProtocol::Rejection>(*r), "a rejection was taken for something else");
      if (want.kind == Want::kDisabled) {
        ctx.Check(std::holds_alternative<FederatedProtocol::EligibilityEvalDisabled>(*r), "no eligibility task was taken for something else");
        auto& spec = std::get<FederatedProtocol::EligibilityEvalDisabled>(*r).population_eligibility_spec;
        ctx.Eq(spec.has_value(), want.spec.has_value(), "spec");
        if (spec) ctx.Eq(spec->SerializeAsString(), *want.spec, "spec");
      }
      if (want.kind == Want::kTask) {
        ctx.Check(std::holds_alternative<FederatedProtocol::EligibilityEvalTask>(*r), "an eligibility task was taken for something else");
        auto& t = std::get<FederatedProtocol::EligibilityEvalTask>(*r);
        ctx.Eq(t.execution_id, want.execution_id, "execution id");
        ctx.Eq(Text(t.payloads.plan), want.plan, "eligibility plan");
        ctx.Eq(Text(t.payloads.checkpoint), want.ckpt, "eligibility checkpoint");
        ctx.Eq(t.population_eligibility_spec.has_value(), want.spec.has_value(), "spec");
        if (want.spec) ctx.Eq(t.population_eligibility_spec->SerializeAsString(), *want.spec, "spec");
      }
    }
    ctx.Eq(callbacks, want.callbacks, "announcements of an eligibility task");
    After(p, r.status(), "the eligibility check-in");
    return want;
  }
  Checkin DoCheckin(FederatedProtocol& p, Options o = {}, int polls = 1) {
    Checkin want;
    ExpectCheckin(&want, o, polls);
    int callbacks = 0;
    std::optional<TaskEligibilityInfo> info;
    if (enabled) info = Info();
    int before = report_failures;
    auto lost = [&] { return Count(fcp::client::ProdDiagCode::HTTP_REPORT_ELIGIBILITY_EVAL_RESULT_REQUEST_FAILED); };
    auto uncancelled = [&] { return Count(fcp::client::ProdDiagCode::HTTP_CANCELLATION_OR_ABORT_REQUEST_FAILED); };
    int lost0 = lost(), un0 = uncancelled();
    auto r = p.Checkin(info, [&](const FederatedProtocol::TaskAssignment& t) {
      ++callbacks;
      ctx.Eq(t.aggregation_session_id, want.task.agg_id, "aggregation session announced");
      ctx.Eq(t.task_name, want.task.task_name, "task announced");
      ctx.Eq(t.confidential_agg_info.has_value(), want.task.agg == 3 && w.flags.confidential, "confidential aggregation announced");
    });
    if (CheckOutcome(r.status(), want, "check-in")) {
      if (want.kind == Want::kRejection) ctx.Check(std::holds_alternative<FederatedProtocol::Rejection>(*r), "a rejection was taken for a task");
      else {
        ctx.Check(std::holds_alternative<FederatedProtocol::TaskAssignment>(*r), "a task was taken for a rejection");
        CheckTask(std::get<FederatedProtocol::TaskAssignment>(*r), want.task);
      }
    }
    ctx.Check(callbacks >= want.min_callbacks && callbacks <= want.max_callbacks, "the task was announced " + std::to_string(callbacks) + " times");
    if (!w.interrupted) ctx.Eq(lost() - lost0, report_failures - before, "lost eligibility results noted");
    if (!w.interrupted) ctx.Eq(uncancelled() - un0, want.cancel_failures, "lost cancellations noted");
    After(p, r.status(), "the check-in");
    return want;
  }
  Multi DoMulti(FederatedProtocol& p, int max_tasks, Options o = {}) {
    Multi want;
    std::vector<std::string> names = {"task/1", "b"};
    ExpectMulti(&want, names, max_tasks, o);
    std::optional<int> announced;
    auto r = p.PerformMultipleTaskAssignments(names, [&](size_t n) {
      ctx.Check(!announced, "tasks announced twice");
      announced = n;
    });
    if (CheckOutcome(r.status(), want, "assignment of several tasks")) {
      ctx.Eq(r->task_assignments.size(), want.tasks.size(), "tasks");
      for (auto& t : want.tasks) {
        auto it = r->task_assignments.find(t.task_name);
        ctx.Check(it != r->task_assignments.end(), "the task " + t.task_name + " is missing");
        Want one;
        one.kind = t.failed() ? Want::kError : Want::kTask;
        one.codes = t.refused ? std::set<Code>{*t.refused} : t.errors;
        if (CheckOutcome(it->second.status(), one, t.task_name)) CheckTask(*it->second, t);
      }
    }
    ctx.Check(announced == want.callback, "tasks announced: " + (announced ? std::to_string(*announced) : "none"));
    After(p, r.status(), "the assignment of several tasks");
    return want;
  }
  int Count(int code) {
    mc::abslx::MutexLock l(&w.log.mu);
    auto it = w.log.prod.find(code);
    return it == w.log.prod.end() ? 0 : it->second;
  }
};
// Gets `n` tasks of these aggregation types; one is got by a plain check-in.
struct Start {
  std::vector<WantTask> tasks;
};
inline Start GetTasks(World& w, Model& m, FederatedProtocol& p, std::vector<int> aggs, bool several) {
  mc::Ctx& ctx = w.ctx;
  Start st;
  Expect first{.what = "eligibility", .uri = "https://entry/v1/eligibilityevaltasks/pop%2F1:request?%24alt=proto"};
  first.reply = [&] {
    v1::EligibilityEvalTaskResponse r;
    r.set_session_id(m.session);
    for (auto [win, s] : {std::pair{r.mutable_retry_window_if_accepted(), kAccepted}, {r.mutable_retry_window_if_rejected(), kRejected}}) {
      win->mutable_delay_min()->set_seconds(s);
      win->mutable_delay_max()->set_seconds(s);
    }
    Forward(r.mutable_task_assignment_forwarding_info(), "https://ta", "ta");
    r.mutable_no_eligibility_eval_configured();
    return Ok(r);
  };
  w.Expecting({first});
  ctx.Check(p.EligibilityEvalCheckin([](auto&) {}).ok(), "eligibility check-in");
  m.windows_at = mc::rt::NowNanos();
  auto task = [&](v1::TaskAssignment* t, int n, int agg) {
    std::vector<Res> res;
    WantTask k = m.ChooseTask(t, n, {.compact = true}, &res);
    k.agg = agg;
    if (agg == 2) t->mutable_secure_aggregation_info();
    if (agg == 3) {
      k.policy = "policy of " + std::to_string(n);
      t->mutable_confidential_aggregation_info()->mutable_data_access_policy()->mutable_inline_resource()->set_data(k.policy);
    }
    st.tasks.push_back(k);
  };
  if (!several) {
    Expect e{.what = "task assignment", .uri = "https://ta/v1/populations/pop%2F1/taskassignments/sess%201:start?%24alt=proto", .headers = Headers("ta")};
    e.reply = [&] {
      v1::StartTaskAssignmentResponse r;
      task(r.mutable_task_assignment(), 1, aggs[0]);
      Operation op;
      op.set_done(true);
      op.mutable_response()->PackFrom(r);
      return Ok(op);
    };
    w.Expecting({e});
    auto r = p.Checkin(std::nullopt, [](auto&) {});
    ctx.Check(r.ok(), "check-in: " + r.status().ToString());
    m.at = At::kAcceptedNow;
  } else {
    Expect e{.what = "several", .uri = "https://ta/v1/populations/pop%2F1/taskassignments/sess%201:performmultiple?%24alt=proto", .headers = Headers("ta")};
    e.reply = [&] {
      v1::PerformMultipleTaskAssignmentsResponse r;
      for (size_t i = 0; i < aggs.size(); ++i) task(r.add_task_assignments(), i + 1, aggs[i]);
      return Ok(r);
    };
    w.Expecting({e});
    auto r = p.PerformMultipleTaskAssignments({}, [](size_t) {});
    ctx.Check(r.ok(), "several tasks: " + r.status().ToString());
    m.multi_called = true;
    m.at = At::kMultiAccepted;
  }
  m.CheckWindow(p);
  return st;
}
}  // namespace world
}  // namespace mc
#endif
