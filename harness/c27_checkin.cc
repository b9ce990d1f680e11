// C27: the check-in protocol.
#include "common/protocol_model.h"

namespace {
using namespace mc::world;
using mc::Ctx;
mc::sched::RunOptions Throws() {
  mc::sched::RunOptions o;
  o.fatal_throws = true;
  return o;
}
}  // namespace

// Everything the server may say to the first request.
MC_SCENARIO(eligibility, {.bound = 0, .bound_thorough = 0}) {
  bool confidential = ctx.Flip("confidential"), compressed = ctx.Flip("compressed");
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    w.flags.confidential = confidential;
    w.flags.no_compression = !compressed;
    auto p = MakeProtocol(w);
    Model m(w);
    m.CheckWindow(*p);
    m.DoEligibility(*p);
  });
}
// Everything the server may say to a request for a task.
void OneTask(Ctx& ctx, Options o, int polls, bool fixed) {
  bool confidential = ctx.Flip("confidential");
  int before = ctx.Choose(fixed ? 2 : 3, "before");   // disabled, a task, several tasks failed
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    w.flags.confidential = confidential;
    auto p = MakeProtocol(w);
    Model m(w);
    // A short road to this point.
    Model::Eligibility e;
    m.windows_at = 0;
    Expect first{.what = "eligibility", .uri = "https://entry/v1/eligibilityevaltasks/pop%2F1:request?%24alt=proto"};
    first.reply = [&] {
      v1::EligibilityEvalTaskResponse r;
      r.set_session_id(m.session);
      for (auto* win : {r.mutable_retry_window_if_accepted(), r.mutable_retry_window_if_rejected()}) {
        int64_t s = win == &r.retry_window_if_accepted() ? kAccepted : kRejected;
        win->mutable_delay_min()->set_seconds(s);
        win->mutable_delay_max()->set_seconds(s);
      }
      Forward(r.mutable_task_assignment_forwarding_info(), "https://ta", "ta");
      if (before == 0) r.mutable_no_eligibility_eval_configured();
      else r.mutable_eligibility_eval_task()->set_execution_id("x");
      return Ok(r);
    };
    w.Expecting({first});
    auto r = p->EligibilityEvalCheckin([](auto&) {});
    ctx.Check(r.ok(), "eligibility check-in: " + r.status().ToString());
    m.windows_at = mc::rt::NowNanos();
    m.enabled = before > 0;
    m.at = before ? At::kEnabled : At::kDisabled;
    if (before == 2) m.DoMulti(*p, 0, {.compact = true});
    m.DoCheckin(*p, o, polls);
  });
}
MC_SCENARIO(one_task, {.bound = 0, .bound_thorough = 0}) { OneTask(ctx, {}, 1, true); }
MC_SCENARIO(polled, {.bound = 0, .bound_thorough = 0}) { OneTask(ctx, {.compact = !ctx.Flip("all failures"), .res_kinds = 1}, ctx.thorough() ? 4 : 3, false); }

// Several tasks at once, some of which cannot be had; then another check-in.
void Several(Ctx& ctx, int tasks, Options o, bool confidential) {
  bool with_task = ctx.Flip("eligibility task");
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    w.flags.confidential = confidential;
    auto p = MakeProtocol(w);
    Model m(w);
    Expect first{.what = "eligibility", .uri = "https://entry/v1/eligibilityevaltasks/pop%2F1:request?%24alt=proto"};
    first.reply = [&] {
      v1::EligibilityEvalTaskResponse r;
      r.set_session_id(m.session);
      r.mutable_retry_window_if_rejected()->mutable_delay_min()->set_seconds(kRejected);
      r.mutable_retry_window_if_rejected()->mutable_delay_max()->set_seconds(kRejected);
      Forward(r.mutable_task_assignment_forwarding_info(), "https://ta", "ta");
      if (!with_task) r.mutable_no_eligibility_eval_configured();
      else r.mutable_eligibility_eval_task()->set_execution_id("x");
      return Ok(r);
    };
    w.Expecting({first});
    auto r = p->EligibilityEvalCheckin([](auto&) {});
    ctx.Check(r.ok(), "eligibility check-in: " + r.status().ToString());
    m.windows_at = mc::rt::NowNanos();
    m.enabled = with_task;
    m.at = with_task ? At::kEnabled : At::kDisabled;
    m.DoMulti(*p, tasks, o);
    if (!w.interrupted && o.compact) m.DoCheckin(*p, {.compact = true});
  });
}
MC_SCENARIO(several_tasks, {.bound = 0, .bound_thorough = 0}) { Several(ctx, 1, {}, ctx.Flip("confidential")); }
MC_SCENARIO(several_kinds, {.bound = 0, .bound_thorough = 0}) {
  // Two tasks, every pair of kinds of resource.
  bool confidential = ctx.Flip("confidential");
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    w.flags.confidential = confidential;
    auto p = MakeProtocol(w);
    Model m(w);
    Expect first{.what = "eligibility", .uri = "https://entry/v1/eligibilityevaltasks/pop%2F1:request?%24alt=proto"};
    first.reply = [&] {
      v1::EligibilityEvalTaskResponse r;
      r.set_session_id(m.session);
      r.mutable_retry_window_if_rejected()->mutable_delay_min()->set_seconds(kRejected);
      r.mutable_retry_window_if_rejected()->mutable_delay_max()->set_seconds(kRejected);
      Forward(r.mutable_task_assignment_forwarding_info(), "https://ta", "ta");
      r.mutable_no_eligibility_eval_configured();
      return Ok(r);
    };
    w.Expecting({first});
    (void)p->EligibilityEvalCheckin([](auto&) {});
    m.windows_at = mc::rt::NowNanos();
    m.at = At::kDisabled;
    // A task of its own alphabet: the kind of its plan and how it is aggregated.
    Model::Multi want;
    m.multi_called = true;
    Expect e{.what = "assignment of several tasks", .uri = "https://ta/v1/populations/pop%2F1/taskassignments/sess%201:performmultiple?%24alt=proto",
             .headers = Headers("ta")};
    int n = ctx.thorough() ? 4 : 3;
    e.reply = [&] {
      v1::PerformMultipleTaskAssignmentsResponse r;
      std::vector<Expect> f;
      int described = 0;
      for (int i = 1; i <= n; ++i) {
        static const std::vector<int> kKinds = {kInline, kUri, kUri404, kEmptyUri, kInlineGzip};
        int kind = ctx.Choose(kKinds.size() + 1, "task");
        bool refused = kind == (int)kKinds.size();
        auto* t = r.add_task_assignments();
        WantTask k;
        std::string s = std::to_string(i);
        k.task_name = "task/" + s;
        k.agg_id = "agg " + s;
        t->set_task_name(k.task_name);
        t->set_aggregation_id(k.agg_id);
        t->mutable_aggregation_info();
        k.agg = 1;
        if (!refused) Forward(t->mutable_aggregation_data_forwarding_info(), "https://agg" + s, "agg" + s);
        else k.refused = Code::kInvalidArgument;
        Res plan = MakeRes(w, refused ? kUri : kKinds[kind], "plan" + s, "plan of " + s);
        Res ckpt = MakeRes(w, kUri, "ckpt" + s, "checkpoint of " + s);
        *t->mutable_plan() = plan.proto;
        *t->mutable_init_checkpoint() = ckpt.proto;
        k.plan = plan.content;
        k.ckpt = ckpt.content;
        if (!refused) {
          ++described;
          if (plan.error) k.errors = {*plan.error};
          if (!plan.bad) {
            f.insert(f.end(), plan.fetch.begin(), plan.fetch.end());
            f.insert(f.end(), ckpt.fetch.begin(), ckpt.fetch.end());
          }
        }
        want.tasks.push_back(k);
      }
      want.kind = Want::kTasks;
      if (!f.empty()) w.Expecting(f);
      m.at = described ? At::kMultiAccepted : At::kMultiFailed;
      want.callback = described;
      return Ok(r);
    };
    w.Expecting({e});
    std::optional<int> announced;
    auto r = p->PerformMultipleTaskAssignments({"a"}, [&](size_t k) { announced = k; });
    ctx.Check(r.ok(), "several tasks: " + r.status().ToString());
    ctx.Eq(r->task_assignments.size(), want.tasks.size(), "tasks");
    for (auto& t : want.tasks) {
      auto it = r->task_assignments.find(t.task_name);
      ctx.Check(it != r->task_assignments.end(), "the task " + t.task_name + " is missing");
      Want one;
      one.kind = t.failed() ? Want::kError : Want::kTask;
      one.codes = t.refused ? std::set<Code>{*t.refused} : t.errors;
      if (m.CheckOutcome(it->second.status(), one, t.task_name)) m.CheckTask(*it->second, t);
    }
    ctx.Check(announced == want.callback, "tasks announced");
    m.After(*p, r.status(), "the assignment of several tasks");
  });
}
// Every order of calls: those out of order are refused and reach nobody.
MC_SCENARIO(orders, {.bound = 0, .bound_thorough = 0}) {
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    auto p = MakeProtocol(w);
    Model m(w);
    Options o{.compact = true};
    int depth = ctx.thorough() ? 5 : 4;
    bool tried_checkin = false;
    for (int i = 0; i < depth; ++i) {
      enum { kStop, kEet, kCheckin, kMulti, kError, kCalls };
      int call = ctx.Choose(kCalls, "call");
      if (call == kStop) break;
      ctx.Step(("call " + std::to_string(call)).c_str());
      bool ready = m.at == At::kDisabled || m.at == At::kEnabled;
      bool legal = true, wrong_info = false;
      if (call == kEet) legal = m.at == At::kNew;
      if (call == kMulti) legal = ready;
      if (call == kCheckin) {
        wrong_info = ctx.Flip("wrong information");
        legal = (ready || m.at == At::kMultiAccepted || m.at == At::kMultiFailed || m.at == At::kMultiFailedForGood || m.at == At::kMultiNone) && !wrong_info;
      }
      if (call == kError) {
        // (only after an eligibility task was received; others are not specified)
        if (m.at != At::kEnabled) ctx.Prune();
        w.Expecting({m.EetResult(Code::kInternal)});
        int before = m.report_failures, noted = m.Count(fcp::client::ProdDiagCode::HTTP_REPORT_ELIGIBILITY_EVAL_RESULT_REQUEST_FAILED);
        p->ReportEligibilityEvalError(absl::InternalError("x"));
        ctx.Eq(m.Count(fcp::client::ProdDiagCode::HTTP_REPORT_ELIGIBILITY_EVAL_RESULT_REQUEST_FAILED) - noted, m.report_failures - before, "lost errors noted");
        m.After(*p, absl::OkStatus(), "the report of an error");
        break;   // (the session ends with it)
      }
      if (legal) {
        if (call == kEet) m.DoEligibility(*p, o);
        if (call == kCheckin) m.DoCheckin(*p, o), tried_checkin = true;
        if (call == kMulti) m.DoMulti(*p, 1, o);
        continue;
      }
      try {
        absl::Status s;
        if (call == kEet) s = p->EligibilityEvalCheckin([](auto&) {}).status();
        if (call == kMulti) s = p->PerformMultipleTaskAssignments({}, [](size_t) {}).status();
        if (call == kCheckin) {
          std::optional<TaskEligibilityInfo> info;
          if (m.enabled != wrong_info) info = m.Info();
          s = p->Checkin(info, [](auto&) {}).status();
        }
        ctx.Check(!s.ok(), "a call out of order was accepted");
      } catch (const mc_fatal::Fatal&) {
      }
      ctx.Outcome("refused");
      break;
    }
  }, Throws());
}
// Schedules: a check-in while the answer arrives on another thread.
MC_SCENARIO(schedules, {.bound = 1, .bound_thorough = 2}) {
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    w.http.threads = 1;
    auto p = MakeProtocol(w);
    Model m(w);
    Options o{.compact = true};
    m.DoEligibility(*p, o);
    if (m.at == At::kDisabled || m.at == At::kEnabled) m.DoCheckin(*p, o);
  });
}
static int init = (mc::Rule("every kind of answer to every request of the eligibility check-in, of the assignment of one task with polling and cancellation, "
                            "and of up to three (thorough four) tasks, with every kind of resource; all call sequences of length up to four (thorough five); "
                            "interruption during any request"),
                   mc::Assumption("the HTTP client keeps its documented contract; the server uses distinct names and ids for distinct tasks, and an operation that failed carries an error code"), 0);
