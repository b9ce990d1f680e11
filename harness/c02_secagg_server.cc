// C02: the server's rounds, compared with a model after every call.
#include <set>

#include "common/secagg.h"

using namespace mcs;
namespace {
typedef ClientToServerWrapperMessage C2S;
typedef ServerToClientWrapperMessage S2C;
enum Round { R0, R1, R2, R3, PRNG, DONE, ABORTED };
const SecAggServerStateKind kState[] = {
    SecAggServerStateKind::R0_ADVERTISE_KEYS,          SecAggServerStateKind::R1_SHARE_KEYS,
    SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION, SecAggServerStateKind::R3_UNMASKING,
    SecAggServerStateKind::PRNG_RUNNING,               SecAggServerStateKind::COMPLETED,
    SecAggServerStateKind::ABORTED};
const C2S::MessageContentCase kKind[4] = {C2S::kAdvertiseKeys, C2S::kShareKeysResponse, C2S::kMaskedInputResponse,
                                          C2S::kUnmaskingResponse};
const S2C::MessageContentCase kRequest[4] = {S2C::MESSAGE_CONTENT_NOT_SET, S2C::kShareKeysRequest, S2C::kMaskedInputRequest,
                                             S2C::kUnmaskingRequest};

struct Model {
  int n, min;
  int round = R0;
  std::vector<bool> dead, answered, input, unmasked, early;
  int messages = 0;  // valid ones in this round
  bool doomed = false;
  // What each client has been sent since the last look: 'a' abort, 'e' abort
  // counting as success, 'r' the request of the new round.
  std::vector<std::string> sent;
  Model(int n, int min)
      : n(n), min(min), dead(n), answered(n), input(n), unmasked(n), early(n), sent(n) {}
  int Before() const {
    int c = 0;
    for (int i = 0; i < n; ++i) c += dead[i] && !input[i];
    return c;
  }
  int After() const {
    int c = 0;
    for (int i = 0; i < n; ++i) c += dead[i] && input[i] && !unmasked[i] && !early[i];
    return c;
  }
  int Early() const {
    int c = 0;
    for (int i = 0; i < n; ++i) c += early[i];
    return c;
  }
  int Alive() const { return n - Before() - After() - Early(); }
  int Ready() const {
    if (round > R3) return 0;
    if (round == R3) return messages;
    int c = 0;
    for (int i = 0; i < n; ++i) c += answered[i] && !dead[i];
    return c;
  }
  int Pending() const { return round > R3 ? 0 : Alive() - Ready(); }
  int Included() const {
    if (round == R2) return messages;
    if (round < R2 || round == ABORTED) return 0;
    return n - Before();
  }
  bool CanProceed() const { return round <= R3 && (doomed || Ready() >= min); }
  void Drop(int i, bool notify, bool success = false) {
    if (dead[i]) return;
    dead[i] = true;
    if (success && !unmasked[i]) early[i] = true;
    if (notify) sent[i] += success ? 'e' : 'a';
    if (round <= R2 && Alive() < min) doomed = true;
    if (round == R3 && !unmasked[i] && Pending() + messages < min) doomed = true;
  }
  void Receive(int i, C2S::MessageContentCase kind, bool valid) {
    if (kind == C2S::kAbort) return Drop(i, false);
    bool expected = round <= R3 && !dead[i] && !answered[i] && kind == kKind[round] && valid;
    if (!expected) return Drop(i, true);
    answered[i] = true;
    ++messages;
    if (round == R2) input[i] = true;
    if (round == R3) unmasked[i] = true;
  }
  void Abort() {
    for (int i = 0; i < n; ++i)
      if (!dead[i]) sent[i] += 'a';
    round = ABORTED;
  }
  void Proceed() {
    if (doomed) return Abort();
    int r = round;
    for (int i = 0; i < n; ++i)
      if (!dead[i] && !answered[i]) {
        dead[i] = true;
        if (r == R3) early[i] = true;
        sent[i] += r == R3 ? 'e' : 'a';
      }
    for (int i = 0; i < n; ++i)
      if (!dead[i] && r < R3) sent[i] += 'r';
    round = r + 1;
    messages = 0;
    doomed = false;
    answered.assign(n, false);
  }
};

class World {
 public:
  World(mc::Ctx& ctx, const Options& o) : ctx(ctx), s(o), m(o.n, o.min), last(o.n), pending(o.n) {
    for (int i = 0; i < o.n; ++i) {
      s.SetInput(i);
      (void)s.clients[i]->Start();
      Collect(i);
    }
  }
  void Collect(int i) {
    while (!s.out[i].empty()) {
      pending[i] = std::make_unique<C2S>(s.out[i].front());
      s.out[i].pop_front();
    }
  }
  // Compares everything observable.
  void Compare(const char* what) {
    std::string w = std::string(" after ") + what;
    auto& v = *s.server;
    ctx.Step(w);
    ctx.Check(v.State() == kState[m.round], "state " + std::to_string(v.State()) + " instead of round " + std::to_string(m.round) + w);
    ctx.Eq(v.IsAborted(), m.round == ABORTED, "aborted" + w);
    ctx.Eq(v.IsCompletedSuccessfully(), m.round == DONE, "completed" + w);
    ctx.Eq(v.ErrorMessage().ok(), m.round == ABORTED, "error message" + w);
    ctx.Eq(v.NumberOfAliveClients(), m.Alive(), "alive clients" + w);
    ctx.Eq(v.NumberOfClientsFailedBeforeSendingMaskedInput(), m.Before(), "failed before input" + w);
    ctx.Eq(v.NumberOfClientsFailedAfterSendingMaskedInput(), m.After(), "failed after input" + w);
    ctx.Eq(v.NumberOfClientsTerminatedWithoutUnmasking(), m.Early(), "terminated without unmasking" + w);
    ctx.Eq(v.NumberOfPendingClients(), m.Pending(), "pending clients" + w);
    ctx.Eq(v.NumberOfIncludedInputs(), m.Included(), "included inputs" + w);
    ctx.Eq(v.IsNumberOfIncludedInputsCommitted(), m.round >= R3, "included inputs committed" + w);
    bool terminal = m.round >= DONE;
    auto ready = v.ReadyForNextRound();
    ctx.Eq(ready.ok(), !terminal, "asking for readiness" + w);
    if (m.round <= R3) {
      bool idle = s.parallel.tasks.empty() && s.sequential.tasks.empty();
      ctx.Eq(*ready, m.CanProceed() && (m.round != R2 || idle), "ready for the next round" + w);
      int need = std::max(0, m.min - (m.round == R3 ? m.messages : m.Ready()));
      ctx.Eq(v.MinimumMessagesNeededForNextRound().value(), need, "messages needed" + w);
      ctx.Eq(v.NumberOfClientsReadyForNextRound().value(), m.Ready(), "ready clients" + w);
      ctx.Eq(v.NumberOfMessagesReceivedInThisRound().value(), m.messages, "messages in this round" + w);
    }
    if (terminal) {
      ctx.Check(!v.MinimumMessagesNeededForNextRound().ok() && !v.NumberOfClientsReadyForNextRound().ok() &&
                    !v.NumberOfMessagesReceivedInThisRound().ok(),
                "a finished session answers round questions" + w);
      ctx.Eq((int)s.outcomes.size(), 1, "outcomes recorded" + w);
    } else {
      ctx.Eq((int)s.outcomes.size(), 0, "outcomes recorded" + w);
      ctx.Check(!v.Result().ok(), "a result before the end" + w);
    }
    auto gone = v.AbortedClientIds();
    for (int i = 0; i < m.n; ++i) ctx.Eq(gone.contains(i), (bool)m.dead[i], "aborted ids" + w);
    for (int i = 0; i < m.n; ++i) {
      auto& in = s.to_clients.in[i];
      std::string got;
      for (auto& x : in) {
        if (x.has_abort()) got += x.abort().early_success() ? 'e' : 'a';
        else got += m.round <= R3 && x.message_content_case() == kRequest[m.round] ? 'r' : '?';
      }
      ctx.Check(got == m.sent[i], "client " + std::to_string(i) + " was sent '" + got + "' and not '" + m.sent[i] + "'" + w);
      m.sent[i].clear();
      if (!in.empty()) {
        s.Pump(i);
        Collect(i);
      }
    }
    std::string st = std::to_string(m.round) + (m.doomed ? "d" : "") + std::to_string(m.messages);
    for (int i = 0; i < m.n; ++i)
      st += "," + std::to_string(m.dead[i]) + std::to_string(m.answered[i]) + std::to_string(m.input[i]) + std::to_string(m.unmasked[i]) +
            std::to_string(m.early[i]);
    ctx.State(st);
  }
  void Send(int i, const C2S& msg, const char* what, bool valid = true) {
    auto r = s.Deliver(i, msg);
    if (i < 0 || i >= m.n || m.round >= DONE) {
      ctx.Check(!r.ok() && r.status().code() == fcp::FAILED_PRECONDITION, std::string(what) + " accepted");
    } else {
      m.Receive(i, msg.message_content_case(), valid);
      ctx.Check(r.ok(), std::string(what) + " refused");
      bool idle = s.parallel.tasks.empty() && s.sequential.tasks.empty();
      if (m.round <= R3) ctx.Eq(*r, m.CanProceed() && (m.round != R2 || idle), "readiness returned");
    }
    Compare(what);
  }
  void Proceed(const char* what) {
    auto st = s.server->ProceedToNextRound();
    bool idle = s.parallel.tasks.empty() && s.sequential.tasks.empty();
    if (m.round >= DONE) {
      ctx.Check(st.code() == fcp::FAILED_PRECONDITION, "a finished session went on");
    } else if (m.round == PRNG) {
      ctx.Check(idle ? st.ok() : st.code() == fcp::UNAVAILABLE, "proceed while unmasking");
      if (idle) m.round = DONE, m.answered.assign(m.n, false);
    } else if (m.CanProceed() && (m.round != R2 || idle)) {
      ctx.Check(st.ok(), "the server cannot proceed");
      m.Proceed();
    } else {
      ctx.Check(st.code() == fcp::UNAVAILABLE, "the server proceeded early");
    }
    Compare(what);
  }
  void Abort() {
    auto st = s.server->Abort("test", SecAggServerOutcome::EXTERNAL_REQUEST);
    if (m.round >= DONE) ctx.Check(st.code() == fcp::FAILED_PRECONDITION, "a finished session was aborted");
    else {
      ctx.Check(st.ok(), "abort refused");
      m.Abort();
    }
    Compare("abort");
  }
  void AbortClient(int i, ClientAbortReason reason) {
    auto st = s.server->AbortClient(i, reason);
    if (m.round >= DONE || i >= m.n) ctx.Check(st.code() == fcp::FAILED_PRECONDITION, "client aborted after the end");
    else {
      ctx.Check(st.ok(), "client abort refused");
      m.Drop(i, reason == ClientAbortReason::INVALID_MESSAGE);
    }
    Compare("client abort");
  }
  void Finish() {
    if (m.round != DONE) return;
    auto r = s.server->Result();
    ctx.Check(r.ok(), "no result");
    ctx.Check(ToPlain(**r) == s.Sum(m.input), "wrong result");
    ctx.Check(!s.server->Result().ok(), "result taken twice");
  }
  mc::Ctx& ctx;
  Session s;
  Model m;
  std::vector<std::unique_ptr<C2S>> last, pending;
};
enum Op { kNormal, kDeliverOther, kEarlyProceed, kDropConn, kDropInvalid, kDropOther, kClientAbort, kWrongType, kEmpty, kRepeat, kAbort, kOutOfRange, kTask };
void Run(mc::Ctx& ctx, const Options& o) {
  World w(ctx, o);
  w.Compare("start");
  int extra = 0;
  for (int step = 0; step < 60; ++step) {
    std::vector<std::pair<int, int>> ops;
    bool tasks = !w.s.parallel.tasks.empty() || !w.s.sequential.tasks.empty();
    // The ordinary next step comes first.
    std::vector<int> deliverable;
    for (int i = 0; i < o.n; ++i)
      if (w.m.round <= R3 && !w.m.dead[i] && !w.m.answered[i] && w.pending[i]) deliverable.push_back(i);
    if (w.m.round >= DONE) {
      if (extra++ == 2) break;
      ops.push_back({kNormal, 0});
    } else if (!deliverable.empty()) {
      ops.push_back({kDeliverOther, deliverable[0]});
    } else if (tasks) {
      ops.push_back({kTask, 0});
    } else {
      ops.push_back({kEarlyProceed, 0});
      if (w.m.round <= R3 && !w.m.CanProceed()) {
        // Nobody is left to answer: the caller gives up.
        ops[0] = {kAbort, 0};
      }
    }
    for (size_t k = 1; k < deliverable.size(); ++k) ops.push_back({kDeliverOther, deliverable[k]});
    if (tasks && ops[0].first != kTask) ops.push_back({kTask, 0});
    if (ops[0].first != kEarlyProceed) ops.push_back({kEarlyProceed, 0});
    for (int i = 0; i < o.n; ++i) {
      bool known = w.m.dead[i];
      ops.push_back({kDropConn, i});
      ops.push_back({kClientAbort, i});
      ops.push_back({kWrongType, i});
      if (known) continue;  // the others do not differ for a dead client
      ops.push_back({kDropInvalid, i});
      if (ctx.thorough()) ops.push_back({kDropOther, i}), ops.push_back({kEmpty, i});
      if (w.last[i]) ops.push_back({kRepeat, i});
    }
    if (ops[0].first != kAbort) ops.push_back({kAbort, 0});
    if (step % 4 == 0) ops.push_back({kOutOfRange, 0});
    auto [op, i] = ops[ctx.Choose((int)ops.size(), "operation", 1)];
    switch (op) {
      case kNormal: w.Proceed("proceed after the end"); break;
      case kDeliverOther: {
        w.last[i] = std::make_unique<C2S>(*w.pending[i]);
        w.pending[i].reset();
        w.Send(i, *w.last[i], "message");
        break;
      }
      case kEarlyProceed: w.Proceed("proceed"); break;
      case kDropConn: w.AbortClient(i, ClientAbortReason::CONNECTION_DROPPED); break;
      case kDropInvalid: w.AbortClient(i, ClientAbortReason::INVALID_MESSAGE); break;
      case kDropOther: w.AbortClient(i, ClientAbortReason::NOT_CHECKED_IN); break;
      case kClientAbort: {
        C2S m;
        m.mutable_abort()->set_diagnostic_info("x");
        w.Send(i, m, "abort message");
        break;
      }
      case kWrongType: {
        C2S m;
        if (w.m.round == R0) m.mutable_unmasking_response();
        else m.mutable_advertise_keys();
        w.Send(i, m, "wrong message");
        break;
      }
      case kEmpty: w.Send(i, C2S(), "empty message"); break;
      case kRepeat: {
        // The last message again: a duplicate, or stale.
        bool stale = w.m.round > R3 || w.last[i]->message_content_case() != kKind[w.m.round];
        w.Send(i, *w.last[i], "repeated message", !stale);
        break;
      }
      case kAbort: w.Abort(); break;
      case kOutOfRange: {
        C2S m;
        m.mutable_abort();
        auto r = w.s.server->ReceiveMessage(o.n, std::make_unique<C2S>(m));
        ctx.Check(!r.ok(), "message from an unknown client accepted");
        r = w.s.server->ReceiveMessage(0xffffffffu, std::make_unique<C2S>(m));
        ctx.Check(!r.ok(), "message from an unknown client accepted");
        ctx.Check(!w.s.server->AbortClient(o.n, ClientAbortReason::CONNECTION_DROPPED).ok(), "unknown client aborted");
        w.Compare("message from an unknown client");
        break;
      }
      case kTask: {
        if (!w.s.parallel.tasks.empty()) w.s.parallel.Run(0);
        else w.s.sequential.Run(0);
        w.Compare("background task");
        break;
      }
    }
  }
  ctx.Check(w.m.round >= DONE, "the session does not end");
  w.Finish();
  std::string in;
  for (int i = 0; i < o.n; ++i) in += w.m.input[i] ? 'i' : '-';
  ctx.Outcome(std::string(w.m.round == DONE ? "completed " : "aborted ") + in);
}
}  // namespace

MC_SCENARIO(three_clients, {.bound = 2, .bound_thorough = 3}) {
  Options o;
  o.n = 3, o.min = 2, o.specs = 1;
  Run(ctx, o);
}
MC_SCENARIO(all_needed, {.bound = 2, .bound_thorough = 2}) {
  Options o;
  o.n = 3, o.min = 3;
  Run(ctx, o);
}
MC_SCENARIO(background, {.bound = 1, .bound_thorough = 2}) {
  Options o;
  o.n = 4, o.min = 2, o.async = true;
  Run(ctx, o);
}
// What the server is created with.
MC_SCENARIO(minimum) {
  int n = 2 + ctx.Choose(7, "clients"), min = ctx.Choose(n + 3, "minimum");
  double drop = ctx.Pick(std::vector<double>{0, 0.1, 0.3, 0.5, 0.99}, "drop-out rate");
  double adv = ctx.Pick(std::vector<double>{0, 0.2}, "adversarial rate");
  bool curious = ctx.Flip("curious server");
  mcq::Quiet();
  SecureAggregationRequirements r;
  r.set_adversary_class(curious ? AdversaryClass::CURIOUS_SERVER : AdversaryClass::NONE);
  r.set_estimated_dropout_rate(drop);
  r.set_adversarial_client_rate(adv);
  ToClients tc;
  tc.in.resize(n);
  ManualScheduler a, b;
  std::vector<int> outcomes;
  std::vector<std::pair<int, int>> dropped;
  auto s = SecAggServer::Create(min, n, Specs(0), &tc, std::make_unique<Metrics>(&outcomes, &dropped), std::make_unique<SecAggScheduler>(&a, &b),
                                std::make_unique<Experiments>(std::vector<std::string>{kFullgraphSecAggExperiment}), r);
  int want = std::max(min, (int)std::ceil(n * (1. - drop)));
  bool ok = want >= 2 && want <= n && (!curious || want > std::ceil(adv * n));
  ctx.Eq(s.ok(), ok, "server created");
  ctx.Step();
  if (ok) {
    ctx.Eq((*s)->MinimumMessagesNeededForNextRound().value(), want, "messages needed");
    ctx.Eq((*s)->NumberOfNeighbors(), n, "neighbours");
    ctx.Eq((*s)->MinimumSurvivingNeighborsForReconstruction(), want, "threshold");
  }
  ctx.State(std::to_string(n) + "/" + std::to_string(min) + "/" + std::to_string(drop) + "/" + std::to_string(adv) + "/" + std::to_string(curious));
}
static int init = (mc::Rule("All sessions of 3-4 clients that deviate from the ordinary course by up to two (three) operations, at any "
                            "point: other order, early proceed, dropped or aborting client, wrong, repeated or stale message, abort."),
                   0);
