// C01: the result of a session is the exact sum of the accepted inputs.
#include "common/secagg.h"

using namespace mcs;
namespace {
typedef ClientToServerWrapperMessage C2S;
const C2S::MessageContentCase kKind[4] = {C2S::kAdvertiseKeys, C2S::kShareKeysResponse, C2S::kMaskedInputResponse,
                                          C2S::kUnmaskingResponse};
enum Mode { kSilent, kDropBefore, kAbortBefore, kDropAfter, kAbortAfter, kWrongMessage, kModes };

void Run(mc::Ctx& ctx, Options o, bool choose_vectors) {
  if (choose_vectors) {
    o.specs = ctx.Choose(5, "vectors", 1);
    o.pattern = 1 - ctx.Choose(2, "values", 1);
  }
  std::vector<int> round(o.n, 9), mode(o.n, 0);
  int drops = 0;
  for (int i = 0; i < o.n; ++i) {
    int f = ctx.Choose(1 + 4 * kModes, "fate of next client", 1);
    if (f) round[i] = (f - 1) / kModes, mode[i] = (f - 1) % kModes, ++drops;
  }
  bool late_input = ctx.Choose(2, "input given late", 1);
  bool reverse = ctx.Choose(2, "messages in reverse order", 1);
  Session s(o);
  std::string trace = "n" + std::to_string(o.n) + (o.subgraph ? "s" : "f") + (o.async ? "a" : "") + std::to_string(o.specs) +
                      std::to_string(o.pattern) + (late_input ? "l" : "") + (reverse ? "r" : "");
  for (int i = 0; i < o.n; ++i) trace += "/" + std::to_string(round[i]) + "." + std::to_string(mode[i]);
  ctx.State(trace);
  std::vector<bool> gone(o.n), accepted(o.n);
  bool model_abort = false;
  int aborted_round = 9;
  for (int i = 0; i < o.n; ++i) {
    if (!late_input) s.SetInput(i);
    ctx.Check(s.clients[i]->Start().ok(), "client does not start");
  }
  auto background = [&] {
    while (!s.parallel.tasks.empty() || !s.sequential.tasks.empty()) {
      // Any pending background task may be next; callbacks run in order.
      int np = (int)s.parallel.tasks.size();
      int c = ctx.Choose(np + (s.sequential.tasks.empty() ? 0 : 1), "background task", 1);
      if (c < np) s.parallel.Run(c);
      else s.sequential.Run(0);
      ctx.Step();
    }
  };
  for (int r = 0; r < 4 && !model_abort; ++r) {
    int answers = 0, alive = 0;
    for (int i = 0; i < o.n; ++i) alive += !gone[i];
    auto drop = [&](int i) {
      ctx.Check(s.server->AbortClient(i, ClientAbortReason::CONNECTION_DROPPED).ok(), "cannot drop a client");
      gone[i] = true;
    };
    auto self_abort = [&](int i) {
      ctx.Check(s.clients[i]->Abort("stop").ok(), "a client cannot abort");
      // (Nothing is said by a client that has finished.)
      while (!s.out[i].empty()) {
        C2S m = s.out[i].front();
        s.out[i].pop_front();
        if (m.has_abort()) (void)s.Deliver(i, m);
      }
      if (r < 3) gone[i] = true;
    };
    for (int j = 0; j < o.n; ++j) {
      int i = reverse ? o.n - 1 - j : j;
      if (gone[i]) continue;
      int md = round[i] == r ? mode[i] : -1;
      if (md == kDropBefore) {
        drop(i);
        continue;
      }
      if (md == kAbortBefore) {
        self_abort(i);
        gone[i] = true;
        continue;
      }
      s.Pump(i);
      if (late_input && r == 2) s.SetInput(i);
      if (s.clients[i]->IsAborted()) {
        // Possible in the sparse graph, when too few neighbours are left.
        ctx.Check(o.subgraph, "a client gave up in round " + std::to_string(r) + ": " + s.clients[i]->ErrorMessage().value_or(""));
        C2S m = s.out[i].front();
        s.out[i].pop_front();
        ctx.Check(m.has_abort(), "a client gave up silently");
        (void)s.Deliver(i, m);
        gone[i] = true;
        continue;
      }
      ctx.Check(s.Has(i, kKind[r]), "client " + std::to_string(i) + " has no message for round " + std::to_string(r));
      C2S m = s.out[i].front();
      s.out[i].pop_front();
      if (md == kSilent) continue;
      if (md == kWrongMessage) {
        C2S w;
        if (r == 0) w.mutable_share_keys_response();
        else w.mutable_advertise_keys();
        (void)s.Deliver(i, w);
        gone[i] = true;
        continue;
      }
      auto st = s.Deliver(i, m);
      ctx.Check(st.ok(), "valid message refused: " + std::string(st.status().message()));
      ctx.Step();
      if (r == 2) accepted[i] = true;
      ++answers;
      if (md == kDropAfter) drop(i), answers -= r < 3;
      if (md == kAbortAfter) self_abort(i), answers -= r < 3;
    }
    background();
    // The server goes on with those that have answered.
    bool enough = answers >= o.min;
    auto ready = s.server->ReadyForNextRound();
    alive = 0;
    for (int i = 0; i < o.n; ++i) alive += !gone[i];
    if (!enough && alive >= o.min && !(r == 3)) {
      // Waiting for silent clients: they go away.
      ctx.Check(ready.ok() && !*ready, "the server would go on with too few clients");
      for (int i = 0; i < o.n; ++i)
        if (!gone[i] && round[i] == r && mode[i] == kSilent) drop(i);
      background();
    } else if (!enough && r == 3) {
      for (int i = 0; i < o.n; ++i)
        if (!gone[i] && round[i] == r && mode[i] == kSilent) drop(i);
    }
    ready = s.server->ReadyForNextRound();
    ctx.Check(ready.ok() && *ready, "the server is stuck in round " + std::to_string(r));
    ctx.Check(s.server->ProceedToNextRound().ok(), "the server cannot go on");
    ctx.Step();
    if (!enough) {
      model_abort = true, aborted_round = r;
      ctx.Check(s.server->IsAborted(), "the server went on with too few clients");
      break;
    }
    ctx.Check(!s.server->IsAborted(), "the server aborted with enough clients");
    for (int i = 0; i < o.n; ++i)
      if (round[i] == r) gone[i] = true;
  }
  if (!model_abort) {
    background();
    auto ready = s.server->ReadyForNextRound();
    ctx.Check(ready.ok() && *ready, "unmasking does not end");
    ctx.Check(s.server->ProceedToNextRound().ok(), "the server cannot go on");
    if (!o.subgraph || !drops) ctx.Check(s.server->IsCompletedSuccessfully(), "the session failed");
  }
  if (s.server->IsCompletedSuccessfully()) {
    auto res = s.server->Result();
    ctx.Check(res.ok() && *res != nullptr, "no result");
    ctx.Check(ToPlain(**res) == s.Sum(accepted), "the result is not the sum of the accepted inputs");
    int want = 0;
    for (bool b : accepted) want += b;
    ctx.Eq(s.server->NumberOfIncludedInputs(), want, "number of included inputs");
    ctx.Check(!s.server->Result().ok(), "the result can be had twice");
    ctx.Outcome("completed with " + std::to_string(want));
  } else {
    ctx.Check(s.server->IsAborted(), "the session ended in no final state");
    ctx.Check(!s.server->Result().ok(), "an aborted session has a result");
    ctx.Outcome(model_abort ? "aborted in round " + std::to_string(aborted_round) : "not reconstructible");
  }
}
}  // namespace

MC_SCENARIO(full_graph, {.bound = 2, .bound_thorough = 3}) {
  Options o;
  o.n = 4, o.min = 2;
  Run(ctx, o, true);
}
MC_SCENARIO(full_graph_background, {.bound = 2, .bound_thorough = 3}) {
  Options o;
  o.n = 3, o.min = 2, o.async = true;
  Run(ctx, o, true);
}
MC_SCENARIO(sparse_graph, {.bound = 2, .bound_thorough = 3}) {
  Options o;
  o.n = 5, o.min = 3, o.subgraph = true;
  Run(ctx, o, true);
}
MC_SCENARIO(sparse_graph_background, {.bound = 1, .bound_thorough = 2}) {
  Options o;
  o.n = 8, o.min = 4, o.subgraph = true, o.async = true;
  Run(ctx, o, true);
}
MC_SCENARIO(high_threshold, {.bound = 2, .bound_thorough = 3}) {
  Options o;
  o.n = 4, o.min = 3;
  Run(ctx, o, false);
}
// More clients than fit one batch of mask jobs.
MC_SCENARIO(many_clients, {.bound = 1, .bound_thorough = 1}) {
  Options o;
  o.n = 35, o.min = 20, o.async = true;
  o.specs = 1;
  int d2 = ctx.Choose(3, "dropped in round 2");
  Session s(o);
  for (int i = 0; i < o.n; ++i) s.SetInput(i), (void)s.clients[i]->Start();
  std::vector<bool> accepted(o.n);
  for (int r = 0; r < 4; ++r) {
    for (int i = 0; i < o.n; ++i) {
      s.Pump(i);
      if (s.out[i].empty()) continue;
      C2S m = s.out[i].front();
      s.out[i].pop_front();
      if (r == 2 && i < d2) continue;
      if (r == 2) accepted[i] = true;
      ctx.Check(s.Deliver(i, m).ok(), "valid message refused");
      ctx.Step();
    }
    s.RunTasks();
    ctx.Check(s.server->ProceedToNextRound().ok(), "stuck");
  }
  while (!s.parallel.tasks.empty() || !s.sequential.tasks.empty()) {
    int np = (int)s.parallel.tasks.size();
    int c = ctx.Choose(np + (s.sequential.tasks.empty() ? 0 : 1), "background task", 1);
    if (c < np) s.parallel.Run(c);
    else s.sequential.Run(0);
    ctx.Step();
  }
  ctx.Check(s.server->ProceedToNextRound().ok() && s.server->IsCompletedSuccessfully(), "the session failed");
  ctx.Check(ToPlain(**s.server->Result()) == s.Sum(accepted), "the result is not the sum of the accepted inputs");
  ctx.State("many" + std::to_string(d2));
  ctx.Outcome("many");
}
static int init = (mc::Rule("Every fate of up to two (three) clients out of 3-8: silent, dropped, aborted before or after answering, or "
                            "answering wrongly, in each of the four rounds; crossed with vector shapes, input timing, message order and "
                            "the order of background tasks within the same deviation bound."),
                   0);
