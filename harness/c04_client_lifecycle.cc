// C04: the life of a client under all orders of calls.
#include "common/secagg_peer.h"

using namespace mcs;
namespace {
enum S { R0, R1, R2, R2Wait, R3, Done, Aborted };
enum Op { kStart, kInput, kBadInput, kAbort, kShare, kMasked, kUnmask, kSrvAbort, kEarly, kEmpty, kSignal, kOps };
const char* kNames[] = {"Start", "SetInput", "SetInput(invalid)", "Abort", "share keys", "masked input", "unmasking", "server abort", "early success", "empty message", "signal"};
struct Model {
  int s = R0;
  bool input = false, signal = false;
  std::vector<int> states = {(int)ClientState::R0_ADVERTISE_KEYS};
  void Go(int to) {
    static const ClientState k[] = {ClientState::R0_ADVERTISE_KEYS, ClientState::R1_SHARE_KEYS, ClientState::R2_MASKED_INPUT, ClientState::R2_MASKED_INPUT,
                                    ClientState::R3_UNMASKING,      ClientState::COMPLETED,     ClientState::ABORTED};
    s = to;
    states.push_back((int)k[to]);
  }
};
void Run(mc::Ctx& ctx, int length, bool all, bool with_signal) {
  std::atomic<std::string*> signal{nullptr};
  std::string text = "signalled";
  Lone l(3, 2, 1, 0, -1, with_signal ? &signal : nullptr);
  Model m;
  std::string trace;
  bool announced = false;
  static const Op normal[] = {kStart, kInput, kShare, kMasked, kUnmask, kStart, kAbort};
  int next = 0;
  for (int step = 0; step < length; ++step) {
    int op;
    if (all) op = ctx.Choose(with_signal ? kOps : kOps - 1, "operation");
    else {
      int c = ctx.Choose(kOps + 1, "operation", 1);
      op = c == 0 ? normal[std::min(next++, 6)] : c - 1;
      if (op == kSignal && !with_signal) continue;
    }
    trace += std::string(trace.empty() ? "" : ", ") + kNames[op];
    bool live = m.s < Done;
    int want = -1;                    // kind of the message expected
    fcp::StatusCode code = fcp::OK;
    fcp::Status st = absl::OkStatus();
    std::optional<bool> more;
    auto recv = [&](const S2C& msg) {
      auto r = l.client->ReceiveMessage(msg);
      st = r.status();
      if (r.ok()) more = *r;
    };
    size_t states = l.states.size();
    int expected_round = op == kShare ? R1 : op == kMasked ? R2 : R3;
    switch (op) {
      case kStart:
        st = l.client->Start();
        if (m.s != R0) code = fcp::FAILED_PRECONDITION;
        else m.Go(R1), want = C2S::kAdvertiseKeys;
        break;
      case kInput:
        st = l.SetInput();
        if (!live || m.input) code = fcp::FAILED_PRECONDITION;
        else {
          m.input = true;
          if (m.s == R2Wait) m.Go(R3), want = C2S::kMaskedInputResponse;
          else m.Go(m.s);
        }
        break;
      case kBadInput: {
        int which = step % 4;
        Plain p = l.input;
        auto specs = l.specs;
        if (which == 0) p["a"].push_back(0);
        if (which == 2) p["more"] = {1}, specs.emplace_back("more", 1, 2);
        auto map = which == 1 ? std::make_unique<SecAggVectorMap>() : std::make_unique<SecAggVectorMap>();
        if (which != 1)
          for (auto& s : specs) map->emplace(which == 3 ? "b" : s.name(), SecAggVector(p.at(s.name()), s.modulus()));
        st = l.client->SetInput(std::move(map));
        code = live && !m.input ? fcp::INVALID_ARGUMENT : fcp::FAILED_PRECONDITION;
        break;
      }
      case kAbort:
        st = l.client->Abort("because");
        m.signal = true;
        if (live) m.Go(Aborted), want = C2S::kAbort;
        break;
      case kShare:
      case kMasked:
      case kUnmask: {
        S2C msg = op == kShare ? l.ShareKeys() : op == kMasked ? l.MaskedInput() : l.Unmasking({});
        recv(msg);
        if (m.s != expected_round) code = fcp::FAILED_PRECONDITION;
        else if (m.signal) m.Go(Aborted), want = C2S::kAbort;
        else if (op == kShare) m.Go(R2), want = C2S::kShareKeysResponse;
        else if (op == kUnmask) m.Go(Done), want = C2S::kUnmaskingResponse;
        else if (m.input) m.Go(R3), want = C2S::kMaskedInputResponse;
        else m.Go(R2Wait);
        break;
      }
      case kSrvAbort:
      case kEarly:
        recv(Lone::AbortMessage(op == kEarly));
        if (!live) code = fcp::FAILED_PRECONDITION;
        else m.Go(op == kEarly ? Done : Aborted);
        break;
      case kEmpty:
        recv(S2C());
        code = fcp::FAILED_PRECONDITION;
        break;
      case kSignal:
        signal = &text;
        m.signal = true;
        break;
    }
    std::string w = " after " + trace;
    ctx.Step(kNames[op]);
    ctx.Eq((int)st.code(), (int)code, "status" + w);
    if (more) ctx.Eq(*more, m.s < Done, "going on" + w);
    ctx.Eq((int)l.out.size(), want >= 0 ? 1 : 0, "messages sent" + w);
    if (want >= 0) {
      ctx.Eq((int)l.out[0].message_content_case(), want, "kind of message sent" + w);
      if (want == C2S::kAdvertiseKeys) {
        ctx.Check(!announced, "keys announced twice" + w);
        announced = true;
        l.Learn(l.out[0]);
      }
    }
    l.out.clear();
    ctx.Eq(l.client->IsAborted(), m.s == Aborted, "aborted" + w);
    ctx.Eq(l.client->IsCompletedSuccessfully(), m.s == Done, "completed" + w);
    ctx.Eq(l.client->ErrorMessage().ok(), m.s == Aborted, "error message" + w);
    ctx.Check(l.states.size() >= states, "transitions");
    // The states announced, without repetitions.
    auto uniq = [](const std::vector<int>& v) {
      std::vector<int> u;
      for (int x : v)
        if (u.empty() || u.back() != x) u.push_back(x);
      return u;
    };
    ctx.Check(uniq(l.states) == uniq(m.states), "the states announced differ" + w);
    ctx.State(std::to_string(m.s) + std::to_string(m.input) + std::to_string(m.signal));
  }
  ctx.Outcome("ends in state " + std::to_string(m.s));
}
}  // namespace

MC_SCENARIO(all_orders) { Run(ctx, ctx.thorough() ? 6 : 5, true, false); }
MC_SCENARIO(deviations, {.bound = 2, .bound_thorough = 4}) { Run(ctx, 9, false, false); }
MC_SCENARIO(with_signal, {.bound = 2, .bound_thorough = 3}) { Run(ctx, 9, false, true); }
static int init = (mc::Rule("All sequences of calls up to length 5 (6), and sequences of length 9 deviating from the normal course up to 2 (4) times."), 0);
