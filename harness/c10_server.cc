// C10: a secure aggregation server that adds masked inputs and removes masks in
// the background, on real thread pools, under every schedule (within the bound).
#include "common/mcsched.h"
#include "common/rand.h"
#include "common/secagg.h"

namespace {
using namespace mcs;  // NOLINT
using mc::Ctx;
namespace sched = mc::sched;
using Wrapper = ClientToServerWrapperMessage;

constexpr int kClients = 3;
constexpr int kSummed = 1, kUnmasked = 2, kAborted = 3;

// The messages of one session, as real clients wrote them.
struct Script {
  std::vector<Wrapper> round[4];
  Plain sum;
};
Script Write(bool last_drops) {
  mc::SeedRand(7);
  Options o;
  o.n = kClients;
  o.min = 2;
  Session s(o);
  Script script;
  for (int i = 0; i < kClients; ++i) {
    (void)s.clients[i]->Start();
    s.SetInput(i);
  }
  std::vector<bool> in(kClients, true);
  for (int r = 0; r < 4; ++r) {
    for (int i = 0; i < kClients; ++i) {
      if (r == 2 && i == kClients - 1 && last_drops) in[i] = false;
      Wrapper m;
      if (in[i]) {
        if (s.out[i].empty()) throw std::runtime_error("a client has nothing to say");
        m = s.out[i].front();
        s.out[i].pop_front();
        if (!s.Deliver(i, m).ok()) throw std::runtime_error("the server refuses a message");
      }
      script.round[r].push_back(m);
    }
    if (!s.server->ProceedToNextRound().ok()) throw std::runtime_error("the server does not proceed");
    for (int i = 0; i < kClients; ++i)
      if (in[i]) s.Pump(i);
  }
  script.sum = s.Sum(in);
  return script;
}
const Script& Written(bool last_drops) {
  static const Script all = Write(false), drop = Write(true);
  return last_drops ? drop : all;
}

class Quiet : public SendToClientsInterface {
 public:
  void Send(uint32_t, const ServerToClientWrapperMessage&) override {}
};
bool Logged(int code) {
  for (int c : sched::Logged())
    if (c == code) return true;
  return false;
}

void OneSession(Ctx& ctx, bool aborting) {
  bool drops = ctx.Flip("the last client drops out");
  const Script& script = Written(drops);
  int threads = 1 + ctx.Choose(2, "threads");
  bool async = aborting || ctx.Flip("inputs are added in the background");
  // The quick tier leaves out what differs least from the rest.
  if (!ctx.thorough() && (aborting ? threads == 2 || drops : (drops || !async) == (threads == 2))) return;
  int inputs = drops ? kClients - 1 : kClients;
  // Aborted: after an input, when the unmasking has begun, or once its end is awaited.
  int abort_at = aborting ? ctx.Choose(inputs + 2, "abort") : -1;
  bool gone = aborting && ctx.Flip("the server is gone after the abort");
  sched::Run(ctx, [&] {
    auto par = fcp::CreateThreadPoolScheduler(threads);
    auto seq = fcp::CreateThreadPoolScheduler(1);
    sched::UntilQuiet();
    Quiet sender;
    fcp::SimulatedClock clock;
    SecureAggregationRequirements r;
    r.set_adversary_class(AdversaryClass::NONE);
    r.set_estimated_dropout_rate(0.99);
    std::vector<std::string> on = {kFullgraphSecAggExperiment};
    if (async) on.push_back(kSecAggAsyncRound2Experiment);
    auto server = SecAggServer::Create(2, kClients, Specs(0), &sender, nullptr,
                                       std::make_unique<SecAggScheduler>(par.get(), seq.get(), &clock),
                                       std::make_unique<Experiments>(on), r)
                      .value();
    auto deliver = [&](int round, int i) {
      auto ready = server->ReceiveMessage(i, std::make_unique<Wrapper>(script.round[round][i]));
      ctx.Check(ready.ok(), "a message is refused");
    };
    auto proceed = [&] { ctx.Check(server->ProceedToNextRound().ok(), "the server does not proceed"); };
    auto abort = [&](int at) {
      if (at != abort_at) return false;
      auto now = [&] {
        ctx.Check(server->Abort().ok(), "the session cannot be aborted");
        ctx.Check(server->IsAborted(), "the session is not aborted");
        if (gone) server.reset();
        sched::Log(kAborted);
      };
      if (at < inputs) {
        now();
      } else {
        // Where the end of the unmasking is announced (see known_findings.txt).
        seq->Schedule(now);
        sched::Until([] { return Logged(kAborted); }, "aborted");
      }
      return true;
    };
    auto session = [&] {
      for (int round = 0; round < 2; ++round) {
        for (int i = 0; i < kClients; ++i) deliver(round, i);
        proceed();
      }
      for (int i = 0; i < inputs; ++i) {
        deliver(2, i);
        if (abort(i)) return;
      }
      if (server->SetAsyncCallback([] { sched::Log(kSummed); })) {
        ctx.Check(async, "there is work in the background");
        sched::Until([] { return Logged(kSummed); }, "inputs added");
      } else {
        ctx.Check(!async, "there is no work in the background");
      }
      ctx.Check(server->ReadyForNextRound().value(), "not ready although all inputs were added");
      ctx.Eq(server->NumberOfIncludedInputs(), inputs, "inputs");
      proceed();
      for (int i = 0; i < inputs; ++i) deliver(3, i);
      proceed();
      if (abort(inputs)) return;
      ctx.Check(server->SetAsyncCallback([] { sched::Log(kUnmasked); }), "the end of the unmasking cannot be awaited");
      if (abort_at == inputs + 1) {
        // Too late only when the unmasking was already over.
        sched::Point("unmasking");
        seq->Schedule([&] {
          if (!Logged(kUnmasked)) {
            ctx.Check(server->Abort().ok(), "the session cannot be aborted");
            if (gone) server.reset();
          }
          sched::Log(kAborted);
        });
        sched::Until([] { return Logged(kAborted); }, "aborted");
        return;
      }
      sched::Until([] { return Logged(kUnmasked); }, "unmasked");
      ctx.Check(server->ReadyForNextRound().value(), "not ready although unmasked");
      proceed();
      ctx.Check(server->IsCompletedSuccessfully(), "the session does not complete");
      auto result = server->Result();
      ctx.Check(result.ok(), "no result");
      ctx.Check(ToPlain(**result) == script.sum, "the result is not the sum of the inputs");
    };
    session();
    par->WaitUntilIdle();
    seq->WaitUntilIdle();
    if (aborting && !gone && abort_at <= inputs) ctx.Check(server->IsAborted(), "an aborted session is no longer aborted");
    server.reset();
    par.reset();
    seq.reset();
  });
  std::string o;
  for (int c : sched::Logged()) o += std::to_string(c);
  ctx.Outcome(o);
}

// Every input arrives in the sum, whatever runs when.
MC_SCENARIO(session_sum, {.bound = 2, .bound_thorough = 3}) { OneSession(ctx, false); }

// An abort at any moment of the background work.
MC_SCENARIO(session_abort, {.bound = 2, .bound_thorough = 3}) { OneSession(ctx, true); }
}  // namespace
static int init = (
    mc::Rule("A server with 3 clients (all, or all but one sending an input), inputs added at once or "
             "in the background, unmasking in the background, on a pool of 1-2 threads and a sequential "
             "one; aborted nowhere, after any input, or during the unmasking; every schedule with at most "
             "2 (thorough: 3) deviations."),
    mc::Assumption("The server itself is called from one thread, as its documentation asks."), 0);
