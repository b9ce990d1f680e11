// A SecAgg session: the real server and real clients, with every message and
// every background task in the hands of the harness.
#ifndef HARNESS_SECAGG_H_
#define HARNESS_SECAGG_H_
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "common/mc.h"
#include "common/quiet_trace.h"
#include "fcp/base/scheduler.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/server/experiments_names.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"

namespace mcs {
using namespace fcp::secagg;  // NOLINT
typedef unsigned __int128 u128;

// Runs tasks when told to.
class ManualScheduler : public fcp::Scheduler {
 public:
  void Schedule(std::function<void()> task) override { tasks.push_back(std::move(task)); }
  void WaitUntilIdle() override {
    while (!tasks.empty()) Run(0);
  }
  void Run(size_t i) {
    auto t = std::move(tasks[i]);
    tasks.erase(tasks.begin() + i);
    t();
  }
  std::deque<std::function<void()>> tasks;
};
class Experiments : public ExperimentsInterface {
 public:
  explicit Experiments(std::vector<std::string> on) : on_(std::move(on)) {}
  bool IsEnabled(absl::string_view n) override {
    for (auto& s : on_)
      if (s == n) return true;
    return false;
  }

 private:
  std::vector<std::string> on_;
};
class ToServer : public SendToServerInterface {
 public:
  explicit ToServer(std::deque<ClientToServerWrapperMessage>* q) : q_(q) {}
  void Send(ClientToServerWrapperMessage* m) override { q_->push_back(*m); }

 private:
  std::deque<ClientToServerWrapperMessage>* q_;
};
class Listener : public StateTransitionListenerInterface {
 public:
  explicit Listener(std::vector<int>* log = nullptr) : log_(log) {}
  void Transition(ClientState s) override {
    if (log_) log_->push_back((int)s);
  }
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t) override {}

 private:
  std::vector<int>* log_;
};
class ToClients : public SendToClientsInterface {
 public:
  void Send(uint32_t id, const ServerToClientWrapperMessage& m) override {
    if (id >= in.size()) throw std::runtime_error("message to a client that does not exist");
    in[id].push_back(m);
  }
  std::vector<std::deque<ServerToClientWrapperMessage>> in;
};
struct Metrics : public SecAggServerMetricsListener {
  std::vector<int>* outcomes;
  std::vector<std::pair<int, int>>* dropped;
  Metrics(std::vector<int>* o, std::vector<std::pair<int, int>>* d) : outcomes(o), dropped(d) {}
  void ProtocolStarts(ServerVariant) override {}
  void IndividualMessageSizes(ServerToClientWrapperMessage::MessageContentCase, uint64_t) override {}
  void MessageReceivedSizes(ClientToServerWrapperMessage::MessageContentCase, bool, uint64_t) override {}
  void ClientResponseTimes(ClientToServerWrapperMessage::MessageContentCase, uint64_t) override {}
  void RoundTimes(SecAggServerStateKind, bool, uint64_t) override {}
  void PrngExpansionTimes(uint64_t) override {}
  void RoundSurvivingClients(SecAggServerStateKind, uint64_t) override {}
  void RoundCompletionFractions(SecAggServerStateKind, ClientStatus, double) override {}
  void ProtocolOutcomes(SecAggServerOutcome o) override { outcomes->push_back((int)o); }
  void ClientsDropped(ClientStatus s, ClientDropReason r) override { dropped->push_back({(int)s, (int)r}); }
  void ShamirReconstructionTimes(uint64_t) override {}
};

typedef std::map<std::string, std::vector<uint64_t>> Plain;
inline Plain ToPlain(const SecAggVectorMap& m) {
  Plain p;
  for (auto& [k, v] : m) p[k] = v.GetAsUint64Vector();
  return p;
}
inline std::vector<InputVectorSpecification> Specs(int which) {
  std::vector<InputVectorSpecification> s;
  switch (which) {
    case 0: s.emplace_back("a", 4, 32); break;
    case 1:
      s.emplace_back("a", 5, 11);
      s.emplace_back("b", 1, 1ull << 62);
      break;
    case 2:
      s.emplace_back("empty", 0, 7);
      s.emplace_back("bit", 9, 2);
      break;
    case 3: s.emplace_back("long", 1700, 1000003); break;
    case 4: s.emplace_back("big", 3, (1ull << 61) + 1); break;
    case 5: s.emplace_back("odd", 200, 33); break;
  }
  return s;
}
inline Plain Input(const std::vector<InputVectorSpecification>& specs, int client, int pattern) {
  Plain p;
  for (auto& s : specs) {
    auto& v = p[s.name()];
    for (int i = 0; i < s.length(); ++i)
      v.push_back(pattern == 0 ? s.modulus() - 1 : (0x9e3779b97f4a7c15ull * (client * 131 + i + 1) >> 2) % s.modulus());
  }
  return p;
}
inline std::unique_ptr<SecAggVectorMap> ToMap(const Plain& p, const std::vector<InputVectorSpecification>& specs) {
  auto m = std::make_unique<SecAggVectorMap>();
  for (auto& s : specs) m->emplace(s.name(), SecAggVector(p.at(s.name()), s.modulus()));
  return m;
}
inline void AddTo(Plain* sum, const Plain& x, const std::vector<InputVectorSpecification>& specs) {
  for (auto& s : specs) {
    auto& v = (*sum)[s.name()];
    v.resize(s.length());
    for (int i = 0; i < s.length(); ++i) v[i] = (uint64_t)(((u128)v[i] + x.at(s.name())[i]) % s.modulus());
  }
}

struct Options {
  int n = 3, min = 2;
  bool subgraph = false, async = false;
  int specs = 0, pattern = 1;
};
class Session {
 public:
  explicit Session(const Options& o) : opt(o), specs(Specs(o.specs)) {
    mcq::Quiet();
    out.resize(o.n);
    to_clients.in.resize(o.n);
    std::vector<std::string> ex = {o.subgraph ? kForceSubgraphSecAggExperiment : kFullgraphSecAggExperiment};
    if (o.async) ex.push_back(kSecAggAsyncRound2Experiment);
    SecureAggregationRequirements r;
    r.set_adversary_class(AdversaryClass::NONE);
    r.set_estimated_dropout_rate(0.99);
    auto s = SecAggServer::Create(o.min, o.n, specs, &to_clients, std::make_unique<Metrics>(&outcomes, &dropped),
                                  std::make_unique<SecAggScheduler>(&parallel, &sequential, &clock), std::make_unique<Experiments>(ex), r);
    if (!s.ok()) throw std::runtime_error("no server: " + std::string(s.status().message()));
    server = std::move(*s);
    for (int i = 0; i < o.n; ++i) {
      clients.push_back(std::make_unique<SecAggClient>(
          server->NumberOfNeighbors(), server->MinimumSurvivingNeighborsForReconstruction(), specs,
          std::make_unique<CryptoRandPrng>(), std::make_unique<ToServer>(&out[i]), std::make_unique<Listener>(),
          std::make_unique<AesCtrPrngFactory>()));
      inputs.push_back(Input(specs, i, o.pattern));
    }
  }
  ~Session() {
    server.reset();
    parallel.tasks.clear();
    sequential.tasks.clear();
  }
  void SetInput(int i) { (void)clients[i]->SetInput(ToMap(inputs[i], specs)); }
  // Hands client i everything the server sent it.
  void Pump(int i) {
    while (!to_clients.in[i].empty()) {
      auto m = to_clients.in[i].front();
      to_clients.in[i].pop_front();
      (void)clients[i]->ReceiveMessage(m);
    }
  }
  // The next message of client i, if it is of that kind.
  bool Has(int i, ClientToServerWrapperMessage::MessageContentCase k) {
    return !out[i].empty() && out[i].front().message_content_case() == k;
  }
  fcp::StatusOr<bool> Deliver(int i, const ClientToServerWrapperMessage& m) {
    return server->ReceiveMessage(i, std::make_unique<ClientToServerWrapperMessage>(m));
  }
  void RunTasks() {
    while (!parallel.tasks.empty() || !sequential.tasks.empty()) {
      parallel.WaitUntilIdle();
      sequential.WaitUntilIdle();
    }
  }
  Plain Sum(const std::vector<bool>& included) {
    Plain p;
    for (auto& s : specs) p[s.name()].resize(s.length());
    for (int i = 0; i < opt.n; ++i)
      if (included[i]) AddTo(&p, inputs[i], specs);
    return p;
  }
  Options opt;
  std::vector<InputVectorSpecification> specs;
  std::vector<std::deque<ClientToServerWrapperMessage>> out;
  ToClients to_clients;
  ManualScheduler parallel, sequential;
  fcp::SimulatedClock clock;
  std::vector<int> outcomes;
  std::vector<std::pair<int, int>> dropped;
  std::unique_ptr<SecAggServer> server;
  std::vector<std::unique_ptr<SecAggClient>> clients;
  std::vector<Plain> inputs;
};
}  // namespace mcs
#endif
