// C48: the examples a computation gets, and what is recorded about them.
#include <map>
#include <set>

#include "common/client_fakes.h"
#include "common/mcsched.h"
#include "common/rand.h"
#include "fcp/client/engine/plan_engine_helpers.h"
#include "fcp/client/example_iterator_query_recorder.h"

using fcp::ExternalDatasetProviderRegistry;
using fcp::client::ExampleIterator;
using fcp::client::engine::ExampleIteratorFactory;
using fcp::client::engine::ExampleIteratorStatus;
using fcp::client::engine::PlanOutcome;
using google::internal::federated::plan::ExampleSelector;
namespace sched = mc::sched;
namespace {
class Stats : public fcp::client::opstats::OpStatsLogger {
 public:
  Stats() : OpStatsLogger(absl::OkStatus()) {}
  void UpdateDatasetStats(const std::string& uri, int n, int64_t bytes) override {
    mc::abslx::MutexLock l(&mu);
    seen.insert(uri + " " + std::to_string(n) + " " + std::to_string(bytes));
  }
  mc::abslx::Mutex mu;
  std::multiset<std::string> seen;
};
struct Source {
  std::string uri;
  bool stats = true;
  absl::Status create;
  std::vector<absl::StatusOr<std::string>> script;
  int created = 0, closed = 0, after_end = 0;
};
// Not thread-safe, as the interface allows.
class Iter : public ExampleIterator {
 public:
  explicit Iter(Source* s) : s_(s) {}
  absl::StatusOr<std::string> Next() override {
    size_t i = at_;
    sched::Point("next");
    at_ = i + 1;
    if (i >= s_->script.size()) {
      if (ended_) ++s_->after_end;
      ended_ = true;
      return absl::OutOfRangeError("end");
    }
    return s_->script[i];
  }
  void Close() override { ++s_->closed; }
  Source* s_;
  size_t at_ = 0;
  bool ended_ = false;
};
class Factory : public ExampleIteratorFactory {
 public:
  explicit Factory(Source* s) : s_(s) {}
  bool CanHandle(const ExampleSelector& sel) override { return sel.collection_uri() == s_->uri; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& sel) override {
    ++s_->created;
    if (!s_->create.ok()) return s_->create;
    return std::make_unique<Iter>(s_);
  }
  bool ShouldCollectStats() override { return s_->stats; }
  Source* s_;
};
struct World {
  std::vector<std::unique_ptr<Factory>> own;
  std::vector<ExampleIteratorFactory*> factories;
  Stats stats;
  mc::atomic<int> count{0};
  mc::atomic<int64_t> bytes{0};
  ExampleIteratorStatus status;
  absl::flat_hash_map<std::string, std::string> inputs;
  void Add(Source* s) {
    own.push_back(std::make_unique<Factory>(s));
    factories.push_back(own.back().get());
  }
};
std::string Selector(const std::string& uri, const std::string& criteria) {
  ExampleSelector s;
  s.set_collection_uri(uri);
  s.mutable_criteria()->set_value(criteria);
  return s.SerializeAsString();
}
const std::vector<absl::Status> kErrors = {absl::CancelledError("interrupted"), absl::InvalidArgumentError("I/O")};
}  // namespace

// Every script of a source, read by one thread.
MC_SCENARIO(scripts, {.bound = 0, .bound_thorough = 0}) {
  Source s{"app:/a"}, other{"app:/b"}, shadowed{"app:/a"};
  s.stats = ctx.Flip("counted");
  int n = ctx.Choose(ctx.thorough() ? 6 : 5, "examples");
  for (int i = 0; i < n; ++i) {
    switch (ctx.Choose(5, "example")) {
      case 0: s.script.push_back(std::string("e") + std::to_string(i)); break;
      case 1: s.script.push_back(std::string("")); break;
      case 2: s.script.push_back(kErrors[0]); break;
      case 3: s.script.push_back(kErrors[1]); break;
      case 4:
        s.script.push_back(absl::OutOfRangeError("end"));
        break;
    }
  }
  bool recorded = ctx.Flip("recorded");
  sched::Run(ctx, [&] {
    World w;
    w.Add(&other);
    w.Add(&s);
    w.Add(&shadowed);
    fcp::client::SelectorContext context;
    context.mutable_computation_properties()->set_session_name("session");
    fcp::client::ExampleIteratorQueryRecorderImpl recorder(context);
    int64_t count = 0, bytes = 0;
    absl::Status error;
    {
      auto reg = fcp::client::engine::AddDatasetTokenToInputsForTfLite(w.factories, &w.stats, recorded ? &recorder : nullptr, &w.inputs, "token", &w.count, &w.bytes, &w.status);
      ctx.Eq((int)w.inputs.size(), 1, "inputs");
      auto provider = ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(w.inputs["token"]));
      ctx.Check(provider.has_value(), "the provider is not found by its token");
      auto dataset = (*provider)->MakeDataset(Selector("app:/a", "c"));
      ctx.Check(dataset.ok(), "no dataset");
      ctx.Eq(s.created, 0, "queries before they are needed");
      auto it = (*dataset)->MakeIterator();
      bool ended = false;
      size_t at = 0;
      for (int i = 0; i < n + 2; ++i) {
        ctx.Step("get next");
        auto got = it->GetNext();
        absl::StatusOr<std::string> want = absl::OutOfRangeError("");
        if (!ended && at < s.script.size()) want = s.script[at++];
        if (want.ok()) {
          ctx.Check(got.ok(), "no example: " + got.status().ToString());
          ctx.Eq(*got, *want, "example");
          ++count;
          bytes += want->size();
        } else {
          ctx.Eq((int)got.status().code(), (int)want.status().code(), "error");
          if (absl::IsOutOfRange(want.status())) {
            ended = true;
          } else {
            error = want.status();
          }
        }
        ctx.Eq(s.closed, ended ? 1 : 0, "closed");
        ctx.Eq((int)w.count, (int)(s.stats ? count : 0), "examples so far");
        ctx.Eq((int64_t)w.bytes, s.stats ? bytes : 0, "bytes so far");
        ctx.Eq(w.status.GetStatus().ToString(), error.ToString(), "error so far");
      }
      ctx.Check(w.stats.seen.empty(), "recorded early");
    }
    ctx.Check(!ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(w.inputs["token"])).has_value(), "the provider is still registered");
    std::multiset<std::string> want_stats;
    if (s.stats) want_stats.insert("app:/a " + std::to_string(count) + " " + std::to_string(bytes));
    ctx.Check(w.stats.seen == want_stats, "recorded statistics differ");
    ctx.Eq(s.created, 1, "queries");
    ctx.Eq(other.created + shadowed.created, 0, "queries to other sources");
    ctx.Eq(s.after_end, 0, "reads after the end");
    auto queries = recorder.StopRecordingAndGetQueries();
    ctx.Eq((int)queries.query_size(), recorded ? 1 : 0, "queries recorded");
    if (recorded) {
      ctx.Eq(queries.query(0).collection_uri(), std::string("app:/a"), "source recorded");
      ctx.Eq(queries.query(0).criteria().value(), std::string("c"), "criteria recorded");
      ctx.Eq((int64_t)queries.query(0).example_count(), count, "examples recorded");
      ctx.Eq(queries.selector_context().computation_properties().session_name(), std::string("session"), "context recorded");
    }
    ctx.Eq((int)recorder.StopRecordingAndGetQueries().query_size(), 0, "queries recorded twice");
    ctx.Outcome(std::to_string(count) + error.ToString());
  });
}
// Sources that cannot be used; several queries.
MC_SCENARIO(several, {.bound = 0, .bound_thorough = 0}) {
  Source a{"app:/a"}, b{"app:/b"};
  a.script = {std::string("a0"), std::string("a1")};
  b.script = {std::string("b0")};
  b.stats = false;
  if (ctx.Flip("b fails")) b.create = absl::PermissionDeniedError("closed");
  std::vector<std::string> uris;
  int n = 1 + ctx.Choose(3, "queries");
  for (int i = 0; i < n; ++i) uris.push_back(ctx.Pick(std::vector<std::string>{"app:/a", "app:/b", "app:/nobody"}, "source"));
  int steps = ctx.Choose(4, "reads");
  bool shared = ctx.Flip("one data set, several iterators");
  sched::Run(ctx, [&] {
    World w;
    w.Add(&a);
    w.Add(&b);
    fcp::client::ExampleIteratorQueryRecorderImpl recorder{fcp::client::SelectorContext()};
    std::vector<std::string> want_queries;
    std::multiset<std::string> want_stats;
    int count = 0;
    int64_t bytes = 0;
    std::string error = absl::OkStatus().ToString();
    {
      auto reg = fcp::client::engine::AddDatasetTokenToInputsForTfLite(w.factories, &w.stats, &recorder, &w.inputs, "token", &w.count, &w.bytes, &w.status);
      auto provider = *ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(w.inputs["token"]));
      ctx.Check(!provider->MakeDataset("\xff\xff\xff").ok(), "a data set for something that is not a selector");
      std::vector<std::unique_ptr<fcp::ExternalDataset>> sets;
      std::vector<std::unique_ptr<fcp::ExternalDatasetIterator>> its;
      std::vector<int> at(n);
      for (int i = 0; i < n; ++i) {
        if (!shared || i == 0) {
          sets.push_back(*provider->MakeDataset(Selector(uris[i], "")));
        } else {
          uris[i] = uris[0];
        }
        its.push_back(sets.back()->MakeIterator());
        ctx.Check(its.back() != nullptr, "no iterator");
      }
      for (int i = 0; i < n; ++i) {
        Source* s = uris[i] == "app:/a" ? &a : uris[i] == "app:/b" ? &b : nullptr;
        absl::Status bad = !s ? absl::InternalError("") : s->create;
        if (!bad.ok()) error = std::string(absl::StatusCodeToString(bad.code()));
        ctx.Step();
        int got_n = 0;
        int64_t got_bytes = 0;
        for (int k = 0; k < steps; ++k) {
          auto got = its[i]->GetNext();
          if (!bad.ok()) {
            ctx.Eq((int)got.status().code(), (int)bad.code(), "error of a source that cannot be used");
          } else if (k < (int)s->script.size()) {
            ctx.Check(got.ok() && *got == *s->script[k], "wrong example");
            ++got_n;
            got_bytes += got->size();
          } else {
            ctx.Check(absl::IsOutOfRange(got.status()), "no end");
          }
        }
        if (bad.ok()) {
          want_queries.push_back(uris[i] + " " + std::to_string(got_n));
          if (s->stats) {
            count += got_n;
            bytes += got_bytes;
            want_stats.insert(uris[i] + " " + std::to_string(got_n) + " " + std::to_string(got_bytes));
          }
        }
      }
    }
    ctx.Eq((int)w.count, count, "examples");
    ctx.Eq((int64_t)w.bytes, bytes, "bytes");
    ctx.Check(w.stats.seen == want_stats, "recorded statistics differ");
    std::vector<std::string> got;
    auto queries = recorder.StopRecordingAndGetQueries();
    for (auto& q : queries.query()) got.push_back(q.collection_uri() + " " + std::to_string(q.example_count()));
    ctx.Check(got == want_queries, "recorded queries differ");
    // The last error of any source explains a failed computation.
    auto r = fcp::client::engine::CreateComputationErrorPlanResult(w.status.GetStatus(), absl::UnknownError("tf"));
    if (w.status.GetStatus().ok()) {
      ctx.Eq(error, absl::OkStatus().ToString(), "no error");
      ctx.Check(r.outcome == PlanOutcome::kTensorflowError && r.original_status.message() == "tf", "the computation's own error is lost");
    } else {
      ctx.Eq(std::string(absl::StatusCodeToString(w.status.GetStatus().code())) == error || shared || n > 1, true, "error");
      ctx.Check(r.outcome == PlanOutcome::kExampleIteratorError && r.original_status == w.status.GetStatus(), "the error of the source is lost");
    }
    ctx.Outcome(error);
  });
}
// Several threads read the same iterators.
MC_SCENARIO(threads, {.bound = 5, .bound_thorough = 7}) {
  Source a{"app:/a"}, b{"app:/b"};
  a.script = {std::string("a0"), std::string("a1xx"), std::string("a2")};
  if (ctx.Flip("fails in between")) a.script[1] = kErrors[1];
  b.script = {std::string("b0")};
  bool same = ctx.Flip("same iterator");
  sched::Run(ctx, [&] {
    World w;
    w.Add(&a);
    w.Add(&b);
    fcp::client::ExampleIteratorQueryRecorderImpl recorder{fcp::client::SelectorContext()};
    mc::abslx::Mutex mu;
    std::multiset<std::string> got;
    int errors = 0, ends = 0;
    {
      auto reg = fcp::client::engine::AddDatasetTokenToInputsForTfLite(w.factories, &w.stats, &recorder, &w.inputs, "token", &w.count, &w.bytes, &w.status);
      auto provider = *ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(w.inputs["token"]));
      auto da = *provider->MakeDataset(Selector("app:/a", "x")), db = *provider->MakeDataset(Selector("app:/b", "y"));
      std::unique_ptr<fcp::ExternalDatasetIterator> ia;
      if (same) ia = da->MakeIterator();
      auto read = [&](bool first) {
        std::unique_ptr<fcp::ExternalDatasetIterator> mine;
        fcp::ExternalDatasetIterator* it = ia.get();
        if (!same) {
          mine = (first ? da : db)->MakeIterator();
          it = mine.get();
        }
        for (int i = 0; i < 3; ++i) {
          auto r = it->GetNext();
          mc::abslx::MutexLock l(&mu);
          if (r.ok()) {
            got.insert(*r);
          } else if (absl::IsOutOfRange(r.status())) {
            ++ends;
          } else {
            ++errors;
          }
        }
      };
      mc::thread t([&] { read(true); });
      read(false);
      t.join();
    }
    std::multiset<std::string> want;
    int bad = 0;
    int64_t bytes = 0;
    for (auto* s : {&a, &b}) {
      if (same && s == &b) continue;
      for (auto& e : s->script) {
        if (e.ok()) {
          want.insert(*e);
          bytes += e->size();
        } else {
          ++bad;
        }
      }
    }
    ctx.Check(got == want, "examples were lost or given twice");
    ctx.Eq(errors, bad, "errors");
    ctx.Eq(ends, 6 - bad - (int)want.size(), "ends");
    ctx.Eq((int)w.count, (int)want.size(), "examples counted");
    ctx.Eq((int64_t)w.bytes, bytes, "bytes counted");
    ctx.Eq(w.status.GetStatus().ok(), bad == 0, "no error");
    ctx.Eq(a.closed, same ? 1 : 0, "closed");
    auto queries = recorder.StopRecordingAndGetQueries();
    int total = 0;
    for (auto& q : queries.query()) total += q.example_count();
    ctx.Eq((int)queries.query_size(), same ? 1 : 2, "queries recorded");
    ctx.Eq(total, (int)want.size(), "examples recorded");
    ctx.Outcome(std::to_string(want.size()));
  });
}
// How often the device's conditions are looked at.
MC_SCENARIO(conditions, {.bound = 0, .bound_thorough = 0}) {
  class Env : public fcp::client::SimpleTaskEnvironment {
   public:
    std::string GetBaseDir() override { return ""; }
    std::string GetCacheDir() override { return ""; }
    absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector&) override { return absl::InternalError(""); }
    bool TrainingConditionsSatisfied() override {
      ++looked;
      return good;
    }
    int looked = 0;
    bool good = true;
  } env;
  int64_t period = ctx.Pick(std::vector<int64_t>{0, 1000, 5000}, "period");
  int64_t now = 100000, last = -1;
  for (int i = 0; i < (ctx.thorough() ? 5 : 4); ++i) {
    now += ctx.Pick(std::vector<int64_t>{0, 999, 1000, 5000}, "time passes");
    env.good = ctx.Flip("conditions hold");
    bool look = last < 0 || now - last >= period;
    int before = env.looked;
    ctx.Step();
    bool abort = env.ShouldAbort(absl::FromUnixMillis(now), absl::Milliseconds(period));
    ctx.Eq(env.looked - before, look ? 1 : 0, "looked");
    ctx.Eq(abort, look && !env.good, "aborts");
    if (look) last = now;
    ctx.State(std::to_string(now - last) + (abort ? "a" : ""));
  }
}
static int init = (mc::Rule("examples are passed on once, in order, and counted"), mc::Assumption("after an error other than the end the source is simply asked again"), 0);
