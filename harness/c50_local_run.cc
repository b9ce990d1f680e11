// C50: local computations (RunLocalComputation), with the plan engine scripted.
#include <fstream>
#include <set>

#define FLW_OWN_ENGINE
#include "common/flworld.h"
#include "fcp/client/lc_runner.h"
#include "fcp/client/opstats/opstats_example_store.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"

namespace {
using fcp::client::engine::ExampleIteratorFactory;
using flw::PlanOutcome;
using flw::PlanResult;
using fcp::client::opstats::OpStatsLogger;
using fcp::client::opstats::PdsBackedOpStatsDb;
constexpr int kBefore = 5, kRun = 70;  // seconds
enum PlanKind { kDir, kResources, kMissing, kDirectory, kGarbled, kEmpty, kNoSpec, kNoRouter, kNoGraph, kPlanKinds };

struct Run {
  std::vector<std::string> calls;
  PlanOutcome outcome = PlanOutcome::kSuccess;
  bool conditions = true, lost = false;  // at the start; while the computation runs
  OpStatsLogger* logger = nullptr;
};
Run* g_run;

class Env : public fcp::client::SimpleTaskEnvironment {
 public:
  std::string GetBaseDir() override { return base; }
  std::string GetCacheDir() override { return base; }
  absl::StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> CreateExampleIterator(const flw::ExampleSelector& s) override {
    g_run->calls.push_back("examples of " + s.collection_uri() + " without context");
    return absl::InternalError("unused");
  }
  absl::StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> CreateExampleIterator(const flw::ExampleSelector& s,
                                                                                      const flw::SelectorContext& c) override {
    auto& p = c.computation_properties();
    auto& l = p.local_compute();
    std::map<std::string, std::string> m(l.input_resource_map().begin(), l.input_resource_map().end());
    std::string text = "examples of " + s.collection_uri() + " " + s.criteria().value() + " for " + p.session_name() + " " +
                       (p.has_local_compute() ? "local" : "other") + " in=" + l.input_dir() + " out=" + l.output_dir();
    for (auto& [k, v] : m) text += " " + k + ":" + v;
    g_run->calls.push_back(text);
    return absl::UnavailableError("no examples");
  }
  bool TrainingConditionsSatisfied() override { return ok; }
  std::string base;
  bool ok = true;
};
class LocalFlags : public mc::TestFlags {
 public:
  bool use_tflite_training() const override { return tflite; }
  bool log_tensorflow_error_messages() const override { return text; }
  bool tflite = true, text = true;
};
Env* g_env;

PlanResult Engine(const std::vector<ExampleIteratorFactory*>& factories, const std::function<bool()>& should_abort,
                  OpStatsLogger* logger, const fcp::client::InterruptibleRunner::TimingConfig& timing,
                  const google::internal::federated::plan::TensorflowSpec& spec, const std::string& model,
                  const absl::flat_hash_map<std::string, std::string>& inputs, const std::vector<std::string>& outputs) {
  Run& run = *g_run;
  std::map<std::string, std::string> in(inputs.begin(), inputs.end());
  std::string text = "run " + model + " " + spec.dataset_token_tensor_name();
  for (auto& [k, v] : in) text += " " + k + "=" + v;
  for (auto& o : outputs) text += " ->" + o;
  run.calls.push_back(text);
  run.calls.push_back("timing " + absl::FormatDuration(timing.polling_period) + " " +
                      absl::FormatDuration(timing.graceful_shutdown_period) + " " +
                      absl::FormatDuration(timing.extended_shutdown_period));
  for (const char* uri : {"app:/c", fcp::client::opstats::kOpStatsCollectionUri}) {
    flw::ExampleSelector sel;
    sel.set_collection_uri(uri);
    if (uri[0] == 'a') sel.mutable_criteria()->set_value("criteria");
    ExampleIteratorFactory* f = nullptr;
    for (auto* x : factories)
      if (!f && x->CanHandle(sel)) f = x;
    if (!f) {
      run.calls.push_back(std::string("nobody has ") + uri);
      continue;
    }
    auto it = f->CreateExampleIterator(sel);
    int n = 0;
    if (it.ok())
      for (auto x = (*it)->Next(); x.ok(); x = (*it)->Next()) n += x->find("earlier") != std::string::npos;
    run.calls.push_back(std::string(uri) + " " + (it.ok() ? std::to_string(n) : "error"));
    if (f->ShouldCollectStats()) logger->UpdateDatasetStats(uri, 2, 20);
  }
  if (should_abort()) run.calls.push_back("interrupted at once");
  mc::AdvanceVirtualTime(absl::Seconds(kRun));
  if (run.lost) g_env->ok = false;
  bool abort = should_abort();
  run.calls.push_back(abort ? "interrupted" : "not interrupted");
  PlanOutcome o = abort ? PlanOutcome::kInterrupted : run.outcome;
  PlanResult r(o, o == PlanOutcome::kSuccess ? absl::OkStatus() : absl::InternalError("engine text"));
  r.example_stats.example_count = 3;
  r.example_stats.example_size_bytes = 30;
  return r;
}
// Writes a plan of the kind, returns where it is.
std::string Plan(int kind) {
  std::string path = mc::Scratch() + "/plan";
  if (kind == kMissing) return path;
  if (kind == kDirectory) return mc::Scratch();
  flw::ClientOnlyPlan plan;
  auto& ph = *plan.mutable_phase();
  if (kind != kNoSpec) ph.mutable_tensorflow_spec()->set_dataset_token_tensor_name("token");
  if (kind != kNoRouter) {
    auto& r = *ph.mutable_local_compute();
    r.set_output_dir_tensor_name("to");
    if (kind == kResources) {
      auto& m = *r.mutable_multiple_input_resources()->mutable_input_resource_tensor_name_map();
      m["a"] = "ta";
      m["b"] = "tb";
      m["d"] = "td";
    } else {
      r.set_input_dir_tensor_name("from");
    }
  }
  if (kind != kNoGraph) plan.set_tflite_graph("graph");
  std::ofstream(path, std::ios::binary) << (kind == kGarbled ? "\xff\xff not a plan" : kind == kEmpty ? "" : plan.SerializeAsString());
  return path;
}
void Decide(mc::Ctx& ctx, bool shape) {
  mc::WipeScratch();
  mc::UseVirtualTime(absl::FromUnixSeconds(1700000000));
  Run run;
  Env env;
  LocalFlags flags;
  mc::RecLog log;
  g_run = &run;
  g_env = &env;
  // What the run is asked to do, and (otherwise) how it goes.
  int kind = shape ? ctx.Choose(kPlanKinds, "plan") : ctx.Choose(2, "plan");
  bool dir = ctx.Flip("input directory"), history = true;
  int given = shape ? ctx.Choose(16, "resources") : 3;
  std::string out = shape && ctx.Flip("no output directory") ? "" : "/out";
  if (shape) {
    flags.tflite = !ctx.Flip("other engine");
    env.ok = run.conditions = !ctx.Flip("conditions");
  }
  int past = 0;
  if (!shape) {
    run.outcome = PlanOutcome(ctx.Choose(5, "outcome"));
    run.lost = ctx.Flip("conditions lost");
    flags.text = !ctx.Flip("no texts");
    flags.phase_stats = !ctx.Flip("no phases");
    flags.polling_ms = ctx.Flip("polling") ? 1000 : 70000;
    flags.grace_ms = 3000;
    flags.extended_ms = 4000;
    history = !ctx.Flip("no history");
    past = history ? ctx.Choose(3, "earlier runs") : 0;
  }
  env.base = mc::Scratch() + (history ? "/dir" : "/file");
  if (!history) std::ofstream(env.base) << "in the way";
  for (int i = 0; i < past; ++i) {
    fcp::client::opstats::OpStatsLoggerImpl l(*PdsBackedOpStatsDb::Create(env.base, absl::Hours(1), log, 1 << 20), &log, &flags,
                                              "earlier", "population");
    l.AddEvent(flw::Ev::EVENT_KIND_CHECKIN_STARTED);
  }
  std::map<std::string, std::string> resources;
  const char* names[] = {"a", "b", "x", "d"};
  for (int i = 0; i < 4; ++i)
    if (given >> i & 1) resources[names[i]] = std::string("/res/") + names[i];
  std::string in = dir ? "/in" : "";
  std::string path = Plan(kind);
  mc::AdvanceVirtualTime(absl::Seconds(kBefore));

  // ---- the reference
  std::vector<std::string> calls, pubs;
  std::vector<int> events, codes;  // codes: the result, -1 any error
  std::string error;
  int64_t ms = 0, examples = 0;
  auto end = [&](const char* what, int event, absl::StatusCode code) {
    pubs.push_back(what);
    events.push_back(event);
    codes = {int(code)};
  };
  bool open = false;  // an end that is not published
  if (!run.conditions) {
    end("TaskNotStarted", flw::Ev::EVENT_KIND_TRAIN_NOT_STARTED, absl::StatusCode::kCancelled);
    error = "?";
  } else {
    pubs.push_back("ComputationStarted");
    events.push_back(flw::Ev::EVENT_KIND_COMPUTATION_STARTED);
    if (kind == kMissing || kind == kDirectory) {
      end("ComputationIOError", flw::Ev::EVENT_KIND_COMPUTATION_ERROR_IO, absl::StatusCode::kInternal);
      error = "?";
      codes = {-1};
    } else if (kind == kGarbled || kind == kEmpty || kind == kNoSpec || kind == kNoRouter ||
               (kind == kResources && dir && flags.tflite)) {
      end("ComputationInvalidArgument", flw::Ev::EVENT_KIND_COMPUTATION_ERROR_INVALID_ARGUMENT, absl::StatusCode::kInvalidArgument);
      error = "?";
    } else if (!flags.tflite || kind == kNoGraph) {
      open = true;
    } else {
      std::map<std::string, std::string> inputs;
      if (kind == kDir) {
        inputs["from"] = in;
      } else {
        for (auto& [k, v] : resources)
          if (k != "x") inputs["t" + k] = v;
      }
      inputs["to"] = out;
      std::string text = "run graph token";
      for (auto& [k, v] : inputs) text += " " + k + "=" + v;
      calls.push_back(text);
      calls.push_back("timing " + absl::FormatDuration(absl::Milliseconds(flags.polling_ms)) + " " +
                      absl::FormatDuration(absl::Milliseconds(flags.grace_ms)) + " " +
                      absl::FormatDuration(absl::Milliseconds(flags.extended_ms)));
      text = "examples of app:/c criteria for session local in=" + in + " out=" + out;
      for (auto& [k, v] : resources) text += " " + k + ":" + v;
      calls.push_back(text);
      calls.push_back("app:/c error");
      calls.push_back("internal:/opstats " + std::to_string(past));
      calls.push_back(run.lost ? "interrupted" : "not interrupted");
      ms = kRun * 1000;
      examples = 3;
      error = "engine text";
      switch (run.lost ? PlanOutcome::kInterrupted : run.outcome) {
        case PlanOutcome::kSuccess:
          end("ComputationCompleted", flw::Ev::EVENT_KIND_COMPUTATION_FINISHED, absl::StatusCode::kOk);
          error = "";
          break;
        case PlanOutcome::kInterrupted:
          end("ComputationInterrupted", flw::Ev::EVENT_KIND_COMPUTATION_CLIENT_INTERRUPTED, absl::StatusCode::kCancelled);
          break;
        case PlanOutcome::kInvalidArgument:
          end("ComputationInvalidArgument", flw::Ev::EVENT_KIND_COMPUTATION_ERROR_INVALID_ARGUMENT, absl::StatusCode::kInternal);
          break;
        case PlanOutcome::kTensorflowError:
          end("ComputationTensorflowError", flw::Ev::EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW, absl::StatusCode::kInternal);
          if (!flags.text) error = "!engine text";
          break;
        case PlanOutcome::kExampleIteratorError:
          end("ComputationExampleIteratorError", flw::Ev::EVENT_KIND_COMPUTATION_ERROR_EXAMPLE_ITERATOR, absl::StatusCode::kInternal);
          break;
      }
    }
  }

  // ---- the run
  std::vector<flw::Pub> seen;
  flw::Publisher pub(&seen);
  absl::Status r = fcp::client::RunLocalComputation(&env, &pub, &log, &flags, "session", path, in, out,
                                                    {resources.begin(), resources.end()});
  ctx.Steps(run.calls.size() + seen.size());
  ctx.Eq(flw::Join(run.calls), flw::Join(calls), "what the engine and the example store were given");
  if (open || codes[0] == -1)
    ctx.Check(!r.ok(), "a computation that cannot run succeeded");
  else
    ctx.Eq(int(r.code()), codes[0], "result");
  std::vector<std::string> got;
  for (auto& p : seen) got.push_back(p.what);
  if (open) got.resize(std::min<size_t>(got.size(), 1));
  ctx.Eq(flw::Join(got), flw::Join(pubs), "published events");
  auto tells = [&](const std::string& text) {
    if (error.empty()) return text.empty();
    if (error == "?") return !text.empty();
    return error[0] == '!' ? text.find(error.substr(1)) == std::string::npos : text.find(error) != std::string::npos;
  };
  if (!open) {
    auto& p = seen.back();
    ctx.Check(tells(p.text), "published text '" + p.text + "' does not tell of '" + error + "'");
    ctx.Eq(p.ms, ms, "published duration");
    ctx.Eq(p.examples, examples, "published examples");
    ctx.Check(p.down == 0 && p.up == 0, "published traffic of a local computation");
  }
  if (history) {
    auto db = PdsBackedOpStatsDb::Create(env.base, absl::Hours(1), log, 1 << 20);
    ctx.Check(db.ok(), "the history is still locked after the run");
    auto h = (*db)->Read();
    ctx.Check(h.ok() && h->opstats_size() == past + 1, "entries in the history");
    for (int i = 0; i < past; ++i) ctx.Eq(h->opstats(i).session_name(), std::string("earlier"), "earlier entry");
    auto& e = h->opstats(past);
    ctx.Check(e.session_name() == "session" && e.population_name().empty(), "entry of the run");
    bool phases = flags.phase_stats && run.conditions;
    ctx.Eq(e.phase_stats_size(), int(phases), "recorded phases");
    std::string have, should, text;
    auto list = [&](const auto& x) {
      for (auto& y : x.events()) have += flw::Ev::EventKind_Name(y.event_type()) + " ";
      std::map<std::string, int64_t> m;
      for (auto& [k, v] : x.dataset_stats()) m[k] = v.num_examples_read();
      for (auto& [k, v] : m) have += k + "=" + std::to_string(v) + " ";
      text = x.error_message();
    };
    for (int x : events) should += flw::Ev::EventKind_Name(flw::Ev::EventKind(x)) + " ";
    if (!calls.empty()) should += "app:/c=2 internal:/opstats=2 ";
    if (phases) {
      ctx.Eq(e.events_size() + int(e.error_message().size()), 0, "recorded outside the phase");
      ctx.Eq(int(e.phase_stats(0).phase()), int(flw::Ph::COMPUTATION), "recorded phase");
      list(e.phase_stats(0));
    } else {
      list(e);
    }
    if (!open) {
      ctx.Eq(have, should, "recorded events and data");
      ctx.Check(tells(text), "recorded text '" + text + "' does not tell of '" + error + "'");
    }
  }
  ctx.Outcome(open ? "no engine" : pubs.back());
  mc::UseRealTime();
}
}  // namespace
namespace fcp {
namespace client {
namespace engine {
// The plan engine itself needs a TensorFlow runtime.
PlanResult TfLitePlanEngine::RunPlan(const google::internal::federated::plan::TensorflowSpec& spec, const std::string& model,
                                     std::unique_ptr<absl::flat_hash_map<std::string, std::string>> inputs,
                                     const std::vector<std::string>& outputs) {
  return Engine(example_iterator_factories_, should_abort_, opstats_logger_, *timing_config_, spec, model, *inputs, outputs);
}
}  // namespace engine
}  // namespace client
}  // namespace fcp
MC_SCENARIO(request, {}) { Decide(ctx, true); }
MC_SCENARIO(course, {}) { Decide(ctx, false); }
static int init =
    (mc::Rule("what the plan engine is given, what the example store is asked, the result, the published events and the entry in "
              "the history are those of a plain reference"),
     mc::Assumption("the plan engine is scripted"), 0);
