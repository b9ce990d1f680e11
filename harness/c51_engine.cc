// C51: how a plan's graph is run and how its end is classified
// (TfLitePlanEngine, with the TFLite runtime scripted).
#include <map>
#include <set>

#include "common/client_fakes.h"
#include "common/mc.h"
#include "fcp/client/engine/plan_engine_helpers.h"
#include "fcp/client/engine/tflite_plan_engine.cc"

using fcp::ExternalDatasetProviderRegistry;
using fcp::client::ExampleIterator;
using fcp::client::InterruptibleRunner;
using fcp::client::LogManager;
using fcp::client::engine::ExampleIteratorFactory;
using fcp::client::engine::OutputTensors;
using fcp::client::engine::PlanOutcome;
using fcp::client::engine::PlanResult;
using fcp::client::engine::TfLiteInterpreterOptions;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::TensorflowSpec;
namespace {
const absl::StatusCode kCodes[] = {absl::StatusCode::kOk,          absl::StatusCode::kOutOfRange, absl::StatusCode::kCancelled,
                                   absl::StatusCode::kUnavailable, absl::StatusCode::kInternal,   absl::StatusCode::kInvalidArgument};
class Stats : public fcp::client::opstats::OpStatsLogger {
 public:
  Stats() : OpStatsLogger(absl::OkStatus()) {}
  void UpdateDatasetStats(const std::string& uri, int n, int64_t bytes) override {
    seen += uri + " " + std::to_string(n) + " " + std::to_string(bytes) + "\n";
  }
  std::string seen;
};
struct Script {
  // the two sources the graph reads from, and how the runtime ends
  struct Source {
    bool used = false;
    int create = 0, examples = 0, end = 1;  // indices into kCodes
  } sources[2];
  int ending = 0;  // 0 success, 1 interrupted, 2 failed
  int runs = 0;
  std::string seen, read;
  fcp::RandomToken token = fcp::RandomToken::FromBytes(std::string(16, 0));
  std::function<bool()> should_abort;
};
Script* g;
class Iter : public ExampleIterator {
 public:
  Iter(const Script::Source& s, std::string uri) : s_(s), uri_(uri) {}
  absl::StatusOr<std::string> Next() override {
    if (at_ < s_.examples) return uri_ + std::string(++at_, '*');
    return absl::Status(kCodes[s_.end], "end of " + uri_);
  }
  void Close() override {}
  const Script::Source& s_;
  std::string uri_;
  int at_ = 0;
};
class Factory : public ExampleIteratorFactory {
 public:
  explicit Factory(int i) : i_(i), uri_(i ? "app:/two" : "app:/one") {}
  bool CanHandle(const ExampleSelector& sel) override { return sel.collection_uri() == uri_; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector&) override {
    auto& s = g->sources[i_];
    if (s.create) return absl::Status(kCodes[s.create], "refused " + uri_);
    return std::make_unique<Iter>(s, uri_);
  }
  bool ShouldCollectStats() override { return true; }
  int i_;
  std::string uri_;
};
class EngineFlags : public mc::TestFlags {
 public:
  bool ensure_dynamic_tensors_are_released() const override { return bits & 1; }
  int32_t large_tensor_threshold_for_dynamic_allocation() const override { return 777; }
  bool disable_tflite_delegate_clustering() const override { return bits & 2; }
  bool tflite_use_builtin_op_resolver_with_default_delegates() const override { return bits & 4; }
  int32_t num_threads_for_tflite() const override { return 5; }
  int bits = 0;
};
// What is read of the sources, and what happened to the reading.
void Read() {
  auto provider = ExternalDatasetProviderRegistry::TryLookup(g->token);
  if (!provider.has_value()) {
    g->read += "no provider\n";
    return;
  }
  for (int i = 0; i < 2; ++i) {
    if (!g->sources[i].used) continue;
    ExampleSelector sel;
    sel.set_collection_uri(i ? "app:/two" : "app:/one");
    auto set = (*provider)->MakeDataset(sel.SerializeAsString());
    if (!set.ok()) {
      g->read += "no data set\n";
      continue;
    }
    auto it = (*set)->MakeIterator();
    for (;;) {
      auto x = it->GetNext();
      g->read += (x.ok() ? *x : absl::StatusCodeToString(x.status().code())) + "\n";
      if (!x.ok()) break;
    }
  }
}
std::string Bits(int n, int bits, const char* const* names) {
  std::string s;
  for (int i = 0; i < n; ++i)
    if (bits >> i & 1) s += std::string(names[i]) + " ";
  return s;
}
const char* const kIn[] = {"a", "b", "c"};
const char* const kOut[] = {"o", "p", "q"};

struct Request {
  int in = 1, spec_in = 1, out = 1, spec_out = 1, constants = 0, flags = 0;
};
void Decide(mc::Ctx& ctx, const Request& q, Script& s) {
  g = &s;
  mc::RecLog log;
  EngineFlags flags;
  flags.bits = q.flags;
  Stats stats;
  Factory one(0), two(1);
  TensorflowSpec spec;
  spec.set_dataset_token_tensor_name("token");
  auto inputs = std::make_unique<absl::flat_hash_map<std::string, std::string>>();
  std::map<std::string, std::string> want_in;
  for (int i = 0; i < 3; ++i) {
    if (q.in >> i & 1) (*inputs)[kIn[i]] = want_in[kIn[i]] = std::string("value of ") + kIn[i];
    if (q.spec_in >> i & 1) spec.add_input_tensor_specs()->set_name(kIn[i]);
    if (q.spec_out >> i & 1) spec.add_output_tensor_specs()->set_name(kOut[i]);
  }
  std::vector<std::string> outputs;
  for (int i = 2; i >= 0; --i)
    if (q.out >> i & 1) outputs.push_back(kOut[i]);
  // 1, 2: that many constants; 3: a constant that is not text; 4: one of each
  for (int i = 0; i < 2; ++i) {
    if (q.constants <= i) continue;
    auto& t = (*spec.mutable_constant_inputs())[i ? "k2" : "k1"];
    if (q.constants < 3 || (q.constants == 4 && i == 0)) {
      t.set_dtype(tensorflow::DT_STRING);
      t.add_string_val(std::string("constant\0", 9) + char('1' + i));
      want_in[i ? "k2" : "k1"] = t.string_val(0);
    } else {
      t.set_dtype(tensorflow::DT_INT32);
    }
  }
  InterruptibleRunner::TimingConfig timing = {absl::Seconds(3), absl::Seconds(4), absl::Seconds(5)};
  bool abort = false;
  fcp::client::engine::TfLitePlanEngine engine({&one, &two}, [&abort] { return abort; }, &log, &stats, &flags, nullptr, &timing);
  PlanResult r = engine.RunPlan(spec, std::string("the\0graph", 9), std::move(inputs), outputs);

  bool valid = q.in == q.spec_in && q.out == q.spec_out && q.constants < 3;
  ctx.Steps(1 + s.runs);
  ctx.Eq(s.runs, int(valid), "runs of the graph");
  std::string outcome;
  if (!valid) {
    ctx.Check(r.outcome == PlanOutcome::kInvalidArgument && !r.original_status.ok(), "a plan at odds with its description was not refused");
    outcome = "refused";
  } else {
    std::string want = "the graph in=";
    for (auto& [k, v] : want_in) want += k + ":" + mc::Hex(v) + " ";
    want += "out=";
    for (auto& o : outputs) want += o + " ";
    want += "3s 4s 5s options " + std::to_string(q.flags) + " 777 threads 5";
    ctx.Eq(s.seen, want, "what the graph was run with");
    ctx.Check(!ExternalDatasetProviderRegistry::TryLookup(s.token).has_value(), "the data is offered after the end of the run");
    abort = true;
    ctx.Check(s.should_abort(), "the runtime is not told of an interruption");
    // the data read, and the first thing that went wrong with it
    std::string read;
    int count = 0, bytes = 0, bad = 0;
    for (int i = 0; i < 2; ++i) {
      auto& src = s.sources[i];
      if (!src.used) continue;
      const std::string uri = i ? "app:/two" : "app:/one";
      int code = src.create;
      if (!code) {
        for (int k = 1; k <= src.examples; ++k) {
          read += uri + std::string(k, '*') + "\n";
          ++count;
          bytes += uri.size() + k;
        }
        code = src.end;
      }
      if (src.create)
        read += "no data set\n";
      else
        read += absl::StatusCodeToString(kCodes[code]) + "\n";
      if (code != 1) bad = bad ? bad : code;
    }
    if (s.ending == 0) {
      outcome = "success";
      ctx.Check(r.outcome == PlanOutcome::kSuccess && r.original_status.ok(), "a computation that succeeded is reported otherwise");
      std::string got;
      for (auto& n : r.output_names) got += n + " ";
      for (auto& t : r.output_tensors) got += std::to_string(t.flat<int32_t>()(0)) + " ";
      std::string w;
      for (auto& o : outputs) w += o + " ";
      for (size_t i = 0; i < outputs.size(); ++i) w += std::to_string(100 + i) + " ";
      ctx.Eq(got, w, "outputs");
      ctx.Eq(int(r.example_stats.example_count), count, "examples read");
      ctx.Eq(int(r.example_stats.example_size_bytes), bytes, "bytes read");
    } else if (s.ending == 1) {
      outcome = "interrupted";
      ctx.Check(r.outcome == PlanOutcome::kInterrupted && r.original_status.code() == absl::StatusCode::kCancelled,
                "an interruption is reported otherwise");
    } else if (!bad) {
      outcome = "failed";
      ctx.Check(r.outcome == PlanOutcome::kTensorflowError && r.original_status.message() == "runtime", "a failure is reported otherwise");
    } else {
      // With both sources failing, either explains the failure.
      std::set<int> may;
      for (auto& src : s.sources)
        if (src.used && (src.create || src.end != 1)) may.insert(src.create ? src.create : src.end);
      bool match = false;
      for (int c : may) {
        auto o = kCodes[c] == absl::StatusCode::kCancelled ? PlanOutcome::kInterrupted
                 : kCodes[c] == absl::StatusCode::kOutOfRange ? PlanOutcome::kTensorflowError
                                                              : PlanOutcome::kExampleIteratorError;
        match |= r.outcome == o && (o == PlanOutcome::kTensorflowError || r.original_status.code() == kCodes[c]);
      }
      ctx.Check(match, "a failure to read is reported otherwise: " + r.original_status.ToString());
      outcome = "failed to read";
    }
    auto strip = [](const std::string& x) {  // the data itself, not how its end looks
      std::string o, line;
      for (char c : x) {
        line += c;
        if (c == '\n') {
          if (line.find('*') != std::string::npos) o += line;
          line.clear();
        }
      }
      return o;
    };
    ctx.Eq(strip(s.read), strip(read), "examples the graph could read");
  }
  ctx.Outcome(outcome);
}
}  // namespace
namespace fcp {
namespace client {
namespace engine {
absl::StatusOr<OutputTensors> RunTfLiteModelThreadSafe(const std::string& model, std::function<bool()> should_abort,
                                                       const InterruptibleRunner::TimingConfig& t, LogManager*,
                                                       std::unique_ptr<absl::flat_hash_map<std::string, std::string>> inputs,
                                                       std::vector<std::string> outputs, const TfLiteInterpreterOptions& o,
                                                       int32_t threads) {
  ++g->runs;
  g->should_abort = should_abort;
  std::map<std::string, std::string> in(inputs->begin(), inputs->end());
  if (in.count("token")) g->token = fcp::RandomToken::FromBytes(in["token"]);
  in.erase("token");
  g->seen = (model == std::string("the\0graph", 9) ? "the graph" : "another graph") + std::string(" in=");
  for (auto& [k, v] : in) g->seen += k + ":" + mc::Hex(v) + " ";
  g->seen += "out=";
  for (auto& x : outputs) g->seen += x + " ";
  g->seen += absl::FormatDuration(t.polling_period) + " " + absl::FormatDuration(t.graceful_shutdown_period) + " " +
             absl::FormatDuration(t.extended_shutdown_period) + " options " +
             std::to_string(o.ensure_dynamic_tensors_are_released + 2 * o.disable_delegate_clustering +
                            4 * o.use_builtin_op_resolver_with_default_delegates) +
             " " + std::to_string(o.large_tensor_threshold_for_dynamic_allocation) + " threads " + std::to_string(threads);
  Read();
  if (g->ending == 1) return absl::CancelledError("runtime");
  if (g->ending == 2) return absl::InvalidArgumentError("runtime");
  OutputTensors r;
  r.output_tensor_names = outputs;
  for (size_t i = 0; i < outputs.size(); ++i) {
    tensorflow::TensorShape shape;
    shape.AddDim(1);
    tensorflow::Tensor x(tensorflow::DT_INT32, shape);
    x.flat<int32_t>()(0) = 100 + i;
    r.output_tensors.push_back(x);
  }
  return r;
}
}  // namespace engine
}  // namespace client
}  // namespace fcp
// Plans against their description, constants and options.
MC_SCENARIO(description, {}) {
  Script s;
  Request q;
  q.in = ctx.Choose(8, "inputs");
  q.spec_in = ctx.Choose(8, "described inputs");
  q.out = ctx.Choose(8, "outputs");
  q.spec_out = ctx.Choose(8, "described outputs");
  s.ending = ctx.Choose(3, "ending");
  if (q.in == q.spec_in && q.out == q.spec_out) {
    q.constants = ctx.Choose(5, "constants");
    q.flags = ctx.Choose(8, "options");
  }
  Decide(ctx, q, s);
}
// All courses of reading from up to two sources, and all ends.
MC_SCENARIO(reading, {}) {
  Script s;
  for (auto& src : s.sources) {
    if (!(src.used = ctx.Flip("source"))) continue;
    src.create = ctx.Choose(6, "opening");
    if (src.create) continue;
    src.examples = ctx.Choose(3, "examples");
    src.end = 1 + ctx.Choose(5, "end");
  }
  s.ending = ctx.Choose(3, "ending");
  Decide(ctx, Request(), s);
}
static int init = (mc::Rule("the runtime gets exactly the graph, inputs, constants, data and options of the plan, and the end is classified by "
                            "how the runtime and the sources of examples ended"),
                   mc::Assumption("the TFLite runtime is scripted"), 0);
