// C32: example-query computations.
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "common/client_fakes.h"
#include "common/mc.h"
#include "fcp/client/engine/example_query_plan_engine.h"
#include "fcp/client/example_iterator_query_recorder.h"
#include "fcp/client/example_query_result.pb.h"

using fcp::client::ExampleIterator;
using fcp::client::ExampleQueryResult;
using fcp::client::engine::ExampleIteratorFactory;
using fcp::client::engine::ExampleQueryPlanEngine;
using fcp::client::engine::PlanOutcome;
using google::internal::federated::plan::ExampleQuerySpec;
using google::internal::federated::plan::ExampleSelector;
using Spec = ExampleQuerySpec::OutputVectorSpec;
namespace {
class Flags : public mc::TestFlags {
 public:
  bool enable_lightweight_client_report_wire_format() const override { return light; }
  bool light = false;
};
class Stats : public fcp::client::opstats::OpStatsLogger {
 public:
  Stats() : OpStatsLogger(absl::OkStatus()) {}
  void UpdateDatasetStats(const std::string& uri, int n, int64_t bytes) override { seen.push_back(uri + " " + std::to_string(n) + " " + std::to_string(bytes)); }
  std::vector<std::string> seen;
};
struct Source {
  std::string uri;
  absl::Status create, next;
  std::string result;
  bool stats = true;
};
class Iter : public ExampleIterator {
 public:
  explicit Iter(Source* s) : s_(s) {}
  absl::StatusOr<std::string> Next() override {
    if (!s_->next.ok()) return s_->next;
    return s_->result;
  }
  void Close() override {}
  Source* s_;
};
class Factory : public ExampleIteratorFactory {
 public:
  explicit Factory(Source* s) : s_(s) {}
  bool CanHandle(const ExampleSelector& sel) override { return sel.collection_uri() == s_->uri; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& sel) override {
    if (!s_->create.ok()) return s_->create;
    return std::make_unique<Iter>(s_);
  }
  bool ShouldCollectStats() override { return s_->stats; }
  Source* s_;
};
// The names used by the two checkpoint formats for the types; "" where the
// format has none.
const char* kFull[] = {"", "i", "l", "b", "f", "d", "N10tensorflow7tstringE", "N10tensorflow7tstringE"};
std::string Light(int type) {
  switch (type) {
    case Spec::INT32: return std::to_string(tensorflow_federated::aggregation::DT_INT32);
    case Spec::INT64: return std::to_string(tensorflow_federated::aggregation::DT_INT64);
    case Spec::FLOAT: return std::to_string(tensorflow_federated::aggregation::DT_FLOAT);
    case Spec::DOUBLE: return std::to_string(tensorflow_federated::aggregation::DT_DOUBLE);
    case Spec::STRING: return std::to_string(tensorflow_federated::aggregation::DT_STRING);
  }
  return "";
}
// Sets n values of the type, different for each seed, and says how they print.
std::string Fill(ExampleQueryResult::VectorData::Values& v, int type, int n, int seed) {
  std::ostringstream os;
  switch (type) {
    case Spec::INT32: v.mutable_int32_values(); break;
    case Spec::INT64: v.mutable_int64_values(); break;
    case Spec::BOOL: v.mutable_bool_values(); break;
    case Spec::FLOAT: v.mutable_float_values(); break;
    case Spec::DOUBLE: v.mutable_double_values(); break;
    case Spec::BYTES: v.mutable_bytes_values(); break;
    case Spec::STRING: v.mutable_string_values(); break;
  }
  for (int i = 0; i < n; ++i) {
    os << '|';
    int k = seed * 3 + i;
    switch (type) {
      case Spec::INT32: {
        int32_t x = k % 2 ? 2147483647 - k : -2147483647 + k;
        v.mutable_int32_values()->add_value(x);
        os << x;
        break;
      }
      case Spec::INT64: {
        int64_t x = k % 2 ? 5000000000 + k : -9000000000000000000 + k;
        v.mutable_int64_values()->add_value(x);
        os << x;
        break;
      }
      case Spec::BOOL:
        v.mutable_bool_values()->add_value(k % 2);
        os << (k % 2);
        break;
      case Spec::FLOAT:
        v.mutable_float_values()->add_value(k + 0.5f);
        os << k + 0.5f;
        break;
      case Spec::DOUBLE:
        v.mutable_double_values()->add_value(-k - 0.25);
        os << -k - 0.25;
        break;
      case Spec::STRING: {
        std::string s = i == 1 ? "" : "value " + std::to_string(k);
        v.mutable_string_values()->add_value(s);
        os << s;
        break;
      }
      case Spec::BYTES: {
        std::string s = i == 1 ? "" : std::string("\0\xff", 2) + std::to_string(k);
        v.mutable_bytes_values()->add_value(s);
        os << s;
        break;
      }
    }
  }
  return os.str();
}
std::string Line(bool light, const std::string& name, int type, int n, const std::string& values) {
  return name + ":" + (light ? Light(type) : kFull[type]) + "[" + std::to_string(n) + "]" + values;
}
std::multiset<std::string> Lines(const std::string& text) {
  std::multiset<std::string> out;
  std::istringstream is(text);
  for (std::string l; std::getline(is, l);) out.insert(l);
  return out;
}
struct Want {
  bool ok = true;
  std::optional<absl::Status> status;
  std::multiset<std::string> lines;
  int64_t count = 0, bytes = 0;
};
void Run(mc::Ctx& ctx, const ExampleQuerySpec& spec, std::vector<Source*> sources, bool light, const Want& want, fcp::client::ExampleIteratorQueryRecorder* recorder = nullptr, Stats* given = nullptr) {
  std::vector<std::unique_ptr<Factory>> own;
  std::vector<ExampleIteratorFactory*> factories;
  for (auto* s : sources) {
    own.push_back(std::make_unique<Factory>(s));
    factories.push_back(own.back().get());
  }
  Flags flags;
  flags.light = light;
  Stats stats;
  std::string path = mc::Scratch() + "/checkpoint";
  std::error_code ec;
  std::filesystem::remove(path, ec);
  ExampleQueryPlanEngine engine(factories, given ? given : &stats, &flags, recorder);
  ctx.Step("run");
  auto r = engine.RunPlan(spec, path);
  bool file = std::filesystem::exists(path);
  ctx.Eq(r.outcome == PlanOutcome::kSuccess, want.ok, "succeeded");
  ctx.Check(!want.ok || r.original_status.ok(), "success with an error");
  if (!want.ok) {
    ctx.Check(r.outcome == PlanOutcome::kExampleIteratorError, "a different outcome");
    ctx.Check(!r.original_status.ok(), "failed without an error");
    if (want.status) ctx.Eq(r.original_status.ToString(), want.status->ToString(), "error");
    ctx.Check(!file, "a checkpoint was written though the computation failed");
    ctx.Check(r.federated_compute_checkpoint.empty(), "a checkpoint was returned though the computation failed");
    ctx.Outcome("error " + r.original_status.ToString());
    return;
  }
  std::string text;
  if (light) {
    ctx.Check(!file, "a file was written as well");
    text = std::string(r.federated_compute_checkpoint);
  } else {
    ctx.Check(r.federated_compute_checkpoint.empty(), "a checkpoint was returned as well");
    ctx.Check(file, "no checkpoint was written");
    std::ifstream f(path, std::ios::binary);
    text.assign(std::istreambuf_iterator<char>(f), {});
  }
  std::string w;
  for (auto& l : want.lines) w += l + "\n";
  ctx.Check(Lines(text) == want.lines, "checkpoint has\n" + text + "instead of\n" + w);
  ctx.Eq((int64_t)r.example_stats.example_count, want.count, "examples");
  ctx.Eq((int64_t)r.example_stats.example_size_bytes, want.bytes, "bytes");
  ctx.Outcome(std::to_string(want.lines.size()) + " tensors");
}
}  // namespace

// Two columns, with every type, length and mismatch.
MC_SCENARIO(columns, {}) {
  bool light = ctx.Flip("lightweight format");
  ExampleQuerySpec spec;
  auto* q = spec.add_example_queries();
  q->mutable_example_selector()->set_collection_uri("app:/a");
  ExampleQueryResult result;
  result.mutable_stats()->set_example_count_for_logs(17);
  Want want;
  want.count = 17;
  int most = ctx.thorough() ? 3 : 2;
  for (int c = 0; c < 2; ++c) {
    std::string vector = "v" + std::to_string(c), output = "o" + std::to_string(c);
    int type = 1 + ctx.Choose(7, "type");
    auto& s = (*q->mutable_output_vector_specs())[output];
    s.set_vector_name(vector);
    s.set_data_type(static_cast<Spec::DataType>(type));
    // 0: as asked, 1-6: other types, 7: without a type, 8: missing
    int how;
    if (c == 0) {
      how = ctx.Choose(9, "what is there");
    } else {
      how = ctx.Pick(std::vector<int>{0, 3, 8}, "what is there");
    }
    int n = ctx.Choose(most + 1, "length");
    if (how == 8) {
      want.ok = false;
      continue;
    }
    auto& v = (*result.mutable_vector_data()->mutable_vectors())[vector];
    int actual = how == 7 ? 0 : (type - 1 + how) % 7 + 1;
    std::string values = Fill(v, actual, n, c);
    if (how) want.ok = false;
    if (light && Light(type).empty()) want.ok = false;
    want.lines.insert(Line(light, output, type, n, values));
  }
  if (ctx.Flip("a column nobody asked for")) Fill((*result.mutable_vector_data()->mutable_vectors())["o0"], Spec::INT64, 1, 5);
  Source s{"app:/a"};
  s.result = result.SerializeAsString();
  want.bytes = s.result.size();
  Run(ctx, spec, {&s}, light, want);
}
// Several queries, each of which may fail in every way.
MC_SCENARIO(queries, {}) {
  bool light = ctx.Flip("lightweight format");
  int n = 1 + ctx.Choose(ctx.thorough() ? 3 : 2, "queries");
  ExampleQuerySpec spec;
  std::vector<Source> sources(n);
  std::vector<Source*> ptrs;
  Want want;
  Stats stats;
  std::vector<std::string> want_stats, want_queries;
  fcp::client::SelectorContext context;
  context.mutable_computation_properties()->set_session_name("session");
  fcp::client::ExampleIteratorQueryRecorderImpl recorder(context);
  bool record = ctx.Flip("recorded");
  Source other{"app:/other"};
  ptrs.push_back(&other);
  for (int i = 0; i < n; ++i) {
    auto* q = spec.add_example_queries();
    std::string uri = "app:/" + std::to_string(i);
    q->mutable_example_selector()->set_collection_uri(uri);
    q->mutable_example_selector()->mutable_criteria()->set_value("c" + std::to_string(i));
    Source& s = sources[i];
    s.uri = uri;
    s.stats = ctx.Flip("counted");
    ExampleQueryResult result;
    // Every query has a column of the same name.
    (*q->mutable_output_vector_specs())["o" + std::to_string(i)].set_vector_name("v");
    (*q->mutable_output_vector_specs())["o" + std::to_string(i)].set_data_type(Spec::INT64);
    std::string values = Fill((*result.mutable_vector_data()->mutable_vectors())["v"], Spec::INT64, i + 1, i);
    result.mutable_stats()->set_example_count_for_logs(i + 3);
    std::string line = Line(light, "o" + std::to_string(i), Spec::INT64, i + 1, values);
    bool twice = ctx.Flip("the column is used twice");
    if (twice) {
      (*q->mutable_output_vector_specs())["again" + std::to_string(i)] = q->output_vector_specs().at("o" + std::to_string(i));
      want.lines.insert(Line(light, "again" + std::to_string(i), Spec::INT64, i + 1, values));
    }
    s.result = result.SerializeAsString();
    want.lines.insert(line);
    bool reached = want.ok, handled = true;
    switch (ctx.Choose(7, "what happens")) {
      case 0: break;
      case 1:
        if (want.ok) want.status = std::nullopt;
        want.ok = false;
        handled = false;
        break;
      case 2:
        s.create = absl::PermissionDeniedError("closed");
        if (want.ok) want.status = s.create;
        want.ok = false;
        break;
      case 3:
        s.next = absl::CancelledError("interrupted");
        if (want.ok) want.status = s.next;
        want.ok = false;
        break;
      case 4:
        s.next = absl::InvalidArgumentError("I/O");
        if (want.ok) want.status = s.next;
        want.ok = false;
        break;
      case 5:
        s.next = absl::OutOfRangeError("nothing");
        if (want.ok) want.status = s.next;
        want.ok = false;
        break;
      case 6:
        s.result = "\xff\xff\xff";
        want.ok = false;
        break;
    }
    if (handled) ptrs.push_back(&s);
    want.count += i + 3;
    if (s.stats) want.bytes += s.result.size();
    if (reached && handled && s.create.ok()) {
      bool got = s.next.ok();
      if (s.stats) want_stats.push_back(uri + " " + (got ? "1 " + std::to_string(s.result.size()) : "0 0"));
      want_queries.push_back(uri + " c" + std::to_string(i) + (got ? " 1" : " 0"));
    }
  }
  Run(ctx, spec, ptrs, light, want, record ? &recorder : nullptr, &stats);
  ctx.Check(stats.seen == want_stats, "recorded dataset statistics differ");
  if (record) {
    auto queries = recorder.StopRecordingAndGetQueries();
    std::vector<std::string> got;
    for (auto& q : queries.query()) got.push_back(q.collection_uri() + " " + q.criteria().value() + " " + std::to_string(q.example_count()));
    ctx.Check(got == want_queries, "recorded queries differ");
    ctx.Eq(queries.selector_context().computation_properties().session_name(), std::string("session"), "context");
    ctx.Eq((int)recorder.StopRecordingAndGetQueries().query_size(), 0, "queries recorded twice");
  }
}
static int init = (mc::Rule("the checkpoint has exactly the requested outputs"), mc::Assumption("TensorFlow's checkpoint writers keep what they are given (stand-ins write text)"), mc::Assumption("the lightweight format has no booleans and byte strings: asking for them is an error"), 0);
