// A federated run (RunFederatedComputation) in a scripted world: the server,
// the plan engine, the example store, temporary files and the run history do
// what a script says, advance virtual time and network counters by amounts
// that identify them, and write down what happened to them. A reference says
// what should have happened, should have been published and recorded.
#ifndef VERIF_FLWORLD_H_
#define VERIF_FLWORLD_H_
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "common/client_fakes.h"
#include "common/mc.h"
#include "common/vclock.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "fcp/base/clock.h"
#include "fcp/base/digest.h"
#include "fcp/client/engine/tflite_plan_engine.h"
#include "fcp/client/event_publisher.h"
#include "fcp/client/example_query_result.pb.h"
#include "fcp/client/federated_protocol.h"
#include "fcp/client/federated_select.h"
#include "fcp/client/files.h"
#include "fcp/client/fl_runner.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "fcp/client/phase_logger_impl.h"
#include "fcp/client/simple_task_environment.h"
#include "fcp/protos/plan.pb.h"
namespace flw {
using fcp::client::ExampleStats;
using fcp::client::FederatedProtocol;
using fcp::client::FLRunnerResult;
using fcp::client::NetworkStats;
using fcp::client::SelectorContext;
using fcp::client::engine::PlanOutcome;
using fcp::client::engine::PlanResult;
using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::OpStatsSequence;
using google::internal::federated::plan::ClientOnlyPlan;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::TaskEligibilityInfo;
using Ev = OperationalStats::Event;
using Ph = OperationalStats::PhaseStats;

// ---------------------------------------------------------------- the script
enum Kind {
  kBoth,         // an output checkpoint and a securely aggregated tensor
  kSecAgg,       // securely aggregated tensor only
  kSimple,       // output checkpoint only
  kQuery,        // example query
  kNoRouter,     // TensorFlow plan without description of its outputs
  kNotSecAgg,    // output tensor that is not securely aggregated
  kNothing,      // plan without anything to do
  kNoGraph,      // no graph that could be run
  kQueryNoRouter,
  kQueryNoAgg,   // output of the query without aggregation
  kKinds
};
enum Temp { kTempOk, kTempError, kTempFull, kTempUnopenable };
const absl::StatusCode kErr[] = {absl::StatusCode::kOk, absl::StatusCode::kAborted, absl::StatusCode::kCancelled,
                                 absl::StatusCode::kUnavailable};
inline absl::Status Err(int e, const std::string& text) { return e ? absl::Status(kErr[e], text) : absl::OkStatus(); }
struct Dtype {
  tensorflow::DataType type;
  int bits;  // 0: cannot be aggregated
};
const Dtype kDtypes[] = {{tensorflow::DT_INT32, 31}, {tensorflow::DT_INT8, 7},   {tensorflow::DT_UINT8, 8},
                         {tensorflow::DT_INT16, 15}, {tensorflow::DT_UINT16, 16}, {tensorflow::DT_INT64, 62},
                         {tensorflow::DT_FLOAT, 0}};
struct Task {
  std::string name = "single";
  bool missing = false;  // not assigned (multiple assignment only)
  bool fetch_fails = false;
  bool unreadable = false;
  int kind = kBoth;
  PlanOutcome outcome = PlanOutcome::kSuccess;
  int dtype = 0;
  bool output_lost = false;  // the computation leaves no output checkpoint
  int iter = 0;              // example store: 0 good, 1 refuses, 2 fails when read
  int in = kTempOk, out = kTempOk;
  bool commit = true;
  int report = 0;
  bool cord = false;
  bool secagg_info = false, confidential = false;
  int min_sep = -1;
};
struct Wanted {  // a task of the population
  std::string name;
  int mode;  // 0 unspecified, 1 single, 2 multiple
  bool eligible = true;
};
enum Elig { kDisabled, kEet, kRejected, kEligError };
struct Script {
  bool conditions = true;
  int elig = kDisabled;
  int elig_error = 1;
  bool elig_after = false;
  bool has_spec = true;
  std::vector<Wanted> population;
  bool eet_unreadable = false;
  int eet_in = kTempOk;
  bool history_unreadable = false;
  int eet_plan = 0;  // 0 says who is eligible, 1.. fails in some way
  int multi_error = 0;
  bool multi_after = false;
  std::vector<Task> multi;
  int single_error = 0;  // 4: turned away
  bool single_after = false;
  Task single;
  bool light = false, untie = false, phases = true, record = false, conf_ctx = false;
  bool tf_text = true;
  int comp_id = 0;  // 1 whole plan, 2 criteria of the queries
  bool past = false;  // the history tells of an earlier contribution to each task
};
constexpr int kEetPlans = 8;
const char* const kEetText[] = {"", "engine refuses", "interrupted here", "no tensors", "two elements", "wrong type",
                                "unparsable", "not an eligibility plan"};

// ------------------------------------------------------------- observations
struct Pub {
  std::string what, model, text;
  int64_t down = 0, up = 0, ms = 0, examples = 0;
  std::string Str(bool with_text = true) const {
    return what + "@" + model + " net=" + std::to_string(down) + "/" + std::to_string(up) + " ms=" + std::to_string(ms) +
           " ex=" + std::to_string(examples) + (with_text && !text.empty() ? " '" + text + "'" : "");
  }
};
struct Part {
  int phase = 0;
  std::string task, error;
  std::vector<int> events;
  std::map<std::string, std::pair<int, int64_t>> data;  // examples read, time of the first access in this run
};
struct Seen {
  std::vector<std::string> calls;
  std::vector<Pub> pubs;
  std::string result;
  std::vector<Part> parts;  // [0]: outside all phases
  int entries = 0;
  int64_t down = 0, up = 0, retry_min = -1, min_sep = -1;
  std::string history_after;  // "" unless earlier entries changed
};
inline std::string Join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += x + "\n";
  return s;
}

class World;
inline World* g_world = nullptr;
// amounts (ms, down, up) that identify each activity
struct Cost {
  int64_t ms, down, up;
};
constexpr Cost kEligA{1000, 10, 1}, kEligB{200, 20, 2}, kEligErr{15, 5, 4}, kMultiA{3000, 300, 30}, kMultiB{400, 40, 9},
    kCheckA{50000, 5000, 50}, kCheckB{6000, 600, 6}, kRun{70000, 7000, 70}, kReport{90, 800, 90000}, kEetRun{110, 0, 0};
constexpr int kRunExamples = 3;

inline std::string Ctx(const SelectorContext& c) {
  const auto& p = c.computation_properties();
  std::string s = "[" + p.session_name() + " ";
  if (p.has_eligibility_eval()) s += "eligibility " + p.eligibility_eval().population_name();
  if (p.has_federated()) {
    const auto& f = p.federated();
    s += f.population_name() + "/" + f.task_name() + " id=" + mc::Hex(f.computation_id()).substr(0, 12) + " ";
    if (f.has_simple_aggregation()) s += "simple";
    if (f.has_secure_aggregation())
      s += "secure" + std::to_string(f.secure_aggregation().minimum_clients_in_server_visible_aggregate());
    if (f.has_confidential_aggregation()) s += "confidential";
    s += " last=" + std::to_string(f.historical_context().last_successful_contribution_time().seconds());
    s += " acc=";
    std::map<std::string, int64_t> m;
    for (auto& [k, v] : f.historical_context().collection_first_access_times()) m[k] = v.seconds();
    for (auto& [k, v] : m) s += k + ":" + std::to_string(v) + ",";
  }
  return s + " out=" + std::to_string(p.example_iterator_output_format()) + "]";
}
inline std::string Slurp(const std::string& f) {
  std::ifstream is(f, std::ios::binary);
  std::string s(1000, ' ');
  is.read(s.data(), s.size());
  s.resize(is.gcount());
  return s;
}
inline std::string PlanBytes(const Task& t) {
  if (t.unreadable) return "\xff\xff not a plan";
  ClientOnlyPlan plan;
  auto& ph = *plan.mutable_phase();
  bool tf = t.kind != kQuery && t.kind != kNothing && t.kind != kQueryNoRouter && t.kind != kQueryNoAgg;
  if (tf) {
    auto& spec = *ph.mutable_tensorflow_spec();
    if (t.kind != kNoGraph) plan.set_tflite_graph("graph of " + t.name);
    if (t.kind != kNoRouter) {
      auto& r = *ph.mutable_federated_compute();
      r.set_input_filepath_tensor_name("in");
      if (t.kind != kSecAgg) r.set_output_filepath_tensor_name("out");
      if (t.kind != kSimple) {
        for (const char* n : {"t2", "t1"}) {
          auto& s = *spec.add_output_tensor_specs();
          s.set_name(n);
          s.mutable_shape()->add_dim()->set_size(2);
          if (std::string(n) == "t1") s.mutable_shape()->add_dim()->set_size(1);
          auto& a = (*r.mutable_aggregations())[n];
          if (t.kind == kNotSecAgg && std::string(n) == "t1")
            a.mutable_tf_v1_checkpoint_aggregation();
          else
            a.mutable_secure_aggregation();
        }
      }
    }
  } else if (t.kind != kNothing) {
    auto& q = *ph.mutable_example_query_spec()->add_example_queries();
    q.mutable_example_selector()->set_collection_uri("app:/c");
    q.mutable_example_selector()->mutable_criteria()->set_value("criteria of " + t.name);
    auto& v = (*q.mutable_output_vector_specs())["o"];
    v.set_vector_name("v");
    v.set_data_type(google::internal::federated::plan::ExampleQuerySpec::OutputVectorSpec::INT64);
    if (t.kind != kQueryNoRouter) {
      auto& r = *ph.mutable_federated_example_query();
      if (t.kind != kQueryNoAgg) (*r.mutable_aggregations())["o"].mutable_tf_v1_checkpoint_aggregation();
    }
  }
  if (t.min_sep >= 0) plan.mutable_client_persisted_data()->set_min_sep_policy_index(t.min_sep);
  // (maps in a fixed order: the identity of a computation depends on the bytes)
  std::string bytes;
  {
    google::protobuf::io::StringOutputStream out(&bytes);
    google::protobuf::io::CodedOutputStream coded(&out);
    coded.SetSerializationDeterministic(true);
    plan.SerializeToCodedStream(&coded);
  }
  return bytes;
}
inline std::string Checkpoint(const std::string& task) { return "initial state of " + task; }
// ------------------------------------------------------------------- fakes
class Flags : public mc::TestFlags {
 public:
  explicit Flags(const Script& s) : s_(s) { phase_stats = s.phases; }
  bool use_tflite_training() const override { return true; }
  bool log_tensorflow_error_messages() const override { return s_.tf_text; }
  bool enable_lightweight_client_report_wire_format() const override { return s_.light; }
  bool untie_lw_client_report_format_support_from_requiring_lw_report() const override { return s_.untie; }
  bool enable_native_example_query_recording() const override { return s_.record; }
  bool enable_computation_id() const override { return s_.comp_id == 1; }
  bool enable_lightweight_computation_id() const override { return s_.comp_id == 2; }
  bool confidential_agg_in_selector_context() const override { return s_.conf_ctx; }
  const Script& s_;
};
class Publisher : public fcp::client::EventPublisher {
 public:
  explicit Publisher(std::vector<Pub>* out) : out_(out) {}
  void Add(const char* what, absl::string_view text, const NetworkStats& n, absl::Duration d, const ExampleStats& e) {
    out_->push_back({what, model, std::string(text), n.bytes_downloaded, n.bytes_uploaded, absl::ToInt64Milliseconds(d),
                     e.example_count});
  }
#define P0(X) \
  void Publish##X() override { Add(#X, "", {}, {}, {}); }
#define PN(X) \
  void Publish##X(const NetworkStats& n, absl::Duration d) override { Add(#X, "", n, d, {}); }
#define PT(X) \
  void Publish##X(absl::string_view t) override { Add(#X, t, {}, {}, {}); }
#define PTN(X) \
  void Publish##X(absl::string_view t, const NetworkStats& n, absl::Duration d) override { Add(#X, t, n, d, {}); }
#define PTE(X) \
  void Publish##X(absl::string_view t, const ExampleStats& e, absl::Duration d) override { Add(#X, t, {}, d, e); }
#define PTEN(X) \
  void Publish##X(absl::string_view t, const ExampleStats& e, const NetworkStats& n, absl::Duration d) override { Add(#X, t, n, d, e); }
  P0(EligibilityEvalCheckin) PN(EligibilityEvalPlanUriReceived) PN(EligibilityEvalPlanReceived) PN(EligibilityEvalNotConfigured)
  PN(EligibilityEvalRejected) P0(Checkin) PN(CheckinFinished) P0(Rejected) PT(IoError) PT(TaskNotStarted)
  PT(NonfatalInitializationError) PT(FatalInitializationError) PTN(EligibilityEvalCheckinIoError)
  PTN(EligibilityEvalCheckinClientInterrupted) PTN(EligibilityEvalCheckinServerAborted)
  PTN(EligibilityEvalCheckinErrorInvalidPayload) P0(EligibilityEvalComputationStarted)
  PTE(EligibilityEvalComputationInvalidArgument) PTE(EligibilityEvalComputationIOError)
  PTE(EligibilityEvalComputationExampleIteratorError) PTE(EligibilityEvalComputationTensorflowError)
  PTE(EligibilityEvalComputationInterrupted) PT(EligibilityEvalComputationErrorNonfatal) P0(MultipleTaskAssignmentsStarted)
  PTN(MultipleTaskAssignmentsIOError) PT(MultipleTaskAssignmentsPayloadIOError) PT(MultipleTaskAssignmentsInvalidPayload)
  PTN(MultipleTaskAssignmentsClientInterrupted) PTN(MultipleTaskAssignmentsServerAborted)
  PN(MultipleTaskAssignmentsTurnedAway) PN(MultipleTaskAssignmentsPlanUriReceived)
  PN(MultipleTaskAssignmentsPlanUriPartialReceived) PN(MultipleTaskAssignmentsPartialCompleted)
  PN(MultipleTaskAssignmentsCompleted) PTN(CheckinIoError) PTN(CheckinClientInterrupted) PTN(CheckinServerAborted)
  PTN(CheckinInvalidPayload) PN(Rejected) PN(CheckinPlanUriReceived) PN(CheckinFinishedV2) P0(ComputationStarted)
  PTEN(ComputationInvalidArgument) PTEN(ComputationIOError) PTEN(ComputationExampleIteratorError)
  PTEN(ComputationTensorflowError) PTEN(ComputationInterrupted) P0(ResultUploadStarted) PTN(ResultUploadIOError)
  PTN(ResultUploadClientInterrupted) PTN(ResultUploadServerAborted) PN(ResultUploadCompleted) P0(FailureUploadStarted)
  PTN(FailureUploadIOError) PTN(FailureUploadClientInterrupted) PTN(FailureUploadServerAborted) PN(FailureUploadCompleted)
#undef P0
#undef PN
#undef PT
#undef PTN
#undef PTE
#undef PTEN
  void PublishTensorFlowError(int, absl::string_view t) override { Add("TensorFlowError", t, {}, {}, {}); }
  void PublishExampleSelectorError(int, absl::string_view t) override { Add("ExampleSelectorError", t, {}, {}, {}); }
  void PublishInterruption(const ExampleStats& e, absl::Time) override { Add("Interruption", "", {}, {}, e); }
  void PublishEligibilityEvalComputationCompleted(const ExampleStats& e, absl::Duration d) override {
    Add("EligibilityEvalComputationCompleted", "", {}, d, e);
  }
  void PublishComputationCompleted(const ExampleStats& e, const NetworkStats& n, absl::Duration d) override {
    Add("ComputationCompleted", "", n, d, e);
  }
  void SetModelIdentifier(const std::string& m) override { model = m; }
  fcp::client::SecAggEventPublisher* secagg_event_publisher() override { return nullptr; }
  std::string model;
  std::vector<Pub>* out_;
};

class World : public FederatedProtocol,
              public fcp::client::SimpleTaskEnvironment,
              public fcp::client::Files {
 public:
  World(mc::Ctx& ctx, const Script& s) : ctx_(ctx), s_(s), flags_(s), pub_(&seen.pubs) {
    g_world = this;
    mc::WipeScratch();
    mc::UseVirtualTime(absl::FromUnixSeconds(kStart));
    if (s_.past) {
      auto names = Names();
      for (size_t i = 0; i < names.size(); ++i) {
        auto& e = *history_.add_opstats();
        e.set_session_name("earlier");
        auto& c = *e.add_phase_stats();
        c.set_phase(Ph::COMPUTATION);
        c.set_task_name(names[i]);
        auto& d = (*c.mutable_dataset_stats())["app:/c"];
        d.set_num_examples_read(1);
        d.mutable_first_access_timestamp()->set_seconds(kPast + 10 * i);
        auto& ev = *c.add_events();
        ev.set_event_type(Ev::EVENT_KIND_COMPUTATION_STARTED);
        ev.mutable_timestamp()->set_seconds(kPast + 10 * i + 1);
        auto& u = *e.add_phase_stats();
        u.set_phase(Ph::UPLOAD);
        auto& ue = *u.add_events();
        ue.set_event_type(Ev::EVENT_KIND_RESULT_UPLOAD_STARTED);
        ue.mutable_timestamp()->set_seconds(kPast + 10 * i + 2);
        auto& uf = *u.add_events();
        uf.set_event_type(Ev::EVENT_KIND_RESULT_UPLOAD_FINISHED);
        uf.mutable_timestamp()->set_seconds(kPast + 10 * i + 3);
      }
    }
    before_ = history_;
  }
  ~World() override {
    g_world = nullptr;
    mc::UseRealTime();
  }
  static constexpr int64_t kStart = 1700000000, kPast = 1690000000;
  std::vector<std::string> Names() const {
    std::vector<std::string> v;
    for (auto& t : s_.multi) v.push_back(t.name);
    v.push_back(s_.single.name);
    return v;
  }

  Seen& Run() {
    {
      fcp::client::opstats::OpStatsLoggerImpl logger(std::make_unique<Db>(this), &log_, &flags_, "session", "population");
      logger_ = &logger;
      fcp::client::PhaseLoggerImpl phases(&pub_, &logger, &log_, &flags_);
      fcp::client::InterruptibleRunner::TimingConfig timing{absl::Milliseconds(1), absl::Milliseconds(1), absl::Milliseconds(1)};
      Slices slices(this);
      absl::StatusOr<FLRunnerResult> r = fcp::client::RunFederatedComputation(
          this, phases, &pub_, this, &log_, &logger, &flags_, this, &slices, timing, absl::Now(), "session", "population",
          *fcp::Clock::RealClock());
      if (!r.ok()) {
        seen.result = "error " + r.status().ToString();
      } else {
        seen.result = FLRunnerResult::ContributionResult_Name(r->contribution_result()) + " [";
        for (auto& n : r->contributed_task_names()) seen.result += n + " ";
        seen.result += "] token=" + r->retry_info().retry_token() + " delay=" + std::to_string(r->retry_info().minimum_delay().seconds());
      }
      current_commit_ok_ = true;  // whatever the last attempt to store the entry
    }
    Collect();
    return seen;
  }
  void Collect() {
    int n = before_.opstats_size();
    seen.entries = history_.opstats_size() - n;
    for (int i = 0; i < n && i < history_.opstats_size(); ++i)
      if (history_.opstats(i).SerializeAsString() != before_.opstats(i).SerializeAsString()) seen.history_after = "changed";
    if (seen.entries < 1) return;
    auto& e = history_.opstats(history_.opstats_size() - 1);
    Part top;
    top.task = e.task_name();
    top.error = e.error_message();
    for (auto& x : e.events()) top.events.push_back(x.event_type());
    Data(e, top);
    seen.parts.push_back(top);
    for (auto& p : e.phase_stats()) {
      Part q;
      q.phase = p.phase();
      q.task = p.task_name();
      q.error = p.error_message();
      for (auto& x : p.events()) q.events.push_back(x.event_type());
      Data(p, q);
      seen.parts.push_back(q);
      seen.down += p.bytes_downloaded();
      seen.up += p.bytes_uploaded();
    }
    seen.down = std::max<int64_t>(seen.down, e.chunking_layer_bytes_downloaded());
    seen.up = std::max<int64_t>(seen.up, e.chunking_layer_bytes_uploaded());
    if (e.has_retry_window()) seen.retry_min = e.retry_window().delay_min().seconds();
    if (e.has_min_sep_policy_index()) seen.min_sep = e.min_sep_policy_index();
    seen.result += e.session_name() == "session" && e.population_name() == "population" ? "" : " entry not of this run";
  }
  template <class T>
  static void Data(const T& from, Part& to) {
    for (auto& [uri, d] : from.dataset_stats())
      to.data[uri] = {d.num_examples_read(), d.has_first_access_timestamp()
                                                 ? (d.first_access_timestamp().seconds() - kStart) * 1000 +
                                                       d.first_access_timestamp().nanos() / 1000000
                                                 : -1};
  }
  void Call(std::string s) {
    ctx_.Step(s);
    seen.calls.push_back(std::move(s));
  }
  void Spend(const Cost& c, bool slices = false) {
    mc::AdvanceVirtualTime(absl::Milliseconds(c.ms));
    NetworkStats& n = slices ? slices_net_ : net_;
    n.bytes_downloaded += c.down;
    n.bytes_uploaded += c.up;
    n.network_duration += absl::Milliseconds(c.ms);
    if (!slices) ++interactions_;
  }
  Task& ByName(const std::string& n) {
    for (auto& t : s_.multi)
      if (t.name == n) return t;
    return s_.single;
  }

  // --- storage
  class Db : public fcp::client::opstats::OpStatsDb {
   public:
    explicit Db(World* w) : w_(w) {}
    absl::StatusOr<OpStatsSequence> Read() override {
      if (w_->s_.history_unreadable) return absl::InternalError("history unreadable");
      return w_->history_;
    }
    absl::Status Transform(std::function<void(OpStatsSequence&)> f) override {
      if (!w_->current_commit_ok_) return absl::InternalError("history full");
      f(w_->history_);
      return absl::OkStatus();
    }
    World* w_;
  };

  // --- temporary files
  absl::StatusOr<std::string> CreateTempFile(const std::string& prefix, const std::string& suffix) override {
    int mode = kTempOk;
    if (prefix == "init") {
      // for the eligibility task, else for the assigned task at hand
      mode = eet_pending_ ? s_.eet_in : files_for_.empty() ? kTempOk : ByName(files_for_[next_in_++]).in;
      eet_pending_ = false;
    } else {
      mode = ByName(current_).out;
    }
    if (mode == kTempError) return absl::InvalidArgumentError("no temporary file");
    if (mode == kTempFull) return std::string("/dev/full");
    std::string dir = mc::Scratch() + (mode == kTempUnopenable ? "/missing" : "");
    return dir + "/" + prefix + std::to_string(++temp_) + suffix;
  }

  // --- the environment
  std::string GetBaseDir() override { return mc::Scratch(); }
  std::string GetCacheDir() override { return mc::Scratch(); }
  absl::StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> CreateExampleIterator(const ExampleSelector& s) override {
    return absl::InternalError("no context");
  }
  absl::StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> CreateExampleIterator(const ExampleSelector& s,
                                                                                      const SelectorContext& c) override {
    Call("query " + s.collection_uri() + " " + Ctx(c));
    int iter = c.computation_properties().has_federated() ? ByName(current_).iter : 0;
    if (iter == 1) return absl::InvalidArgumentError("store refuses");
    return std::make_unique<Iter>(iter == 2);
  }
  bool OnTaskCompleted(const fcp::client::TaskResultInfo& i) override {
    std::string s = std::string("task ") + (i.result() ? "contributed" : "not contributed") + " queries=";
    for (auto& q : i.example_iterator_queries().query())
      s += q.collection_uri() + "(" + std::to_string(q.example_count()) + ")" + Ctx(i.example_iterator_queries().selector_context());
    Call(s);
    Done();
    return true;
  }
  bool TrainingConditionsSatisfied() override { return s_.conditions; }
  class Iter : public fcp::client::ExampleIterator {
   public:
    explicit Iter(bool fails) : fails_(fails) {}
    absl::StatusOr<std::string> Next() override {
      if (fails_) return absl::InvalidArgumentError("store fails");
      fcp::client::ExampleQueryResult r;
      for (int64_t x : {5, 6}) (*r.mutable_vector_data()->mutable_vectors())["v"].mutable_int64_values()->add_value(x);
      r.mutable_stats()->set_example_count_for_logs(kRunExamples);
      return r.SerializeAsString();
    }
    void Close() override {}
    bool fails_;
  };

  // --- slices
  class Slices : public fcp::client::FederatedSelectManager {
   public:
    explicit Slices(World* w) : w_(w) {}
    std::unique_ptr<fcp::client::engine::ExampleIteratorFactory> CreateExampleIteratorFactoryForUriTemplate(
        absl::string_view t) override {
      w_->template_ = std::string(t);
      return std::make_unique<fcp::client::engine::FunctionalExampleIteratorFactory>(
          [](const ExampleSelector& s) { return s.collection_uri() == "internal:/slices"; },
          [](const ExampleSelector&, const SelectorContext&) -> absl::StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> {
            return absl::InternalError("unused");
          },
          SelectorContext(), false);
    }
    NetworkStats GetNetworkStats() override { return w_->slices_net_; }
    World* w_;
  };

  // --- the plan engine
  PlanResult Engine(const std::vector<fcp::client::engine::ExampleIteratorFactory*>& factories,
                    fcp::client::ExampleIteratorQueryRecorder* recorder,
                    const google::internal::federated::plan::TensorflowSpec& spec, const std::string& model,
                    absl::flat_hash_map<std::string, std::string>& inputs, const std::vector<std::string>& outputs) {
    if (model == "eligibility graph") return Eet(factories, inputs, outputs);
    Task& t = ByName(current_);
    std::string in = inputs.count("in") ? Slurp(inputs["in"]) : "-";
    std::string names;
    for (auto& o : outputs) names += o + " ";
    Call("run " + model + " in=" + in + " out=" + (inputs.count("out") ? "yes" : "no") + " " + names + "slices=" + template_);
    ExampleSelector sel;
    sel.set_collection_uri("app:/c");
    PlanOutcome outcome = t.outcome;
    for (auto* f : factories)
      if (f->CanHandle(sel)) {
        auto it = f->CreateExampleIterator(sel);
        if (f->ShouldCollectStats()) logger_->UpdateDatasetStats("app:/c", 2, 20);
        if (recorder) recorder->RecordQuery(sel)->Increment();
        break;
      }
    Spend(kRun, true);
    if (outcome != PlanOutcome::kSuccess) {
      PlanResult r(outcome, absl::InternalError("engine text"));
      r.example_stats.example_count = kRunExamples;
      return r;
    }
    PlanResult r(PlanOutcome::kSuccess, absl::OkStatus());
    r.example_stats.example_count = kRunExamples;
    for (auto& o : outputs) {
      r.output_names.push_back(o);
      tensorflow::TensorShape shape;
      shape.AddDim(2);
      tensorflow::Tensor x(kDtypes[t.dtype].type, shape);
      int base = o == "t1" ? 10 : 20;
      switch (kDtypes[t.dtype].type) {
#define FILL(D, T)                     \
  case tensorflow::D:                  \
    x.flat<T>()(0) = base;             \
    x.flat<T>()(1) = base + 1;         \
    break;
        FILL(DT_INT32, int32_t)
        FILL(DT_INT8, int8_t)
        FILL(DT_UINT8, uint8_t)
        FILL(DT_INT16, int16_t)
        FILL(DT_UINT16, uint16_t)
        FILL(DT_INT64, int64_t)
        FILL(DT_FLOAT, float)
#undef FILL
        default: break;
      }
      r.output_tensors.push_back(x);
    }
    if (inputs.count("out") && !t.output_lost) std::ofstream(inputs["out"]) << "update of " << t.name;
    return r;
  }
  PlanResult Eet(const std::vector<fcp::client::engine::ExampleIteratorFactory*>& factories,
                 absl::flat_hash_map<std::string, std::string>& inputs, const std::vector<std::string>& outputs) {
    Call("eligibility run in=" + Slurp(inputs["in"]) + " " + (outputs.empty() ? "" : outputs[0]));
    ExampleSelector sel;
    sel.set_collection_uri("app:/e");
    for (auto* f : factories)
      if (f->CanHandle(sel)) {
        (void)f->CreateExampleIterator(sel);
        if (f->ShouldCollectStats()) logger_->UpdateDatasetStats("app:/e", 3, 30);
        break;
      }
    Spend(kEetRun, true);
    if (s_.eet_plan == 1) return PlanResult(PlanOutcome::kTensorflowError, absl::InternalError(kEetText[1]));
    if (s_.eet_plan == 2) return PlanResult(PlanOutcome::kInterrupted, absl::CancelledError(kEetText[2]));
    PlanResult r(PlanOutcome::kSuccess, absl::OkStatus());
    r.output_names = outputs;
    if (s_.eet_plan == 3) return r;
    TaskEligibilityInfo info;
    info.set_version(1);
    for (auto& w : s_.population) {
      auto& tw = *info.add_task_weights();
      tw.set_task_name(w.name);
      tw.set_weight(w.eligible ? 1 : 0);
    }
    tensorflow::TensorShape shape;
    if (s_.eet_plan == 4) shape.AddDim(2);
    tensorflow::Tensor x(s_.eet_plan == 5 ? tensorflow::DT_INT64 : tensorflow::DT_STRING, shape);
    if (s_.eet_plan != 5) x.flat<tensorflow::tstring>()(0) = s_.eet_plan == 6 ? std::string("\xff\xff") : info.SerializeAsString();
    r.output_tensors.push_back(x);
    return r;
  }

  // --- the server
  PopulationEligibilitySpec Spec() const {
    PopulationEligibilitySpec spec;
    auto& p = *spec.add_eligibility_policies();
    p.set_name("custom");
    p.set_min_version(1);
    p.mutable_tf_custom_policy();
    for (auto& w : s_.population) {
      auto& i = *spec.add_task_info();
      i.set_task_name(w.name);
      i.set_task_assignment_mode(w.mode == 0   ? PopulationEligibilitySpec::TaskInfo::TASK_ASSIGNMENT_MODE_UNSPECIFIED
                                 : w.mode == 1 ? PopulationEligibilitySpec::TaskInfo::TASK_ASSIGNMENT_MODE_SINGLE
                                               : PopulationEligibilitySpec::TaskInfo::TASK_ASSIGNMENT_MODE_MULTIPLE);
      i.add_eligibility_policy_indices(0);
    }
    return spec;
  }
  absl::StatusOr<EligibilityEvalCheckinResult> EligibilityEvalCheckin(
      std::function<void(const EligibilityEvalTask&)> uris) override {
    Call("eligibility");
    Once(&elig_called_);
    Spend(kEligA);
    EligibilityEvalTask t;
    t.execution_id = "eet";
    if (s_.elig == kEligError && !s_.elig_after) return Err(s_.elig_error, "elig text");
    if (s_.elig == kRejected) return EligibilityEvalCheckinResult(Rejection{});
    if (s_.elig == kDisabled) {
      EligibilityEvalDisabled d;
      if (s_.has_spec) d.population_eligibility_spec = Spec();
      return EligibilityEvalCheckinResult(d);
    }
    uris(t);
    Spend(kEligB);
    if (s_.elig == kEligError) return Err(s_.elig_error, "elig text");
    if (s_.eet_unreadable) {
      t.payloads.plan = std::string("\xff\xff");
    } else {
      ClientOnlyPlan plan;
      plan.set_tflite_graph("eligibility graph");
      plan.mutable_phase()->mutable_tensorflow_spec();
      if (s_.eet_plan != 7) {
        auto& r = *plan.mutable_phase()->mutable_federated_compute_eligibility();
        r.set_input_filepath_tensor_name("in");
        r.set_task_eligibility_info_tensor_name("info");
      }
      t.payloads.plan = plan.SerializeAsString();
    }
    t.payloads.checkpoint = absl::Cord(Checkpoint("eet"));
    if (s_.has_spec) t.population_eligibility_spec = Spec();
    eet_pending_ = true;
    return EligibilityEvalCheckinResult(t);
  }
  void ReportEligibilityEvalError(absl::Status e) override {
    Call("eligibility-error " + absl::StatusCodeToString(e.code()));
    Spend(kEligErr);
  }
  TaskAssignment Assignment(const Task& t) {
    TaskAssignment a;
    a.task_name = t.name;
    a.aggregation_session_id = "session of " + t.name;
    a.federated_select_uri_template = "https://slices/" + t.name;
    if (t.secagg_info) a.sec_agg_info = SecAggInfo{10, 7};
    if (t.confidential) a.confidential_agg_info = ConfidentialAggInfo{absl::Cord("policy")};
    return a;
  }
  void Payloads(const Task& t, TaskAssignment& a) {
    if (t.cord) {
      std::string p = PlanBytes(t), c = Checkpoint(t.name);
      absl::Cord pc(p.substr(0, p.size() / 2)), cc(c.substr(0, 3));
      pc.Append(p.substr(p.size() / 2));
      cc.Append(c.substr(3));
      a.payloads.plan = pc;
      a.payloads.checkpoint = cc;
    } else {
      a.payloads.plan = PlanBytes(t);
      a.payloads.checkpoint = Checkpoint(t.name);
    }
    if (!t.unreadable && !IsQuery(t)) files_for_.push_back(t.name);
  }
  static bool IsQuery(const Task& t) { return t.kind == kQuery || t.kind == kQueryNoRouter || t.kind == kQueryNoAgg; }
  absl::StatusOr<CheckinResult> Checkin(const std::optional<TaskEligibilityInfo>& info,
                                        std::function<void(const TaskAssignment&)> uris) override {
    std::string s = "checkin ";
    if (!info.has_value()) {
      s += "without eligibility";
    } else {
      s += "eligible v" + std::to_string(info->version()) + ":";
      std::map<std::string, float> w;
      for (auto& x : info->task_weights()) w[x.task_name()] = x.weight();
      for (auto& [n, x] : w)
        if (x > 0) s += n + "=" + std::to_string(int(x)) + " ";
    }
    Call(s);
    Once(&check_called_);
    // The other side of this interface insists on it.
    ctx_.Check(info.has_value() == (s_.elig == kEet), info.has_value() ? "eligibility was sent without an eligibility task"
                                                                        : "no eligibility was sent after an eligibility task");
    Spend(kCheckA);
    TaskAssignment a = Assignment(s_.single);
    if (s_.single_error == 4) return CheckinResult(Rejection{});
    if (s_.single_error && !s_.single_after) return Err(s_.single_error, "checkin text");
    uris(a);
    Spend(kCheckB);
    if (s_.single_error) return Err(s_.single_error, "checkin text");
    files_for_.clear();
    next_in_ = 0;
    Payloads(s_.single, a);
    current_ = s_.single.name;
    queue_ = {s_.single.name};
    current_commit_ok_ = s_.single.commit;
    return CheckinResult(a);
  }
  absl::StatusOr<MultipleTaskAssignments> PerformMultipleTaskAssignments(const std::vector<std::string>& names,
                                                                         const std::function<void(size_t)>& uris) override {
    std::string s = "assign";
    for (auto& n : names) s += " " + n;
    Call(s);
    Once(&multi_called_);
    Spend(kMultiA);
    if (s_.multi_error && !s_.multi_after) return Err(s_.multi_error, "multi text");
    MultipleTaskAssignments out;
    std::vector<Task> given;
    for (auto& t : s_.multi)
      if (!t.missing && std::find(names.begin(), names.end(), t.name) != names.end()) given.push_back(t);
    if (given.empty() && !s_.multi_error) return out;
    uris(given.size());
    Spend(kMultiB);
    if (s_.multi_error) return Err(s_.multi_error, "multi text");
    for (auto& t : given) {
      if (t.fetch_fails) {
        out.task_assignments.emplace(t.name, absl::InternalError("fetch text " + t.name));
        continue;
      }
      TaskAssignment a = Assignment(t);
      Payloads(t, a);
      out.task_assignments.emplace(t.name, a);
    }
    queue_.clear();
    for (auto& t : given)
      if (!t.fetch_fails && !t.unreadable && (IsQuery(t) || t.in == kTempOk)) queue_.push_back(t.name);
    Advance();
    return out;
  }
  // Which task the runner works on now is known from the reports.
  void Advance() {
    if (queue_.empty()) return;
    current_ = queue_.front();
    current_commit_ok_ = ByName(current_).commit;
  }
  void Done() {
    if (!queue_.empty()) queue_.erase(queue_.begin());
    Advance();
  }
  // The entry of this run must say, in storage, that this upload has begun.
  void CheckStored(int event) {
    std::vector<int> last;
    std::string task;
    if (history_.opstats_size() > before_.opstats_size()) {
      auto& e = history_.opstats(history_.opstats_size() - 1);
      if (s_.phases) {
        if (e.phase_stats_size() >= 2) {
          for (auto& x : e.phase_stats(e.phase_stats_size() - 1).events()) last.push_back(x.event_type());
          task = e.phase_stats(e.phase_stats_size() - 2).task_name();
        }
      } else {
        for (auto& x : e.events()) last.push_back(x.event_type());
        task = e.task_name();
      }
    }
    ctx_.Check(!last.empty() && last.back() == event && task == current_,
               "the start of the upload for " + current_ + " was not stored before the upload");
  }
  static std::string Describe(const fcp::client::ComputationResults& r) {
    std::map<std::string, std::string> m;
    for (auto& [k, v] : r) {
      if (auto* s = std::get_if<std::string>(&v)) m[k] = "file '" + *s + "'";
      if (auto* c = std::get_if<absl::Cord>(&v)) m[k] = "light '" + std::string(*c) + "'";
      if (auto* q = std::get_if<fcp::client::QuantizedTensor>(&v)) {
        std::string t = "tensor";
        for (auto x : q->values) t += " " + std::to_string(x);
        t += " bits " + std::to_string(q->bitwidth) + " dims";
        for (auto x : q->dimensions) t += " " + std::to_string(x);
        m[k] = t;
      }
    }
    std::string s;
    for (auto& [k, v] : m) s += k + "=" + v + ";";
    return s;
  }
  absl::Status ReportCompleted(fcp::client::ComputationResults results, absl::Duration d,
                               std::optional<std::string> session) override {
    CheckStored(Ev::EVENT_KIND_RESULT_UPLOAD_STARTED);
    std::string text = Describe(results);
    for (auto& c : text)
      if (c == '\n') c = ' ';
    Call("upload " + session.value_or("-") + " after " + std::to_string(absl::ToInt64Milliseconds(d)) + " " + text);
    return Report();
  }
  absl::Status ReportNotCompleted(fcp::client::engine::PhaseOutcome o, absl::Duration d,
                                  std::optional<std::string> session) override {
    CheckStored(Ev::EVENT_KIND_FAILURE_UPLOAD_STARTED);
    Call("report failure " + std::to_string(o) + " " + session.value_or("-") + " after " + std::to_string(absl::ToInt64Milliseconds(d)));
    return Report();
  }
  absl::Status Report() {
    Spend(kReport);
    int e = ByName(current_).report;
    return Err(e, "report text");
  }
  google::internal::federatedml::v2::RetryWindow GetLatestRetryWindow() override {
    google::internal::federatedml::v2::RetryWindow w;
    w.set_retry_token("token" + std::to_string(interactions_));
    w.mutable_delay_min()->set_seconds(100 + interactions_);
    return w;
  }
  NetworkStats GetNetworkStats() override { return net_; }
  void Once(bool* b) {
    ctx_.Check(!*b, "the server was asked twice");
    *b = true;
  }

  mc::Ctx& ctx_;
  Script s_;
  Flags flags_;
  mc::RecLog log_;
  fcp::client::opstats::OpStatsLogger* logger_ = nullptr;
  Seen seen;
  Publisher pub_;
  OpStatsSequence history_, before_;
  NetworkStats net_, slices_net_;
  int interactions_ = 0, temp_ = 0;
  size_t next_in_ = 0;
  std::string current_, template_;
  std::vector<std::string> files_for_, queue_;
  bool current_commit_ok_ = true, eet_pending_ = false, elig_called_ = false, check_called_ = false, multi_called_ = false;
};
// ------------------------------------------------------------ the reference
class Model {
 public:
  explicit Model(const Script& s) : s(s) { parts.push_back({}); }
  const Script& s;
  std::vector<std::string> calls;
  std::vector<Pub> pubs;
  std::vector<Part> parts;  // [0] outside phases
  std::string result;
  int64_t down = 0, up = 0, retry_min = 100, min_sep = -1, now = 0;
  std::vector<std::string> contributed;
  size_t expected = 0;

  void Run() {
    Body();
    std::string r = contributed.empty() ? "FAIL" : contributed.size() == expected ? "SUCCESS" : "PARTIAL";
    r += " [";
    for (auto& n : contributed) r += n + " ";
    result = r + "] token=token" + std::to_string(asked_) + " delay=" + std::to_string(100 + asked_);
    retry_min = 100 + asked_;
  }

 private:
  struct Mark {
    int64_t now, down, up;
  };
  int asked_ = 0;
  int64_t first_ = -1;
  int phase_ = 0;  // index into parts while a phase is open
  std::string model_;
  Mark At() const { return {now, down, up}; }
  void Spend(const Cost& c, bool asked = true) {
    now += c.ms;
    down += c.down;
    up += c.up;
    asked_ += asked;
  }
  void Publish(const std::string& what, const std::string& text = "") { pubs.push_back({what, model_, text}); }
  void PublishSince(const std::string& what, const Mark& m, const std::string& text = "", int examples = 0) {
    pubs.push_back({what, model_, text, down - m.down, up - m.up, now - m.now, examples});
  }
  void Open(int phase) {
    if (!s.phases) return;
    parts.push_back({phase});
    phase_ = parts.size() - 1;
  }
  void Close() { phase_ = 0; }
  void Event(int e, const std::string& error = "", const std::string& task = "") {
    Part& p = parts[phase_];
    p.events.push_back(e);
    if (!task.empty()) p.task = task;
    if (!error.empty() && p.error.empty()) p.error = error;
  }
  static std::string Which(int e, const char* aborted, const char* interrupted, const char* other) {
    return e == 1 ? aborted : e == 2 ? interrupted : other;
  }
  static int Which(int e, int aborted, int interrupted, int other) { return e == 1 ? aborted : e == 2 ? interrupted : other; }

  void Body() {
    if (!s.conditions) {
      Publish("TaskNotStarted", "conditions");
      Event(Ev::EVENT_KIND_TRAIN_NOT_STARTED, "conditions");
      return;
    }
    // --- eligibility
    Mark start = At();
    Publish("EligibilityEvalCheckin");
    Open(Ph::ELIGIBILITY_EVAL_CHECKIN);
    Event(Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED);
    calls.push_back("eligibility");
    Spend(kEligA);
    Mark since = start;
    if (s.elig == kEet || (s.elig == kEligError && s.elig_after)) {
      model_ = "eet";
      PublishSince("EligibilityEvalPlanUriReceived", start);
      Event(Ev::EVENT_KIND_ELIGIBILITY_PLAN_URI_RECEIVED);
      since = At();
      Spend(kEligB, true);
    }
    if (s.elig == kEligError) {
      PublishSince("EligibilityEvalCheckin" + Which(s.elig_error, "ServerAborted", "ClientInterrupted", "IoError"), since, "elig text");
      Event(Which(s.elig_error, Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_SERVER_ABORTED,
                  Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_CLIENT_INTERRUPTED, Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_IO),
            "elig text");
      Close();
      return;
    }
    if (s.elig == kRejected) {
      PublishSince("EligibilityEvalRejected", start);
      Event(Ev::EVENT_KIND_ELIGIBILITY_REJECTED);
      Close();
      return;
    }
    std::vector<std::string> several;
    bool single = !s.has_spec;
    std::string info = "without eligibility";
    if (s.elig == kDisabled) {
      PublishSince("EligibilityEvalNotConfigured", start);
      Event(Ev::EVENT_KIND_ELIGIBILITY_DISABLED);
      Close();
      if (s.has_spec)
        for (auto& w : s.population) (w.mode == 2 ? (several.push_back(w.name), 0) : (single = true, 0));
    } else {
      if (s.eet_unreadable) {
        PublishSince("EligibilityEvalCheckinErrorInvalidPayload", since, "parse");
        Event(Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_INVALID_PAYLOAD, "parse");
        Close();
        EligibilityError("INTERNAL");
        return;
      }
      if (s.eet_in != kTempOk) {
        std::string text = s.eet_in == kTempError ? "no temporary file" : "write";
        PublishSince("EligibilityEvalCheckinIoError", since, text);
        Event(Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_IO, text);
        Close();
        EligibilityError("INTERNAL");
        return;
      }
      Event(Ev::EVENT_KIND_ELIGIBILITY_ENABLED);
      Close();
      PublishSince("EligibilityEvalPlanReceived", since);
      Mark begun = At();
      Publish("EligibilityEvalComputationStarted");
      Open(Ph::ELIGIBILITY_COMPUTATION);
      Event(Ev::EVENT_KIND_ELIGIBILITY_COMPUTATION_STARTED);
      bool all_out = false;
      if (s.has_spec) {
        if (s.history_unreadable) {
          PublishSince("EligibilityEvalComputationIOError", begun, "history unreadable");
          Event(Ev::EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_IO, "history unreadable");
          Close();
          EligibilityError("INTERNAL");
          return;
        }
        if (!s.population.empty()) {
          if (s.eet_plan != 7) {
            calls.push_back("eligibility run in=" + Checkpoint("eet") + " info");
            calls.push_back("query app:/e [session eligibility population out=0]");
            parts[phase_].data["app:/e"] = {3, -1};
            Spend(kEetRun, false);
          }
          if (s.eet_plan) {
            all_out = true;
            // (which words describe a bad output is not fixed)
            Publish("EligibilityEvalComputationErrorNonfatal", s.eet_plan <= 2 ? kEetText[s.eet_plan] : "");
          }
        }
      } else {
        all_out = true;
      }
      PublishSince("EligibilityEvalComputationCompleted", begun);
      Event(Ev::EVENT_KIND_ELIGIBILITY_COMPUTATION_FINISHED);
      Close();
      info = "eligible v1:";
      std::map<std::string, bool> ok;
      if (s.has_spec)
        for (auto& w : s.population) {
          if (w.mode != 2) single = true;
          if (!w.eligible || all_out) continue;
          if (w.mode == 2)
            several.push_back(w.name);
          else
            ok[w.name] = true;
        }
      for (auto& [n, x] : ok) info += n + "=1 ";
    }
    // --- several tasks
    if (!several.empty()) {
      expected += several.size();
      Several(several);
    }
    if (single) {
      ++expected;
      Single(info);
    }
  }
  void EligibilityError(const std::string& code) {
    calls.push_back("eligibility-error " + code);
    Spend(kEligErr);
  }
  void Several(const std::vector<std::string>& names) {
    model_ = "";
    Mark start = At(), since = start;
    Publish("MultipleTaskAssignmentsStarted");
    Open(Ph::MULTIPLE_TASK_ASSIGNMENTS);
    Event(Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_STARTED);
    std::string c = "assign";
    for (auto& n : names) c += " " + n;
    calls.push_back(c);
    Spend(kMultiA);
    std::vector<const Task*> given;
    for (auto& t : s.multi)
      if (!t.missing && std::find(names.begin(), names.end(), t.name) != names.end()) given.push_back(&t);
    if (s.multi_error ? s.multi_after : !given.empty()) {
      bool part = given.size() < names.size();
      PublishSince(part ? "MultipleTaskAssignmentsPlanUriPartialReceived" : "MultipleTaskAssignmentsPlanUriReceived", start);
      Event(part ? Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_PARTIAL_RECEIVED
                 : Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_RECEIVED);
      since = At();
      Spend(kMultiB);
    }
    if (s.multi_error) {
      PublishSince("MultipleTaskAssignments" + Which(s.multi_error, "ServerAborted", "ClientInterrupted", "IOError"), since, "multi text");
      Event(Which(s.multi_error, Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_SERVER_ABORTED,
                  Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_CLIENT_INTERRUPTED, Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_IO),
            "multi text");
      Close();
      return;
    }
    if (given.empty()) {
      PublishSince("MultipleTaskAssignmentsTurnedAway", start);
      Event(Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_REJECTED);
      Close();
      return;
    }
    std::vector<const Task*> good;
    for (auto* t : given) {
      model_ = t->name;
      if (t->fetch_fails || (!t->unreadable && !World::IsQuery(*t) && t->in != kTempOk)) {
        std::string text = t->fetch_fails ? "fetch text " + t->name : t->in == kTempError ? "no temporary file" : "write";
        Publish("MultipleTaskAssignmentsPayloadIOError", text);
        Event(Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_PAYLOAD_IO, text);
      } else if (t->unreadable) {
        Publish("MultipleTaskAssignmentsInvalidPayload", "parse");
        Event(Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_INVALID_PAYLOAD, "parse");
      } else {
        good.push_back(t);
      }
      model_ = "";
    }
    bool all = good.size() == given.size();
    PublishSince(all ? "MultipleTaskAssignmentsCompleted" : "MultipleTaskAssignmentsPartialCompleted", since);
    Event(all ? Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_COMPLETED : Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PARTIAL_COMPLETED);
    Close();
    for (auto* t : good) {
      model_ = t->name;
      Compute(*t, "session of " + t->name);
    }
  }
  void Single(const std::string& info) {
    model_ = "";
    const Task& t = s.single;
    Mark start = At(), since = start;
    Publish("Checkin");
    Open(Ph::CHECKIN);
    Event(Ev::EVENT_KIND_CHECKIN_STARTED);
    calls.push_back("checkin " + info);
    Spend(kCheckA);
    if (s.single_error == 4) {
      PublishSince("Rejected", start);
      Event(Ev::EVENT_KIND_CHECKIN_REJECTED);
      Close();
      return;
    }
    if (!s.single_error || s.single_after) {
      model_ = t.name;
      PublishSince("CheckinPlanUriReceived", start);
      Event(Ev::EVENT_KIND_CHECKIN_PLAN_URI_RECEIVED, "", t.name);
      since = At();
      Spend(kCheckB);
    }
    if (s.single_error) {
      PublishSince("Checkin" + Which(s.single_error, "ServerAborted", "ClientInterrupted", "IoError"), since, "checkin text");
      Event(Which(s.single_error, Ev::EVENT_KIND_CHECKIN_SERVER_ABORTED, Ev::EVENT_KIND_CHECKIN_CLIENT_INTERRUPTED,
                  Ev::EVENT_KIND_CHECKIN_ERROR_IO),
            "checkin text");
      Close();
      return;
    }
    if (t.unreadable) {
      PublishSince("CheckinInvalidPayload", since, "parse");
      Event(Ev::EVENT_KIND_CHECKIN_ERROR_INVALID_PAYLOAD, "parse");
      Close();
      return;
    }
    if (!World::IsQuery(t) && t.in != kTempOk) {
      std::string text = t.in == kTempError ? "no temporary file" : "write";
      PublishSince("CheckinIoError", since, text);
      Event(Ev::EVENT_KIND_CHECKIN_ERROR_IO, text);
      Close();
      return;
    }
    PublishSince("CheckinFinishedV2", since);
    Event(Ev::EVENT_KIND_CHECKIN_ACCEPTED);
    if (t.min_sep >= 0) min_sep = t.min_sep;
    Close();
    Compute(t, "-");
  }
  std::string Context(const Task& t, int index) const {
    std::string id;
    if (s.comp_id == 1) id = Sha(PlanBytes(t));
    if (s.comp_id == 2 && World::IsQuery(t)) {
      google::protobuf::Any any;
      any.set_value("criteria of " + t.name);
      id = Sha(any.SerializeAsString());
    }
    std::string agg;
    if (t.confidential && s.conf_ctx)
      agg = "confidential";
    else if (t.kind == kSecAgg)
      agg = "secure" + std::to_string(t.secagg_info ? 7 : 0);
    else
      agg = "simple";
    std::string c = "[session population/" + t.name + " id=" + mc::Hex(id).substr(0, 12) + " " + agg;
    bool known = s.past && !s.history_unreadable;
    c += " last=" + std::to_string(known ? World::kPast + 10 * index + 2 : 0) + " acc=";
    if (known) c += "app:/c:" + std::to_string(World::kPast + 10 * index) + ",";
    return c + " out=" + (World::IsQuery(t) ? "1" : "0") + "]";
  }
  static std::string Sha(const std::string& x);
  void Compute(const Task& t, const std::string& session) {
    int index = s.multi.size();
    for (size_t i = 0; i < s.multi.size(); ++i)
      if (&s.multi[i] == &t) index = i;
    std::string context = Context(t, index);
    Mark begun = At();
    Publish("ComputationStarted");
    Open(Ph::COMPUTATION);
    Event(Ev::EVENT_KIND_COMPUTATION_STARTED, "", t.name);
    bool query = World::IsQuery(t);
    bool file = query ? !s.light : t.kind != kSecAgg;
    std::string queries;
    std::string results;
    bool ok = false;
    std::string what, text;
    int event = 0, examples = 0;
    if (file && t.out == kTempError) {
      what = "IOError", event = Ev::EVENT_KIND_COMPUTATION_ERROR_IO, text = "no temporary file";
    } else if (t.kind == kNothing || t.kind == kNoRouter || t.kind == kNotSecAgg || t.kind == kQueryNoRouter || t.kind == kQueryNoAgg) {
      what = "InvalidArgument", event = Ev::EVENT_KIND_COMPUTATION_ERROR_INVALID_ARGUMENT;
    } else if (t.kind == kNoGraph) {
      what = "TensorflowError", event = Ev::EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW, text = "engine";
    } else if (query) {
      calls.push_back("query app:/c " + context);
      if (first_ < 0) first_ = now;
      queries = "app:/c(" + std::to_string(t.iter ? 0 : 1) + ")" + context;
      if (t.iter == 1) queries = "";
      if (t.iter != 1) parts[phase_].data["app:/c"] = {parts[phase_].data["app:/c"].first + (t.iter ? 0 : 1), first_};
      if (t.iter) {
        what = "ExampleIteratorError", event = Ev::EVENT_KIND_COMPUTATION_ERROR_EXAMPLE_ITERATOR;
        text = t.iter == 1 ? "store refuses" : "store fails";
      } else {
        examples = kRunExamples;
        ok = true;
        if (s.light)
          results = "federated_compute_checkpoint=light 'o:9[2]|5|6 ';";
        else
          results = "tensorflow_checkpoint=file 'o:l[2]|5|6 ';";
      }
    } else {
      std::string names = t.kind == kSimple ? "" : "t2 t1 ";
      calls.push_back("run graph of " + t.name + " in=" + Checkpoint(t.name) + " out=" + (file ? "yes " : "no ") + names +
                      "slices=https://slices/" + t.name);
      calls.push_back("query app:/c " + context);
      if (first_ < 0) first_ = now;
      parts[phase_].data["app:/c"] = {parts[phase_].data["app:/c"].first + 2, first_};
      queries = "app:/c(1)" + context;
      Spend(kRun, false);
      examples = kRunExamples;
      text = "engine text";
      switch (t.outcome) {
        case PlanOutcome::kTensorflowError: what = "TensorflowError", event = Ev::EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW; break;
        case PlanOutcome::kInterrupted: what = "Interrupted", event = Ev::EVENT_KIND_COMPUTATION_CLIENT_INTERRUPTED; break;
        case PlanOutcome::kInvalidArgument: what = "InvalidArgument", event = Ev::EVENT_KIND_COMPUTATION_ERROR_INVALID_ARGUMENT; break;
        case PlanOutcome::kExampleIteratorError:
          what = "ExampleIteratorError", event = Ev::EVENT_KIND_COMPUTATION_ERROR_EXAMPLE_ITERATOR;
          break;
        case PlanOutcome::kSuccess: {
          ok = true;
          if (t.kind == kBoth || t.kind == kSecAgg) {
            int bits = kDtypes[t.dtype].bits;
            if (!bits) ok = false;
            std::string b = std::to_string(bits);
            results = results + "t1=tensor 10 11 bits " + b + " dims 2 1;t2=tensor 20 21 bits " + b + " dims 2;";
          }
          if (file) results += "tensorflow_checkpoint=file 'update of " + t.name + "';";
          if (file && (t.output_lost || t.out == kTempUnopenable)) ok = false;
          if (!ok) what = "TensorflowError", event = Ev::EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW, text = "";
          break;
        }
      }
    }
    // What a failing computation says may be private.
    if (what == "TensorflowError" && !s.tf_text && !text.empty()) text = "!" + text;
    if (ok) {
      PublishSince("ComputationCompleted", begun, "", examples);
      Event(Ev::EVENT_KIND_COMPUTATION_FINISHED);
    } else {
      PublishSince("Computation" + what, begun, text, examples);
      Event(event, text.empty() ? "computation" : text);
    }
    Close();
    // --- report
    std::string X = ok ? "Result" : "Failure";
    Open(Ph::UPLOAD);
    Event(ok ? Ev::EVENT_KIND_RESULT_UPLOAD_STARTED : Ev::EVENT_KIND_FAILURE_UPLOAD_STARTED);
    bool contributed_now = false;
    if (t.commit) {
      Publish(X + "UploadStarted");
      Mark before = At();
      std::string ran = std::to_string(now - begun.now);
      if (ok)
        calls.push_back("upload " + session + " after " + ran + " " + results);
      else
        calls.push_back("report failure " + std::to_string(fcp::client::engine::ERROR) + " " + session + " after " + ran);
      Spend(kReport);
      if (t.report == 0) {
        PublishSince(X + "UploadCompleted", before);
        Event(ok ? Ev::EVENT_KIND_RESULT_UPLOAD_FINISHED : Ev::EVENT_KIND_FAILURE_UPLOAD_FINISHED);
        contributed_now = ok;
      } else {
        PublishSince(X + "Upload" + Which(t.report, "ServerAborted", "ClientInterrupted", "IOError"), before, "report text");
        Event(ok ? Which(t.report, Ev::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED, Ev::EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED,
                         Ev::EVENT_KIND_RESULT_UPLOAD_ERROR_IO)
                 : Which(t.report, Ev::EVENT_KIND_FAILURE_UPLOAD_SERVER_ABORTED,
                         Ev::EVENT_KIND_FAILURE_UPLOAD_CLIENT_INTERRUPTED, Ev::EVENT_KIND_FAILURE_UPLOAD_ERROR_IO),
              "report text");
      }
    }
    // (if the start could not be stored the phase is still open: it ends with
    // the next one or with the run)
    Close();
    if (contributed_now) contributed.push_back(t.name);
    calls.push_back(std::string("task ") + (contributed_now ? "contributed" : "not contributed") + " queries=" + (s.record ? queries : ""));
  }
};

inline std::string Model::Sha(const std::string& x) { return fcp::ComputeSHA256(x); }

// ----------------------------------------------------------- what is explored
// How one assigned task goes, from delivery to report. `detail` picks how much
// of it is enumerated: 0 the outcomes that matter to the whole run, 1 all
// kinds of plans and failures of the computation, 2 everything.
inline void ChooseTask(mc::Ctx& ctx, Task& t, bool multi, int detail) {
  if (detail == 0) {
    switch (ctx.Choose(multi ? 9 : 6, "task")) {
      case 0: break;
      case 1: t.commit = false; break;
      case 2: t.report = 3; break;
      case 3: t.outcome = PlanOutcome::kTensorflowError; break;
      case 4: t.kind = kSecAgg, t.dtype = 6; break;
      case 5: t.kind = kQuery; break;
      case 6: t.missing = true; break;
      case 7: t.fetch_fails = true; break;
      case 8: t.unreadable = true; break;
    }
    return;
  }
  t.cord = ctx.Flip("pieces");
  switch (ctx.Choose(multi ? 5 : 3, "delivery")) {
    case 0: break;
    case 1: t.unreadable = true; return;
    case 2:
      t.in = 1 + ctx.Choose(3, "input file");
      t.kind = ctx.Flip("query") ? kQuery : kBoth;
      if (t.kind == kBoth) return;
      break;
    case 3: t.missing = true; return;
    case 4: t.fetch_fails = true; return;
  }
  t.kind = t.kind == kQuery ? kQuery : ctx.Choose(kKinds, "plan");
  bool runs = false;
  if (t.kind == kQuery) {
    t.iter = ctx.Choose(3, "store");
    if (!t.iter && ctx.Flip("no output file")) t.out = kTempError;
  } else if (t.kind == kBoth || t.kind == kSecAgg || t.kind == kSimple) {
    t.outcome = PlanOutcome(ctx.Choose(5, "computation"));
    if (t.outcome == PlanOutcome::kSuccess) {
      runs = true;
      if (t.kind != kSimple) t.dtype = ctx.Choose(sizeof(kDtypes) / sizeof(*kDtypes), "type");
      if (t.kind != kSecAgg && t.dtype == 0) {
        int o = ctx.Choose(4, "output file");
        t.output_lost = o == 1;
        if (o == 2) t.out = kTempError;
        if (o == 3) t.out = kTempUnopenable;
      }
    }
  }
  t.secagg_info = ctx.Flip("secure aggregation");
  if (!(t.commit = !ctx.Flip("start not stored"))) return;
  t.report = ctx.Choose(4, "report");
}

inline void ChooseFlags(mc::Ctx& ctx, Script& s) {
  int f = ctx.Choose(3, "format");
  s.light = f == 1;
  s.untie = f > 0;
  s.phases = !ctx.Flip("no phases");
  s.tf_text = !ctx.Flip("error text withheld");
}
// One task offered, in full detail.
inline Script ScriptSingle(mc::Ctx& ctx) {
  Script s;
  s.has_spec = ctx.Flip("population known");
  s.population = {{"single", 0}};
  ChooseFlags(ctx, s);
  int e = ctx.Choose(8, "check-in");
  if (e == 7) {
    s.single_error = 4;
  } else if (e > 0) {
    s.single_error = 1 + (e - 1) % 3;
    s.single_after = e > 3;
  } else {
    ChooseTask(ctx, s.single, false, 1);
  }
  return s;
}
// Several tasks requested, each in one of the ways that matter to the others.
inline Script ScriptSeveral(mc::Ctx& ctx) {
  Script s;
  int n = 1 + ctx.Choose(ctx.thorough() ? 3 : 2, "several");
  bool also = ctx.Flip("also one");
  for (int i = 0; i < n; ++i) s.population.push_back({"m" + std::to_string(i + 1), 2});
  if (also) s.population.insert(s.population.begin() + ctx.Choose(2, "place"), {"single", 1});
  s.phases = !ctx.Flip("no phases");
  for (int i = 0; i < n; ++i) {
    s.multi.push_back({});
    s.multi.back().name = "m" + std::to_string(i + 1);
  }
  int e = ctx.Choose(7, "assignment");
  if (e > 0) {
    s.multi_error = 1 + (e - 1) % 3;
    s.multi_after = e > 3;
  } else {
    for (auto& t : s.multi) ChooseTask(ctx, t, true, 0);
  }
  if (also) {
    int c = ctx.Choose(4, "check-in");
    if (c == 1) s.single_error = 4;
    if (c == 2) s.single_error = 1 + ctx.Choose(3, "error");
    if (c == 3) ChooseTask(ctx, s.single, false, 0);
  }
  return s;
}
// One task of several in full detail; the other is ordinary.
inline Script ScriptOneOfSeveral(mc::Ctx& ctx) {
  Script s;
  s.population = {{"m1", 2}, {"m2", 2}};
  ChooseFlags(ctx, s);
  s.multi.resize(2);
  s.multi[0].name = "m1";
  s.multi[1].name = "m2";
  ChooseTask(ctx, s.multi[ctx.Choose(2, "which")], true, 1);
  return s;
}
// Everything that can happen up to the decision which tasks to ask for.
inline Script ScriptEligibility(mc::Ctx& ctx) {
  Script s;
  s.phases = !ctx.Flip("no phases");
  if (ctx.Flip("conditions not met")) {
    s.conditions = false;
    return s;
  }
  s.multi.resize(2);
  s.multi[0].name = "m1";
  s.multi[1].name = "m2";
  s.elig = ctx.Choose(4, "eligibility");
  if (s.elig == kEligError) {
    s.elig_error = 1 + ctx.Choose(3, "error");
    s.elig_after = ctx.Flip("after the task");
    return s;
  }
  if (s.elig == kRejected) return s;
  s.has_spec = !ctx.Flip("population unknown");
  if (s.has_spec) {
    const char* names[] = {"single", "m1", "other", "m2"};
    for (int i = 0; i < 4; ++i) {
      int have = ctx.Choose(3, names[i]);
      if (!have) continue;
      s.population.push_back({names[i], i % 2 ? 2 : i == 0 ? 0 : 1, have == 1});
    }
  }
  if (s.elig == kEet) {
    int what = ctx.Choose(4, "eligibility task");
    if (what == 1) s.eet_unreadable = true;
    if (what == 2) s.eet_in = 1 + ctx.Choose(3, "input file");
    if (what == 3) s.history_unreadable = true;
    if (what == 0) s.eet_plan = ctx.Choose(kEetPlans, "eligibility plan");
  }
  int c = ctx.Choose(3, "check-in");
  if (c == 1) s.single_error = 4;
  if (c == 2) s.single_error = 3;
  return s;
}
// What a computation is told about itself and its past.
inline Script ScriptContext(mc::Ctx& ctx) {
  Script s;
  bool several = ctx.Flip("several");
  s.population = {{"m1", 2}, {"m2", 2}};
  s.has_spec = several;
  s.comp_id = ctx.Choose(3, "identity");
  s.conf_ctx = ctx.Flip("confidential announced");
  s.record = ctx.Flip("queries recorded");
  s.past = ctx.Flip("history");
  s.history_unreadable = ctx.Flip("history unreadable");
  s.light = s.untie = ctx.Flip("light");
  if (several) {
    s.multi.resize(2);
    s.multi[0].name = "m1";
    s.multi[1].name = "m2";
    s.multi[1].kind = kQuery;
  }
  Task& t = several ? s.multi[0] : s.single;
  t.kind = ctx.Choose(4, "plan");
  if (t.kind == kQuery) t.iter = ctx.Choose(3, "store");
  t.cord = ctx.Flip("pieces");
  t.secagg_info = ctx.Flip("secure aggregation");
  t.confidential = ctx.Flip("confidential");
  t.min_sep = ctx.Choose(3, "separation") - 1;
  return s;
}
}  // namespace flw
#ifndef FLW_OWN_ENGINE
namespace fcp {
namespace client {
namespace engine {
// The plan engine itself needs a TensorFlow runtime.
inline PlanResult RunScripted(const std::vector<ExampleIteratorFactory*>& f, ExampleIteratorQueryRecorder* r,
                              const google::internal::federated::plan::TensorflowSpec& spec, const std::string& model,
                              absl::flat_hash_map<std::string, std::string>& inputs, const std::vector<std::string>& outputs) {
  return flw::g_world->Engine(f, r, spec, model, inputs, outputs);
}
PlanResult TfLitePlanEngine::RunPlan(const google::internal::federated::plan::TensorflowSpec& spec, const std::string& model,
                                     std::unique_ptr<absl::flat_hash_map<std::string, std::string>> inputs,
                                     const std::vector<std::string>& outputs) {
  return RunScripted(example_iterator_factories_, example_iterator_query_recorder_, spec, model, *inputs, outputs);
}
}  // namespace engine
}  // namespace client
}  // namespace fcp
#endif
#endif
