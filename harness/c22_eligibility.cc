// C22: which tasks a device is eligible for.
#include <map>
#include <set>

#include "common/client_fakes.h"
#include "common/mc.h"
#include "common/phase_logger_fake.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/eligibility_decider.h"
#include "fcp/client/engine/example_iterator_factory.h"
#include "fcp/client/example_query_result.pb.h"
#include "fcp/client/selector_context.pb.h"
#include "tensorflow/core/example/example.pb.h"

using fcp::client::ExampleIterator;
using fcp::client::SelectorContext;
using fcp::client::engine::ExampleIteratorFactory;
using fcp::client::engine::PlanOutcome;
using fcp::client::engine::PlanResult;
using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::OpStatsSequence;
using google::internal::federated::plan::EligibilityPolicyEvalSpec;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::TaskEligibilityInfo;
namespace {
constexpr int64_t kNow = 1700000000000;  // ms
class Flags : public mc::TestFlags {
 public:
  bool use_example_query_result_for_data_avail() const override { return query_result; }
  bool check_trustworthiness_for_min_sep_policy() const override { return trust; }
  bool enable_lightweight_computation_id() const override { return id; }
  bool query_result = false, trust = false, id = false;
};
// Examples "<n>" up to a count, then the end or an error.
struct Source {
  std::string uri;
  int count = 0;
  absl::Status end = absl::OutOfRangeError("end");
  absl::Status create;
  std::optional<std::string> only;  // the only example
  int created = 0, given = 0;
  SelectorContext seen;
};
class Iter : public ExampleIterator {
 public:
  explicit Iter(Source* s) : s_(s) {}
  absl::StatusOr<std::string> Next() override {
    if (s_->only) return *s_->only;
    if (n_ >= s_->count) return s_->end;
    ++n_;
    ++s_->given;
    return "example";
  }
  void Close() override {}
  Source* s_;
  int n_ = 0;
};
class Factory : public ExampleIteratorFactory {
 public:
  explicit Factory(Source* s) : s_(s) {}
  bool CanHandle(const ExampleSelector& sel) override { return sel.collection_uri() == s_->uri; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& sel) override { return absl::InternalError("no context"); }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& sel, const SelectorContext& c) override {
    ++s_->created;
    s_->seen = c;
    if (!s_->create.ok()) return s_->create;
    return std::make_unique<Iter>(s_);
  }
  bool ShouldCollectStats() override { return true; }
  SelectorContext GetSelectorContext() const override {
    SelectorContext c;
    c.mutable_computation_properties()->set_session_name("session");
    return c;
  }
  Source* s_;
};
class Runner : public fcp::client::EetPlanRunner {
 public:
  PlanResult RunPlan(std::vector<ExampleIteratorFactory*> factories) override {
    ++runs;
    asked.clear();
    policy.clear();
    ExampleSelector sel;
    sel.set_collection_uri("internal:/eligibility_context");
    for (auto* f : factories) {
      if (!f->CanHandle(sel)) continue;
      auto it = f->CreateExampleIterator(sel, SelectorContext());
      if (!it.ok()) it = f->CreateExampleIterator(sel);
      if (!it.ok()) break;
      auto e = (*it)->Next();
      tensorflow::Example ex;
      if (!e.ok() || !ex.ParseFromString(*e)) break;
      one_example = absl::IsOutOfRange((*it)->Next().status());
      policy = ex.features().feature().at("policy_name").bytes_list().value(0);
      for (auto& t : ex.features().feature().at("task_names").bytes_list().value()) asked.insert(t);
      break;
    }
    all_asked.push_back({policy, asked});
    others = factories.size() - 1;
    return PlanResult(outcome, outcome == PlanOutcome::kSuccess ? absl::OkStatus() : absl::InternalError("plan failed"));
  }
  absl::StatusOr<TaskEligibilityInfo> ParseOutput(const std::vector<tensorflow::Tensor>&) override {
    if (!parse.ok()) return parse;
    TaskEligibilityInfo info;
    for (auto& [t, w] : weights[policy]) {
      auto* tw = info.add_task_weights();
      tw->set_task_name(t);
      tw->set_weight(w);
    }
    return info;
  }
  PlanOutcome outcome = PlanOutcome::kSuccess;
  absl::Status parse;
  std::map<std::string, std::map<std::string, float>> weights;
  std::string policy;
  std::set<std::string> asked;
  std::vector<std::pair<std::string, std::set<std::string>>> all_asked;
  bool one_example = true;
  int runs = 0, others = 0;
};
template <class T>
void SetMs(T* t, int64_t ms) {
  t->set_seconds(ms / 1000);
  t->set_nanos(ms % 1000 * 1000000);
}
void Contribution(OpStatsSequence& s, const std::string& task, int64_t at, std::optional<int64_t> index, bool phases) {
  OperationalStats* o = s.add_opstats();
  if (index) o->set_min_sep_policy_index(*index);
  OperationalStats::Event* e;
  if (phases) {
    auto* c = o->add_phase_stats();
    c->set_phase(OperationalStats::PhaseStats::CHECKIN);
    c->set_task_name(task);
    auto* p = o->add_phase_stats();
    p->set_phase(OperationalStats::PhaseStats::COMPUTATION);
    p->set_task_name(task);
    p = o->add_phase_stats();
    p->set_phase(OperationalStats::PhaseStats::UPLOAD);
    p->set_task_name(task);
    e = p->add_events();
  } else {
    o->set_task_name(task);
    e = o->add_events();
  }
  e->set_event_type(OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED);
  SetMs(e->mutable_timestamp(), at);
}
struct World {
  mc::Ctx& ctx;
  mc::RecLog log;
  mc::RecPhases phases;
  fcp::SimulatedClock clock{absl::FromUnixMillis(kNow)};
  Flags flags;
  PopulationEligibilitySpec spec;
  OpStatsSequence history;
  std::vector<Source*> sources;
  Runner runner;
  // Runs the decision and compares it, task by task.
  void Check(const std::vector<bool>& want) {
    std::vector<std::unique_ptr<Factory>> own;
    std::vector<ExampleIteratorFactory*> factories;
    for (auto* s : sources) {
      own.push_back(std::make_unique<Factory>(s));
      factories.push_back(own.back().get());
    }
    auto r = fcp::client::ComputeEligibility(spec, log, phases, history, clock, factories, runner, &flags);
    ctx.Step("decide");
    ctx.Check(r.ok(), "no decision: " + r.status().ToString());
    ctx.Eq((int)r->version(), 1, "version");
    ctx.Eq((int)r->task_weights_size(), (int)spec.task_info_size(), "number of tasks");
    std::string outcome;
    for (int i = 0; i < spec.task_info_size(); ++i) {
      ctx.Eq(r->task_weights(i).task_name(), spec.task_info(i).task_name(), "task");
      ctx.Check(r->task_weights(i).weight() == (want[i] ? 1.0f : 0.0f), "task " + std::to_string(i) + " is " + (want[i] ? "not " : "") + "eligible, but should " + (want[i] ? "" : "not ") + "be");
      outcome += want[i] ? "y" : "n";
    }
    ctx.Outcome(outcome);
  }
  EligibilityPolicyEvalSpec* Policy(const std::string& name, int version = 1) {
    auto* p = spec.add_eligibility_policies();
    p->set_name(name);
    p->set_min_version(version);
    return p;
  }
  void Task(const std::string& name, std::vector<int> policies) {
    auto* t = spec.add_task_info();
    t->set_task_name(name);
    for (int p : policies) t->add_eligibility_policy_indices(p);
  }
};
}  // namespace

// Policies of every kind together.
MC_SCENARIO(combined, {}) {
  World w{ctx};
  Source data{"app:/a", 2};
  w.sources = {&data};
  SetMs(w.history.mutable_earliest_trustworthy_time(), kNow - 100000);
  bool phases = ctx.Flip("history with phases");
  Contribution(w.history, "t0", kNow - 50000, 7, phases);
  int n = ctx.thorough() ? 3 : 2;
  bool same_names = ctx.Flip("policies share a name");
  w.runner.weights["p"] = {{"t0", 1}};
  for (int i = 0; i < n; ++i) w.runner.weights["p" + std::to_string(i)] = {{"t0", 1}, {"t1", 0}};
  // Which of the two tasks the policy grants.
  std::vector<std::pair<bool, bool>> grants;
  for (int i = 0; i < n; ++i) {
    std::string name = same_names ? "p" : "p" + std::to_string(i);
    switch (ctx.Choose(11, "policy")) {
      case 0:
      case 1: {
        bool enough = ctx.Flip("enough");
        auto* d = w.Policy(name)->mutable_data_availability_policy();
        d->mutable_selector()->set_collection_uri("app:/a");
        d->set_min_example_count(enough ? 2 : 3);
        grants.emplace_back(enough, enough);
        break;
      }
      case 2:  // t0 contributed too recently
        SetMs(w.Policy(name)->mutable_swor_policy()->mutable_min_period(), 60000);
        grants.emplace_back(false, true);
        break;
      case 3:
        SetMs(w.Policy(name)->mutable_swor_policy()->mutable_min_period(), 40000);
        grants.emplace_back(true, true);
        break;
      case 4: {
        auto* s = w.Policy(name)->mutable_swor_policy();
        SetMs(s->mutable_min_period(), 60000);
        s->set_group_regex("t.*");
        grants.emplace_back(false, false);
        break;
      }
      case 5:
        w.Policy(name)->mutable_tf_custom_policy();
        grants.emplace_back(true, false);
        break;
      case 6: {
        auto* m = w.Policy(name)->mutable_min_sep_policy();
        m->set_current_index(9);
        m->set_minimum_separation(2);
        grants.emplace_back(false, true);
        break;
      }
      case 7: {
        auto* m = w.Policy(name)->mutable_min_sep_policy();
        m->set_current_index(9);
        m->set_minimum_separation(1);
        grants.emplace_back(true, true);
        break;
      }
      case 8:  // not known
        w.Policy(name);
        grants.emplace_back(false, false);
        break;
      case 9:  // known, but not in this version
        w.Policy(name, 2)->mutable_swor_policy();
        grants.emplace_back(false, false);
        break;
      case 10: {
        auto* d = w.Policy(name)->mutable_data_availability_policy();
        d->mutable_selector()->set_collection_uri("app:/nobody");
        grants.emplace_back(false, false);
        break;
      }
    }
  }
  std::vector<bool> want;
  for (int t = 0; t < 2; ++t) {
    int mask = ctx.Choose(1 << n, "policies of the task");
    std::vector<int> policies;
    bool ok = true;
    for (int i = 0; i < n; ++i) {
      if (!(mask >> i & 1)) continue;
      policies.push_back(i);
      ok &= t ? grants[i].second : grants[i].first;
    }
    w.Task("t" + std::to_string(t), policies);
    want.push_back(ok);
  }
  w.Check(want);
}
// Sampling without replacement, to the millisecond.
MC_SCENARIO(swor, {}) {
  World w{ctx};
  int64_t period = ctx.Pick(std::vector<int64_t>{0, 1, 5000, 86400000}, "period");
  auto* s = w.Policy("p")->mutable_swor_policy();
  SetMs(s->mutable_min_period(), period);
  int64_t trust = kNow - period + ctx.Choose(3, "trust") - 1;
  SetMs(w.history.mutable_earliest_trustworthy_time(), trust);
  static const std::vector<std::string> regexes = {"", "t0", "t.*", "0", "x", "(", "t[01]"};
  std::string regex = ctx.Pick(regexes, "group");
  s->set_group_regex(regex);
  bool phases = ctx.Flip("history with phases");
  // t0 contributed around a period ago; another one perhaps before that.
  int64_t at = kNow - period + ctx.Choose(4, "contributed") - 1;
  bool contributed = at <= kNow + 1;
  if (ctx.Flip("also long ago")) Contribution(w.history, "t0", kNow - 90000000, {}, phases);
  if (contributed) Contribution(w.history, "t0", at, {}, phases);
  bool group_member = regex == "t0" || regex == "t.*" || regex == "t[01]";
  bool recent = contributed && at >= kNow - period;
  bool trusted = trust <= kNow - period;
  std::vector<bool> want;
  for (int t = 0; t < 2; ++t) {
    w.Task("t" + std::to_string(t), {0});
    bool ok = trusted;
    if (regex.empty()) {
      ok &= !(t == 0 && recent);
    } else if (regex == "(") {
      ok = false;
    } else {
      ok &= !(group_member && recent);
    }
    want.push_back(ok);
  }
  w.Check(want);
}
// Minimum separation.
MC_SCENARIO(min_sep, {}) {
  World w{ctx};
  w.flags.trust = ctx.Flip("trust is checked");
  int version = 1 + ctx.Choose(3, "version");
  auto* m = w.Policy("p", version)->mutable_min_sep_policy();
  int64_t sep = ctx.Pick(std::vector<int64_t>{0, 1, 5}, "separation");
  int64_t last = ctx.Pick(std::vector<int64_t>{0, 3, 1000000000000}, "last");
  int64_t current = last + sep + ctx.Choose(4, "current") - 1;
  m->set_current_index(current);
  m->set_minimum_separation(sep);
  int64_t period = ctx.Pick(std::vector<int64_t>{0, 1, 5000}, "trust period");
  SetMs(m->mutable_min_trustworthiness_period(), period);
  int64_t trust = kNow - period + ctx.Choose(3, "trust") - 1;
  SetMs(w.history.mutable_earliest_trustworthy_time(), trust);
  bool phases = ctx.Flip("history with phases");
  if (ctx.Flip("another before")) Contribution(w.history, "t0", kNow - 3000, current + 100, phases);
  bool index = ctx.Flip("index recorded");
  Contribution(w.history, "t0", kNow - 2000, index ? std::optional(last) : std::nullopt, phases);
  bool implemented = version <= (w.flags.trust ? 2 : 1);
  bool trusted = !w.flags.trust || period == 0 || trust <= kNow - period;
  w.Task("t0", {0});
  w.Task("t1", {0});
  w.Task("t2", {});
  w.Check({implemented && trusted && (!index || current - last > sep), implemented && trusted, true});
}
// Enough data.
MC_SCENARIO(data, {}) {
  World w{ctx};
  w.flags.query_result = ctx.Flip("query results");
  w.flags.id = ctx.Flip("identifier");
  int version = 1 + ctx.Choose(3, "version");
  auto* d = w.Policy("p", version)->mutable_data_availability_policy();
  d->mutable_selector()->set_collection_uri("app:/a");
  d->mutable_selector()->mutable_criteria()->set_value("criteria");
  int need = ctx.Choose(4, "needed");
  d->set_min_example_count(need);
  bool as_result = ctx.Flip("as a query result");
  d->set_use_example_query_result_format(as_result);
  Source other{"app:/b", 9}, source{"app:/a"}, shadowed{"app:/a", 9};
  int have = ctx.Choose(4, "available");
  source.count = have;
  int how = ctx.Choose(5, "what goes wrong");
  bool have_source = how != 1;
  if (how == 2) source.create = absl::InvalidArgumentError("bad criteria");
  if (how == 3) source.end = absl::CancelledError("interrupted");
  if (how == 4) source.end = absl::InvalidArgumentError("I/O");
  bool result_mode = w.flags.query_result && as_result;
  bool parses = true;
  if (result_mode) {
    fcp::client::ExampleQueryResult r;
    r.mutable_stats()->set_example_count_for_logs(have);
    source.only = r.SerializeAsString();
    if (how == 3) {
      source.only = "\xff\xff\xff";
      parses = false;
    }
    if (how == 4) source.only.reset(), source.count = 0;
  }
  w.sources = {&other};
  if (have_source) w.sources.push_back(&source), w.sources.push_back(&shadowed);
  bool implemented = version <= (w.flags.query_result ? 2 : 1);
  bool error = !have_source || how == 2;
  bool enough;
  if (result_mode) {
    error |= !parses || how == 4;
    enough = have >= need;
  } else {
    enough = have >= need;
    if (!enough && how >= 3) error = true;
  }
  w.Task("t0", {0});
  w.Task("t1", {0});
  w.Task("t2", {});
  bool ok = implemented && !error && enough;
  w.Check({ok, ok, true});
  ctx.Eq(w.phases.Count("EligibilityEvalComputationErrorNonfatal"), implemented && error ? 1 : 0, "errors logged");
  ctx.Eq(other.created + shadowed.created, 0, "uses of other sources");
  if (implemented && have_source) {
    ctx.Eq(source.created, 1, "queries");
    ctx.Check(source.given <= need, "more examples were read than needed");
    auto& p = source.seen.computation_properties();
    ctx.Eq(p.session_name(), std::string("session"), "context of the source");
    ctx.Eq(p.eligibility_eval().computation_id().empty(), !w.flags.id, "has no identifier");
    ctx.Eq(p.example_iterator_output_format() == fcp::client::QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT, result_mode, "asks for a query result");
  } else {
    ctx.Eq(source.created, 0, "queries");
  }
}
// Custom policies see the tasks still in the running, and only those.
MC_SCENARIO(custom, {}) {
  World w{ctx};
  Source data{"app:/a", 1};
  w.sources = {&data};
  SetMs(w.history.mutable_earliest_trustworthy_time(), kNow - 100000);
  Contribution(w.history, "t0", kNow - 500, {}, true);
  SetMs(w.Policy("swor")->mutable_swor_policy()->mutable_min_period(), 1000);
  w.Policy("custom", 1 + ctx.Choose(2, "version"))->mutable_tf_custom_policy();
  bool implemented = w.spec.eligibility_policies(1).min_version() == 1;
  bool first = ctx.Flip("custom policy first");
  if (first) w.spec.mutable_eligibility_policies()->SwapElements(0, 1);
  int custom = first ? 0 : 1, swor = 1 - custom;
  static const std::vector<float> weights = {0, 1, 0.25, -1};
  std::vector<bool> want;
  std::set<std::string> asked;
  for (int t = 0; t < 3; ++t) {
    std::string name = "t" + std::to_string(t);
    int uses = ctx.Choose(4, "policies");
    std::vector<int> ps;
    if (uses & 1) ps.push_back(custom);
    if (uses & 2) ps.push_back(swor);
    w.Task(name, ps);
    bool swor_ok = t != 0;
    bool granted = false;
    if (uses & 1) {
      int k = ctx.Choose(5, "answer");
      if (k < 4) {
        w.runner.weights["custom"][name] = weights[k];
        granted = weights[k] > 0;
      }
      if (implemented && (first || swor_ok || !(uses & 2))) asked.insert(name);
    } else if (ctx.thorough() && ctx.Flip("answered though not asked")) {
      w.runner.weights["custom"][name] = 0;
    }
    want.push_back((!(uses & 1) || (granted && implemented)) && (!(uses & 2) || swor_ok));
  }
  int how = ctx.Choose(6, "outcome");
  w.runner.outcome = std::vector<PlanOutcome>{PlanOutcome::kSuccess, PlanOutcome::kTensorflowError, PlanOutcome::kInterrupted, PlanOutcome::kInvalidArgument, PlanOutcome::kExampleIteratorError, PlanOutcome::kSuccess}[how];
  if (how == 5) w.runner.parse = absl::InvalidArgumentError("not an answer");
  if (how) {
    for (int t = 0; t < 3; ++t) {
      for (int i : w.spec.task_info(t).eligibility_policy_indices()) {
        if (i == custom) want[t] = false;
      }
    }
  }
  w.Check(want);
  // If nothing is left there is nothing to ask.
  if (!w.runner.all_asked.empty()) {
    ctx.Eq(w.runner.runs, 1, "runs");
    ctx.Check(w.runner.one_example, "more than one context example");
    ctx.Eq(w.runner.policy, std::string("custom"), "policy asked about");
    ctx.Check(w.runner.asked == asked, "asked about other tasks than those still in the running");
    ctx.Eq(w.runner.others, 1, "other sources");
  } else {
    ctx.Check(asked.empty(), "not asked");
  }
  ctx.Eq(w.phases.Count("EligibilityEvalComputationErrorNonfatal"), how && w.runner.runs ? 1 : 0, "errors logged");
}
static int init = (mc::Rule("eligible exactly if every policy that applies to the task grants it"), mc::Assumption("policy indices refer to existing policies"), 0);
