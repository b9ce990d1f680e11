// C21: queries about the history and the examples made from it.
#include <map>
#include <optional>

#include "common/client_fakes.h"
#include "common/mc.h"
#include "fcp/client/opstats/opstats_example_store.h"
#include "fcp/client/opstats/opstats_utils.h"
#include "re2/re2.h"
#include "tensorflow/core/example/example.pb.h"

using namespace fcp::client::opstats;
using Ev = OperationalStats::Event;
using Ph = OperationalStats::PhaseStats;
using google::internal::federated::plan::ExampleSelector;
namespace {
constexpr int64_t kStart = 1700000000000;  // ms
struct Dataset {
  int64_t examples = 0, bytes = 0, first = 0;
};
// What happened for one task of one run.
struct Rec {
  std::string population, session, task, error;
  std::vector<std::pair<int, int64_t>> events;
  std::map<std::string, Dataset> data;
  int64_t down = 0, up = 0, net = 0, retry_min = 0, retry_max = 0;
  std::optional<int64_t> index;
  bool Contributed() const {
    bool started = false, aborted = false;
    for (auto& e : events) {
      started |= e.first == Ev::EVENT_KIND_RESULT_UPLOAD_STARTED;
      aborted |= e.first == Ev::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED;
    }
    return started && !aborted;
  }
  int64_t When() const {
    for (auto& e : events) {
      if (e.first == Ev::EVENT_KIND_RESULT_UPLOAD_STARTED) return e.second;
    }
    return -1;
  }
};
template <class T>
void SetMs(T* t, int64_t ms) {
  t->set_seconds(ms / 1000);
  t->set_nanos(ms % 1000 * 1000000);
}
struct Builder {
  OpStatsSequence data;
  std::vector<Rec> recs;
  int64_t now = kStart;
  int n = 0;

  // The current run.
  OperationalStats* s = nullptr;
  Rec base;
  std::vector<Ph> shared;
  Ph assignment;

  void Run(bool index) {
    ++n;
    s = data.add_opstats();
    s->set_population_name("population " + std::to_string(n % 2));
    s->set_session_name("session " + std::to_string(n));
    base = Rec();
    base.population = s->population_name();
    base.session = s->session_name();
    if (n % 2) {
      SetMs(s->mutable_retry_window()->mutable_delay_min(), base.retry_min = 1000 * n);
      SetMs(s->mutable_retry_window()->mutable_delay_max(), base.retry_max = 2500 * n);
    }
    if (index) s->set_min_sep_policy_index(40 + n);
    shared.clear();
    assignment = Ph();
  }
  void Event(google::protobuf::RepeatedPtrField<Ev>* to, int type) {
    Ev* e = to->Add();
    e->set_event_type((Ev::EventKind)type);
    now += 1001;
    SetMs(e->mutable_timestamp(), now);
  }
  Ph Phase(Ph::Phase p, std::vector<int> events, const std::string& task = "") {
    Ph ph;
    ph.set_phase(p);
    if (!task.empty()) ph.set_task_name(task);
    for (int e : events) Event(ph.mutable_events(), e);
    int k = s->phase_stats_size() + 1;
    ph.set_bytes_downloaded(100 * k + n);
    ph.set_bytes_uploaded(1000 * k + n);
    if (k % 2) SetMs(ph.mutable_network_duration(), 3 * k + n * 1000);
    if (k == 3) ph.set_error_message("error " + std::to_string(n));
    if (p == Ph::COMPUTATION || p == Ph::ELIGIBILITY_COMPUTATION) {
      for (int i = 0; i < 2; ++i) {
        auto& d = (*ph.mutable_dataset_stats())["app:/" + std::to_string((i + k) % 3)];
        d.set_num_examples_read(k + i);
        d.set_num_bytes_read(10 * k + i);
        // Later phases may know an earlier access.
        SetMs(d.mutable_first_access_timestamp(), kStart + (k * 7 + i * 3) % 11 * 100);
      }
    }
    *s->add_phase_stats() = ph;
    return ph;
  }
  void Add(Rec& r, const Ph& p) {
    if (!p.task_name().empty()) r.task = p.task_name();
    if (!p.error_message().empty()) r.error = p.error_message();
    for (auto& e : p.events()) r.events.emplace_back(e.event_type(), e.timestamp().seconds() * 1000 + e.timestamp().nanos() / 1000000);
    for (auto& [uri, d] : p.dataset_stats()) {
      int64_t first = d.first_access_timestamp().seconds() * 1000 + d.first_access_timestamp().nanos() / 1000000;
      bool known = r.data.count(uri);
      Dataset& x = r.data[uri];
      x.examples += d.num_examples_read();
      x.bytes += d.num_bytes_read();
      x.first = known ? std::min(x.first, first) : first;
    }
    r.down += p.bytes_downloaded();
    r.up += p.bytes_uploaded();
    r.net += p.network_duration().seconds() * 1000 + p.network_duration().nanos() / 1000000;
  }
  static std::vector<int> UploadEvents(int kind) {
    switch (kind) {
      case 0:
        return {};
      case 1:
        return {Ev::EVENT_KIND_RESULT_UPLOAD_STARTED};
      case 2:
        return {Ev::EVENT_KIND_RESULT_UPLOAD_STARTED, Ev::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED};
      case 3:
        return {Ev::EVENT_KIND_RESULT_UPLOAD_STARTED, Ev::EVENT_KIND_RESULT_UPLOAD_FINISHED};
      case 4:
        return {Ev::EVENT_KIND_FAILURE_UPLOAD_STARTED, Ev::EVENT_KIND_FAILURE_UPLOAD_FINISHED};
      default:
        return {Ev::EVENT_KIND_RESULT_UPLOAD_STARTED, Ev::EVENT_KIND_RESULT_UPLOAD_ERROR_IO};
    }
  }
  void Eligibility() {
    shared.push_back(Phase(Ph::ELIGIBILITY_EVAL_CHECKIN, {Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED, Ev::EVENT_KIND_ELIGIBILITY_ENABLED}));
    shared.push_back(Phase(Ph::ELIGIBILITY_COMPUTATION, {Ev::EVENT_KIND_ELIGIBILITY_COMPUTATION_STARTED}));
  }
  void Task(const std::string& task, int upload) {
    Rec r = base;
    for (auto& p : shared) Add(r, p);
    Add(r, assignment);
    Add(r, Phase(Ph::COMPUTATION, {Ev::EVENT_KIND_COMPUTATION_STARTED, Ev::EVENT_KIND_COMPUTATION_FINISHED}, task));
    if (upload) Add(r, Phase(Ph::UPLOAD, UploadEvents(upload), task));
    if (assignment.phase() == Ph::CHECKIN && s->has_min_sep_policy_index()) r.index = s->min_sep_policy_index();
    recs.push_back(r);
  }
  void Multi() { assignment = Phase(Ph::MULTIPLE_TASK_ASSIGNMENTS, {Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_STARTED, Ev::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_COMPLETED}); }
  void Checkin(const std::string& task) { assignment = Phase(Ph::CHECKIN, {Ev::EVENT_KIND_CHECKIN_STARTED, task.empty() ? Ev::EVENT_KIND_CHECKIN_REJECTED : Ev::EVENT_KIND_CHECKIN_ACCEPTED}, task); }
  // A run that never got to compute anything.
  void Idle() {
    Rec r = base;
    for (auto& p : shared) Add(r, p);
    if (assignment.events_size()) Add(r, assignment);
    recs.push_back(r);
  }
  // An entry of the time before phases were recorded.
  void Legacy(const std::string& task, int upload) {
    Rec r = base;
    r.task = task;
    s->set_task_name(task);
    Event(s->mutable_events(), Ev::EVENT_KIND_CHECKIN_STARTED);
    for (int e : UploadEvents(upload)) Event(s->mutable_events(), e);
    for (auto& e : s->events()) r.events.emplace_back(e.event_type(), e.timestamp().seconds() * 1000 + e.timestamp().nanos() / 1000000);
    s->set_chunking_layer_bytes_downloaded(r.down = 5 * n);
    s->set_chunking_layer_bytes_uploaded(r.up = 6 * n);
    SetMs(s->mutable_network_duration(), r.net = 7 * n + 1500);
    if (n % 2) s->set_error_message(r.error = "oops");
    auto& d = (*s->mutable_dataset_stats())["app:/legacy"];
    d.set_num_examples_read(n);
    d.set_num_bytes_read(2 * n);
    SetMs(d.mutable_first_access_timestamp(), kStart + n);
    r.data["app:/legacy"] = {n, 2 * n, kStart + n};
    if (s->has_min_sep_policy_index()) r.index = s->min_sep_policy_index();
    recs.push_back(r);
  }
  void Empty() { recs.push_back(base); }
};
class Db : public OpStatsDb {
 public:
  absl::StatusOr<OpStatsSequence> Read() override {
    if (fail) return absl::InternalError("unreadable");
    return data;
  }
  OpStatsSequence data;
  bool fail = false;
};
class Logger : public OpStatsLogger {
 public:
  OpStatsDb* GetOpStatsDb() override { return &db; }
  std::string GetCurrentTaskName() override { return task; }
  Db db;
  std::string task;
};
int64_t Ms(const google::protobuf::Timestamp& t) { return t.seconds() * 1000 + t.nanos() / 1000000; }

void Compare(mc::Ctx& ctx, const OperationalStats& s, const Rec& r) {
  ctx.Eq(s.population_name(), r.population, "population");
  ctx.Eq(s.session_name(), r.session, "session");
  ctx.Eq(s.task_name(), r.task, "task");
  ctx.Eq(s.error_message(), r.error, "error message");
  ctx.Eq((size_t)s.events_size(), r.events.size(), "number of events");
  for (size_t i = 0; i < r.events.size(); ++i) {
    ctx.Eq((int)s.events(i).event_type(), r.events[i].first, "event");
    ctx.Eq(Ms(s.events(i).timestamp()), r.events[i].second, "time of an event");
  }
  ctx.Eq((int64_t)s.chunking_layer_bytes_downloaded(), r.down, "bytes downloaded");
  ctx.Eq((int64_t)s.chunking_layer_bytes_uploaded(), r.up, "bytes uploaded");
  ctx.Eq((int64_t)(s.network_duration().seconds() * 1000 + s.network_duration().nanos() / 1000000), r.net, "network time");
  ctx.Eq((size_t)s.dataset_stats().size(), r.data.size(), "number of datasets");
  for (auto& [uri, d] : r.data) {
    auto it = s.dataset_stats().find(uri);
    ctx.Check(it != s.dataset_stats().end(), "a dataset is missing");
    ctx.Eq((int64_t)it->second.num_examples_read(), d.examples, "examples read");
    ctx.Eq((int64_t)it->second.num_bytes_read(), d.bytes, "bytes read");
    ctx.Eq(Ms(it->second.first_access_timestamp()), d.first, "first access");
  }
}
template <class Pred>
const Rec* Last(const std::vector<Rec>& recs, Pred p) {
  for (auto it = recs.rbegin(); it != recs.rend(); ++it) {
    if (p(*it) && it->Contributed()) return &*it;
  }
  return nullptr;
}
void CheckExample(mc::Ctx& ctx, const std::string& bytes, const Rec& r, int64_t earliest) {
  tensorflow::Example ex;
  ctx.Check(ex.ParseFromString(bytes), "not an example");
  auto& f = ex.features().feature();
  auto str = [&](const char* k, const std::string& want) {
    auto it = f.find(k);
    ctx.Check(it != f.end() && it->second.bytes_list().value_size() == 1, std::string("feature ") + k);
    ctx.Eq(it->second.bytes_list().value(0), want, k);
  };
  auto num = [&](const char* k, int64_t want) {
    auto it = f.find(k);
    ctx.Check(it != f.end() && it->second.int64_list().value_size() == 1, std::string("feature ") + k);
    ctx.Eq((int64_t)it->second.int64_list().value(0), want, k);
  };
  str("population_name", r.population);
  str("session_name", r.session);
  str("task_name", r.task);
  str("error_message", r.error);
  num("retry_window-delay_min", r.retry_min);
  num("retry_window-delay_max", r.retry_max);
  num("chunking_layer_bytes_downloaded", r.down);
  num("chunking_layer_bytes_uploaded", r.up);
  num("network_duration", r.net);
  num("earliest_trustworthy_time", earliest);
  num("supports_neet_context", 1);
  auto& types = f.at("events-event_type").int64_list();
  auto& times = f.at("events-timestamp").int64_list();
  ctx.Eq((size_t)types.value_size(), r.events.size(), "number of events");
  ctx.Eq((size_t)times.value_size(), r.events.size(), "number of event times");
  for (size_t i = 0; i < r.events.size(); ++i) {
    ctx.Eq((int64_t)types.value(i), (int64_t)r.events[i].first, "event");
    ctx.Eq((int64_t)times.value(i), r.events[i].second, "event time");
  }
  auto& uris = f.at("dataset_stats-uri").bytes_list();
  auto& count = f.at("dataset_stats-num_examples_read").int64_list();
  auto& size = f.at("dataset_stats-num_bytes_read").int64_list();
  ctx.Check(f.count("dataset_stats-first_access_timestamp"), "no first accesses");
  auto& first = f.at("dataset_stats-first_access_timestamp").int64_list();
  ctx.Check(count.value_size() == uris.value_size() && size.value_size() == uris.value_size() && first.value_size() == uris.value_size(), "lists of different lengths");
  ctx.Eq((size_t)uris.value_size(), r.data.size(), "number of datasets");
  std::map<std::string, int> seen;
  for (int i = 0; i < uris.value_size(); ++i) {
    auto it = r.data.find(uris.value(i));
    ctx.Check(it != r.data.end() && !seen[uris.value(i)]++, "dataset " + uris.value(i));
    ctx.Eq((int64_t)count.value(i), it->second.examples, "examples read");
    ctx.Eq((int64_t)size.value(i), it->second.bytes, "bytes read");
    ctx.Eq((int64_t)first.value(i), it->second.first, "first access");
  }
}
void Iterate(mc::Ctx& ctx, Logger& logger, const ExampleSelector& sel, const std::vector<const Rec*>& want, int64_t earliest) {
  mc::RecLog log;
  OpStatsExampleIteratorFactory factory(&logger, &log);
  ctx.Check(factory.CanHandle(sel), "does not handle its own collection");
  auto it = factory.CreateExampleIterator(sel);
  ctx.Step("iterate");
  ctx.Check(it.ok(), "no iterator: " + it.status().ToString());
  if (want.empty()) {
    auto e = (*it)->Next();
    ctx.Check(e.ok(), "no example with the basic facts");
    CheckExample(ctx, *e, Rec(), earliest);
  }
  for (auto* r : want) {
    auto e = (*it)->Next();
    ctx.Check(e.ok(), "an example is missing");
    CheckExample(ctx, *e, *r, earliest);
  }
  for (int i = 0; i < 2; ++i) ctx.Check(absl::IsOutOfRange((*it)->Next().status()), "more than there should be");
  (*it)->Close();
}
const std::vector<std::string> kTasks = {"a", "ab", "zz", ""};
void CheckAll(mc::Ctx& ctx, Builder& b, bool windows) {
  const auto& data = b.data;
  for (auto& task : kTasks) {
    const Rec* want = Last(b.recs, [&](const Rec& r) { return r.task == task; });
    auto got = GetLastSuccessfulContribution(data, task);
    ctx.Step("query");
    ctx.Eq(got.has_value(), want != nullptr, "contributed to '" + task + "'");
    if (want) Compare(ctx, *got, *want);
    auto time = GetLastSuccessfulContributionTime(data, task);
    ctx.Eq(time.has_value(), want != nullptr, "has a time for '" + task + "'");
    if (want) ctx.Eq(Ms(*time), want->When(), "time of the last contribution to '" + task + "'");
    auto map = GetPreviousCollectionFirstAccessTimeMap(data, task);
    ctx.Eq(map.has_value(), want != nullptr, "has first accesses for '" + task + "'");
    if (want) {
      ctx.Eq(map->size(), want->data.size(), "collections");
      for (auto& [uri, d] : want->data) ctx.Check(map->contains(uri) && Ms(map->at(uri)) == d.first, "first access of " + uri);
    }
    auto index = GetLastSuccessfulContributionMinSepPolicyIndex(data, task);
    ctx.Eq(index.has_value(), want && want->index, "has a separation index for '" + task + "'");
    if (index) ctx.Eq((int64_t)*index, *want->index, "separation index of the last contribution to '" + task + "'");
  }
  static const std::vector<std::string> kPatterns = {"a", "a.*", ".*b", "b", "x+", ".*", "(a|ab)"};
  for (auto& p : kPatterns) {
    static std::map<std::string, std::unique_ptr<RE2>> compiled;
    auto& re = compiled[p];
    if (!re) re = std::make_unique<RE2>(p);
    // The patterns are few enough to say what they match.
    auto matches = [&](const std::string& t) {
      if (p == "a") return t == "a";
      if (p == "a.*" ) return t == "a" || t == "ab";
      if (p == ".*b") return t == "ab";
      if (p == ".*") return true;
      if (p == "(a|ab)") return t == "a" || t == "ab";
      return false;
    };
    const Rec* want = Last(b.recs, [&](const Rec& r) { return matches(r.task); });
    auto time = GetLastSuccessfulContributionTimeForPattern(data, *re);
    ctx.Step("query");
    ctx.Eq(time.has_value(), want != nullptr, "contributed to " + p);
    if (want) ctx.Eq(Ms(*time), want->When(), "time of the last contribution to " + p);
  }
  // Time windows; both ends belong to them.
  std::vector<int64_t> ends;
  for (auto& r : b.recs) {
    if (!r.events.empty()) ends.push_back(r.events.back().second);
  }
  auto last = [](const Rec& r) { return r.events.empty() ? absl::InfinitePast() : absl::FromUnixMillis(r.events.back().second); };
  std::vector<absl::Time> bounds = {absl::InfinitePast(), absl::InfiniteFuture()};
  for (int64_t e : ends) {
    for (int d = -1; d <= 1; ++d) bounds.push_back(absl::FromUnixMillis(e + d));
  }
  // Every end as one of the bounds, and every pair of ends exactly.
  for (size_t l = 0; l < bounds.size(); ++l) {
    for (size_t h = 0; h < bounds.size(); ++h) {
      if (l > 1 && h > 1 && (!windows || l % 3 || h % 3)) continue;
      absl::Time lo = bounds[l], hi = bounds[h];
      std::vector<const Rec*> want;
      for (auto it = b.recs.rbegin(); it != b.recs.rend(); ++it) {
        if (last(*it) >= lo && last(*it) <= hi) want.push_back(&*it);
      }
      auto got = GetOperationalStatsForTimeRange(data, lo, hi);
      ctx.Eq(got.size(), want.size(), "entries in the window");
      for (size_t i = 0; i < want.size(); ++i) Compare(ctx, got[i], *want[i]);
    }
    ctx.Step("windows");
  }
  // The examples.
  Logger logger;
  logger.db.data = data;
  int64_t earliest = kStart - 5000 + 7;
  SetMs(logger.db.data.mutable_earliest_trustworthy_time(), earliest);
  ExampleSelector sel;
  sel.set_collection_uri("internal:/opstats");
  std::vector<const Rec*> all;
  for (auto it = b.recs.rbegin(); it != b.recs.rend(); ++it) all.push_back(&*it);
  Iterate(ctx, logger, sel, all, earliest);
  for (auto& task : kTasks) {
    logger.task = task;
    OpStatsSelectionCriteria c;
    c.set_last_successful_contribution(true);
    sel.mutable_criteria()->PackFrom(c);
    std::vector<const Rec*> one;
    if (const Rec* r = Last(b.recs, [&](const Rec& r) { return r.task == task; })) one.push_back(r);
    Iterate(ctx, logger, sel, one, earliest);
  }
  if (!windows) return;
  for (int64_t lo : ends) {
    for (int64_t hi : ends) {
      for (int which = 0; which < 3; ++which) {
        OpStatsSelectionCriteria c;
        if (which != 1) SetMs(c.mutable_start_time(), lo);
        if (which != 2) SetMs(c.mutable_end_time(), hi);
        sel.mutable_criteria()->PackFrom(c);
        if (which == 0 && lo > hi) {
          mc::RecLog log;
          OpStatsExampleIteratorFactory factory(&logger, &log);
          ctx.Check(absl::IsInvalidArgument(factory.CreateExampleIterator(sel).status()), "a window that ends before it starts was accepted");
          continue;
        }
        std::vector<const Rec*> want;
        for (auto* r : all) {
          bool after = which == 1 || last(*r) >= absl::FromUnixMillis(lo);
          bool before = which == 2 || last(*r) <= absl::FromUnixMillis(hi);
          if (after && before) want.push_back(r);
        }
        Iterate(ctx, logger, sel, want, earliest);
      }
    }
  }
}
}  // namespace

// One run, of every shape.
MC_SCENARIO(one_run, {}) {
  Builder b;
  b.Run(ctx.Flip("separation index"));
  static const std::vector<std::string> names = {"a", "ab"};
  int form = ctx.Choose(3, "form");
  if (form == 0) {
    b.Legacy(ctx.Pick(names, "task"), ctx.Choose(6, "upload"));
  } else if (form == 1) {
    b.Empty();
  } else {
    if (ctx.Flip("eligibility")) b.Eligibility();
    bool computed = false;
    if (ctx.Flip("several tasks")) {
      b.Multi();
      int n = ctx.Choose(3, "tasks");
      for (int i = 0; i < n; ++i) b.Task(ctx.Pick(names, "task"), ctx.Choose(ctx.thorough() ? 6 : 3, "upload"));
      computed = n > 0;
    }
    int checkin = ctx.Choose(3, "check-in");
    if (checkin == 1) b.Checkin("");
    if (checkin == 2) {
      std::string task = ctx.Pick(names, "task");
      b.Checkin(task);
      if (ctx.Flip("computed")) {
        b.Task(task, ctx.Choose(ctx.thorough() || !computed ? 6 : 3, "upload"));
        computed = true;
      }
    }
    if (b.s->phase_stats_size() == 0) ctx.Prune();
    if (!computed) b.Idle();
  }
  CheckAll(ctx, b, true);
}
// Several runs: the latest one that counts decides.
MC_SCENARIO(runs, {}) {
  Builder b;
  int n = 2;
  static const std::vector<std::string> names = {"a", "ab"};
  for (int i = 0; i < n; ++i) {
    int form = ctx.Choose(4, "form");
    b.Run(form == 3 ? false : ctx.Flip("separation index"));
    int uploads = ctx.thorough() ? 4 : 3;
    if (form == 0) b.Legacy(ctx.Pick(names, "task"), ctx.Choose(uploads, "upload"));
    if (form == 1) {
      std::string t = ctx.Pick(names, "task");
      b.Checkin(t);
      b.Task(t, ctx.Choose(uploads, "upload"));
    }
    if (form == 2) {
      b.Eligibility();
      b.Multi();
      int t = ctx.Choose(2, "task");
      b.Task(names[t], ctx.Choose(3, "upload"));
      if (ctx.thorough()) {
        b.Task(ctx.Pick(names, "task"), 1 + ctx.Choose(2, "upload"));
        if (ctx.Flip("then a check-in")) {
          b.Checkin("ab");
          b.Task("ab", 1);
        }
      } else {
        b.Task(names[1 - t], 1 + ctx.Choose(2, "upload"));
      }
    }
    if (form == 3) {
      b.Eligibility();
      b.Idle();
    }
  }
  CheckAll(ctx, b, false);
}
MC_SCENARIO(selection, {}) {
  mc::RecLog log;
  Logger logger;
  OpStatsExampleIteratorFactory factory(&logger, &log);
  ExampleSelector sel;
  static const std::vector<std::string> uris = {"internal:/opstats", "internal:/opstats2", "app:/opstats", "", "internal:/opstat"};
  int u = ctx.Choose((int)uris.size(), "collection");
  sel.set_collection_uri(uris[u]);
  int criteria = ctx.Choose(3, "criteria");
  if (criteria == 1) sel.mutable_criteria()->PackFrom(OperationalStats());
  if (criteria == 2) {
    sel.mutable_criteria()->PackFrom(OpStatsSelectionCriteria());
    sel.mutable_criteria()->set_value("\xff\xff\xff");
  }
  logger.db.fail = ctx.Flip("unreadable");
  ctx.Eq(factory.CanHandle(sel), u == 0, "handles");
  auto r = factory.CreateExampleIterator(sel);
  ctx.Step("iterator");
  absl::StatusCode want = u || criteria ? absl::StatusCode::kInvalidArgument : logger.db.fail ? absl::StatusCode::kInternal : absl::StatusCode::kOk;
  ctx.Check(r.status().code() == want, "status " + r.status().ToString());
}
static int init = (mc::Rule("answers follow from the list of what each task of each run did"), mc::Assumption("entries come in order of time"), 0);
