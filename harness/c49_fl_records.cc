// C49: what a federated run publishes and records about itself.
#include <fstream>

#include "common/flworld.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"

namespace {
std::string Show(const std::vector<flw::Pub>& v, bool text) {
  std::string s;
  for (auto& p : v) s += p.Str(text) + "\n";
  return s;
}
std::string Show(const std::vector<flw::Part>& v) {
  std::string s;
  for (auto& p : v) {
    s += "phase " + std::to_string(p.phase) + " task='" + p.task + "' error=" + (p.error.empty() ? "no" : "yes") + ":";
    for (int e : p.events) s += " " + flw::Ev::EventKind_Name(flw::Ev::EventKind(e));
    for (auto& [uri, d] : p.data)
      if (d.first) s += " " + uri + "=" + std::to_string(d.first) + "@" + std::to_string(d.second);
    s += "\n";
  }
  return s;
}
// "!text" stands for anything that does not say so.
bool Tells(const std::string& got, const std::string& want) {
  return want[0] == '!' ? got.find(want.substr(1)) == std::string::npos : got.find(want) != std::string::npos;
}
void Decide(mc::Ctx& ctx, const flw::Script& s) {
  flw::Model m(s);
  m.Run();
  flw::World w(ctx, s);
  flw::Seen& seen = w.Run();
  ctx.Eq(Show(seen.pubs, false), Show(m.pubs, false), "published events");
  for (size_t i = 0; i < m.pubs.size(); ++i)
    ctx.Check(Tells(seen.pubs[i].text, m.pubs[i].text),
              "published text '" + seen.pubs[i].text + "' does not tell of '" + m.pubs[i].text + "'");
  ctx.Eq(Show(seen.parts), Show(m.parts), "recorded phases");
  for (size_t i = 0; i < m.parts.size(); ++i)
    ctx.Check(m.parts[i].error == "computation" || Tells(seen.parts[i].error, m.parts[i].error),
              "recorded text '" + seen.parts[i].error + "' does not tell of '" + m.parts[i].error + "'");
  ctx.Eq(seen.down, m.down, "recorded bytes received");
  ctx.Eq(seen.up, m.up, "recorded bytes sent");
  ctx.Eq(seen.retry_min, m.retry_min, "recorded retry window");
  ctx.Eq(seen.min_sep, m.min_sep, "recorded separation index");
  ctx.Eq(seen.entries, 1, "entries added to the history");
  ctx.Outcome(m.pubs.empty() ? "" : m.pubs.back().what + " after " + std::to_string(m.pubs.size()));
}
}  // namespace
MC_SCENARIO(single, {}) { Decide(ctx, flw::ScriptSingle(ctx)); }
MC_SCENARIO(several, {}) { Decide(ctx, flw::ScriptSeveral(ctx)); }
MC_SCENARIO(one_of_several, {}) { Decide(ctx, flw::ScriptOneOfSeveral(ctx)); }
MC_SCENARIO(eligibility, {}) { Decide(ctx, flw::ScriptEligibility(ctx)); }
MC_SCENARIO(context, {}) { Decide(ctx, flw::ScriptContext(ctx)); }
// How a run begins: the history, the cache, the entry point.
namespace {
class Beginning : public fcp::client::SimpleTaskEnvironment, public fcp::client::Files {
 public:
  std::string GetBaseDir() override { return base; }
  std::string GetCacheDir() override { return cache; }
  absl::StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> CreateExampleIterator(const flw::ExampleSelector&) override {
    return absl::InternalError("unused");
  }
  absl::StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> CreateExampleIterator(const flw::ExampleSelector&,
                                                                                      const flw::SelectorContext&) override {
    return absl::InternalError("unused");
  }
  absl::StatusOr<std::string> CreateTempFile(const std::string&, const std::string&) override {
    return absl::InternalError("unused");
  }
  bool TrainingConditionsSatisfied() override { return false; }
  std::string base, cache;
};
class BeginFlags : public mc::TestFlags {
 public:
  int64_t max_resource_cache_size_bytes() const override { return cache; }
  bool resource_cache_initialization_error_is_fatal() const override { return fatal; }
  bool enable_federated_select() const override { return select; }
  int64_t cache = 0;
  bool fatal = false, select = false;
};
}  // namespace
MC_SCENARIO(beginning, {}) {
  mc::WipeScratch();
  mc::UseVirtualTime(absl::FromUnixSeconds(1700000000));
  std::ofstream(mc::Scratch() + "/file") << "in the way";
  const std::string dirs[] = {mc::Scratch() + "/dir", mc::Scratch() + "/file", "relative"};
  std::string earlier;
  Beginning env;
  BeginFlags flags;
  mc::RecLog log;
  int base = ctx.Choose(3, "history"), cache = ctx.Choose(3, "cache");
  env.base = dirs[base];
  env.cache = cache ? dirs[cache] : mc::Scratch() + "/cache";
  flags.cache = ctx.Flip("cache wanted") ? 1000 : 0;
  flags.fatal = ctx.Flip("cache needed");
  flags.select = ctx.Flip("slices");
  flags.phase_stats = !ctx.Flip("no phases");
  bool past = base == 0 && ctx.Flip("earlier run");
  struct {
    const char* uri;
    bool ok;
  } uris[] = {{"https://server", true},           {"http://localhost:1", true}, {"http://server", false}, {"", false},
              {"ftp://https://server", false},    {"server", false},            {"HTTPS://server", false}, {" https://server", false},
              {"http:///localhost", false}};
  auto& uri = uris[ctx.Choose(sizeof(uris) / sizeof(*uris), "entry point")];
  if (past) {
    fcp::client::opstats::OpStatsLoggerImpl l(*fcp::client::opstats::PdsBackedOpStatsDb::Create(env.base, absl::Hours(1), log, 1 << 20),
                                              &log, &flags, "earlier", "population");
    l.AddEvent(flw::Ev::EVENT_KIND_CHECKIN_STARTED);
  }
  std::vector<flw::Pub> pubs;
  flw::Publisher pub(&pubs);
  auto r = fcp::client::RunFederatedComputation(&env, &pub, &env, &log, &flags, uri.uri, "key", "", "session", "population", "retry",
                                                "version", "measurement");
  // A run without history goes on; one without its cache only if it may.
  std::vector<std::string> want;
  std::vector<int> events;
  bool cache_fails = flags.cache && (base || cache), over = cache_fails && flags.fatal;
  if (base) want.push_back("NonfatalInitializationError");
  if (cache_fails) {
    want.push_back(over ? "FatalInitializationError" : "NonfatalInitializationError");
    events.push_back(over ? flw::Ev::EVENT_KIND_INITIALIZATION_ERROR_FATAL : flw::Ev::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL);
  }
  if (!over && uri.ok) {
    want.push_back("TaskNotStarted");
    events.push_back(flw::Ev::EVENT_KIND_TRAIN_NOT_STARTED);
  }
  std::vector<std::string> got;
  for (auto& p : pubs) got.push_back(p.what);
  ctx.Eq(flw::Join(got), flw::Join(want), "published events");
  std::string result = !r.ok() ? "error" : fcp::client::FLRunnerResult::ContributionResult_Name(r->contribution_result());
  ctx.Eq(result, over || !uri.ok ? "error" : "FAIL", "result of the run");
  if (!over && !uri.ok) ctx.Check(r.status().code() == absl::StatusCode::kInvalidArgument, "an unusable entry point was not named as such");
  if (base == 0) {
    auto db = fcp::client::opstats::PdsBackedOpStatsDb::Create(env.base, absl::Hours(1), log, 1 << 20);
    ctx.Check(db.ok(), "the history is still locked after the run");
    auto h = (*db)->Read();
    ctx.Check(h.ok() && h->opstats_size() == 1 + past, "entries in the history");
    if (past) ctx.Eq(h->opstats(0).session_name(), std::string("earlier"), "first entry");
    auto& e = h->opstats(past);
    std::string have, should;
    for (auto& x : e.events()) have += flw::Ev::EventKind_Name(x.event_type()) + " ";
    for (int x : events) should += flw::Ev::EventKind_Name(flw::Ev::EventKind(x)) + " ";
    ctx.Eq(have, should, "recorded events");
    ctx.Check(e.session_name() == "session" && e.population_name() == "population" && e.phase_stats_size() == 0, "entry of the run");
    ctx.Check(e.error_message().empty() == events.empty(), "recorded error");
  }
  ctx.Outcome(flw::Join(got) + result);
  mc::UseRealTime();
}
static int init =
    (mc::Rule("the published events with model, traffic, duration and number of examples, and the recorded phases with task, "
              "events and error, are exactly those of a plain reference, in which every activity costs an amount that "
              "identifies it"),
     mc::Assumption("the plan engine for TensorFlow computations is scripted; example queries run on the real one"), 0);
