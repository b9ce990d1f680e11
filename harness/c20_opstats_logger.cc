// C20: one run leaves exactly one entry with what was recorded.
#include <memory>

#include "common/client_fakes.h"
#include "common/mc.h"
#include "common/vclock.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "google/protobuf/util/time_util.h"

using fcp::client::NetworkStats;
using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::OpStatsDb;
using fcp::client::opstats::OpStatsLoggerImpl;
using fcp::client::opstats::OpStatsSequence;
using Ev = OperationalStats::Event;
using Ph = OperationalStats::PhaseStats;

namespace {
struct Store {
  OpStatsSequence data;
  bool fail = false;
  int transforms = 0;
};
class FakeDb : public OpStatsDb {
 public:
  explicit FakeDb(std::shared_ptr<Store> s) : s_(s) {}
  absl::StatusOr<OpStatsSequence> Read() override { return s_->data; }
  absl::Status Transform(std::function<void(OpStatsSequence&)> f) override {
    ++s_->transforms;
    if (s_->fail) return absl::InternalError("disk full");
    OpStatsSequence copy = s_->data;
    f(copy);
    s_->data = copy;
    return absl::OkStatus();
  }
  std::shared_ptr<Store> s_;
};

// Reference: plain fields.
struct RefDataset {
  int64_t n = 0, b = 0;
  int64_t first = -1;
};
struct RefPart {
  int phase = 0;
  std::string task, error;
  std::vector<int> events;
  std::map<std::string, RefDataset> ds;
  int64_t down = 0, up = 0;
  int64_t dur_ms = 0;
};
struct Ref {
  bool use_phases;
  RefPart top;
  std::vector<RefPart> done;
  RefPart cur;  // phase != 0: active
  std::map<std::string, int64_t> first;
  int64_t acc_down = 0, acc_up = 0, acc_ms = 0;
  int64_t min_sep = -1;
  int64_t retry = -1;
  RefPart& P() { return use_phases && cur.phase ? cur : top; }
};
std::string Show(const RefPart& p, bool top) {
  std::string s = "phase" + std::to_string(p.phase) + " task=" + p.task + " err=" + p.error + " ev=";
  for (int e : p.events) s += std::to_string(e) + ",";
  for (auto& [k, d] : p.ds)
    s += " ds:" + k + "=" + std::to_string(d.n) + "/" + std::to_string(d.b) + "@" + std::to_string(d.first);
  s += " net=" + std::to_string(p.down) + "/" + std::to_string(p.up) + "/" + std::to_string(p.dur_ms);
  return s;
}
template <typename M>
std::string ShowDs(const M& m) {
  std::map<std::string, std::string> o;
  for (auto& [k, d] : m)
    o[k] = " ds:" + k + "=" + std::to_string(d.num_examples_read()) + "/" + std::to_string(d.num_bytes_read()) + "@" +
           (d.has_first_access_timestamp() ? std::to_string(d.first_access_timestamp().seconds()) : "-1");
  std::string s;
  for (auto& [k, v] : o) s += v;
  return s;
}
template <typename E>
std::string ShowEv(const E& es) {
  std::string s;
  for (auto& e : es) s += std::to_string(e.event_type()) + ",";
  return s;
}
int64_t Ms(const google::protobuf::Duration& d) { return d.seconds() * 1000 + d.nanos() / 1000000; }
std::string ShowProto(const OperationalStats& o) {
  std::string s = "session=" + o.session_name() + " pop=" + o.population_name() + " minsep=" +
                  (o.has_min_sep_policy_index() ? std::to_string(o.min_sep_policy_index()) : "-1") + " retry=" +
                  (o.has_retry_window() ? std::to_string(o.retry_window().delay_min().seconds()) + "," +
                                              o.retry_window().retry_token()
                                        : "-1");
  s += "\n phase0 task=" + o.task_name() + " err=" + o.error_message() + " ev=" + ShowEv(o.events()) +
       ShowDs(o.dataset_stats()) + " net=" + std::to_string(o.chunking_layer_bytes_downloaded()) + "/" +
       std::to_string(o.chunking_layer_bytes_uploaded()) + "/" + std::to_string(Ms(o.network_duration()));
  for (auto& p : o.phase_stats()) {
    s += "\n phase" + std::to_string(p.phase()) + " task=" + p.task_name() + " err=" + p.error_message() +
         " ev=" + ShowEv(p.events()) + ShowDs(p.dataset_stats()) + " net=" + std::to_string(p.bytes_downloaded()) +
         "/" + std::to_string(p.bytes_uploaded()) + "/" + std::to_string(Ms(p.network_duration()));
  }
  return s;
}
std::string ShowRef(const Ref& r) {
  std::string s = "session=S pop=P minsep=" + std::to_string(r.min_sep) + " retry=" +
                  (r.retry < 0 ? "-1" : std::to_string(r.retry) + ",");
  s += "\n " + Show(r.top, true);
  for (auto& p : r.done) s += "\n " + Show(p, false);
  if (r.use_phases && r.cur.phase) s += "\n " + Show(r.cur, false);
  return s;
}

enum Op {
  kEvent, kTask, kError, kDataset, kStart1, kStop, kCommit, kCommitFail, kNet, kStart2,
  kDatasetB, kFirst, kRetry, kMinSep, kWipe, kNumOps
};

void Run(mc::Ctx& ctx, const std::vector<int>& ops, int depth, bool start_late) {
  auto store = std::make_shared<Store>();
  mc::RecLog log;
  mc::TestFlags flags;
  flags.phase_stats = !ctx.Flip("without phases");
  int others = ctx.Choose(2, "earlier runs") * 2;
  std::string before;
  for (int i = 0; i < others; ++i) {
    auto* o = store->data.add_opstats();
    o->set_session_name("other" + std::to_string(i));
    o->add_events()->set_event_type(Ev::EVENT_KIND_CHECKIN_STARTED);
  }
  Ref r;
  r.use_phases = flags.phase_stats;
  bool committed = false;
  std::string stored;  // what the last successful commit must have stored
  int64_t n = 0, net = 0;
  bool wiped = false;
  auto check = [&] {
    int base = wiped ? 0 : others;
    ctx.Eq(store->data.opstats_size(), base + (committed ? 1 : 0), "number of stored entries");
    for (int i = 0; i < base; ++i) {
      ctx.Eq(store->data.opstats(i).session_name(), "other" + std::to_string(i), "an earlier run's entry");
      ctx.Eq(store->data.opstats(i).events_size(), 1, "an earlier run's entry");
    }
    if (committed) ctx.Eq(ShowProto(store->data.opstats(base)), stored, "stored entry");
  };
  {
    OpStatsLoggerImpl l(std::make_unique<FakeDb>(store), &log, &flags, "S", "P");
    if (start_late) {
      // A run that is well under way: a finished phase and an open one.
      l.StartLoggingForPhase(Ph::ELIGIBILITY_EVAL_CHECKIN);
      l.AddEvent(Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED);
      l.StopLoggingForTheCurrentPhase();
      l.StartLoggingForPhase(Ph::CHECKIN);
      if (r.use_phases) {
        RefPart p;
        p.phase = Ph::ELIGIBILITY_EVAL_CHECKIN;
        p.events = {Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED};
        r.done.push_back(p);
        r.cur.phase = Ph::CHECKIN;
      } else {
        r.top.events = {Ev::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED};
      }
    }
    for (int d = 0; d < depth; ++d) {
      int op = ops[ctx.Choose((int)ops.size(), "op")];
      ++n;
      switch (op) {
        case kEvent: {
          int e = n % 2 ? Ev::EVENT_KIND_CHECKIN_STARTED : Ev::EVENT_KIND_COMPUTATION_FINISHED;
          l.AddEvent((Ev::EventKind)e);
          r.P().events.push_back(e);
          break;
        }
        case kTask: {
          std::string t = "task" + std::to_string(n);
          l.AddEventAndSetTaskName(t, Ev::EVENT_KIND_CHECKIN_ACCEPTED);
          r.P().events.push_back(Ev::EVENT_KIND_CHECKIN_ACCEPTED);
          r.P().task = t;
          break;
        }
        case kError: {
          std::string m = "error" + std::to_string(n);
          l.AddEventWithErrorMessage(Ev::EVENT_KIND_CHECKIN_ERROR_IO, m);
          r.P().events.push_back(Ev::EVENT_KIND_CHECKIN_ERROR_IO);
          if (r.P().error.empty()) r.P().error = m;
          break;
        }
        case kDataset:
        case kDatasetB: {
          std::string c = op == kDataset ? "app:/a" : "app:/b";
          l.UpdateDatasetStats(c, n, 10 * n);
          auto& ds = r.P().ds[c];
          ds.n += n;
          ds.b += 10 * n;
          if (r.first.count(c)) ds.first = r.first[c];
          break;
        }
        case kFirst:
          l.RecordCollectionFirstAccessTime("app:/a", absl::FromUnixSeconds(1000 + n));
          if (!r.first.count("app:/a")) r.first["app:/a"] = 1000 + n;
          break;
        case kStart1:
        case kStart2: {
          auto ph = op == kStart1 ? Ph::COMPUTATION : Ph::UPLOAD;
          l.StartLoggingForPhase(ph);
          if (r.use_phases) {
            if (r.cur.phase) r.done.push_back(r.cur);
            r.cur = RefPart();
            r.cur.phase = ph;
          }
          break;
        }
        case kStop:
          l.StopLoggingForTheCurrentPhase();
          if (r.use_phases && r.cur.phase) {
            r.done.push_back(r.cur);
            r.cur = RefPart();
          }
          break;
        case kNet: {
          net += 100 + n;
          NetworkStats s{net, 2 * net, absl::Milliseconds(net)};
          l.SetNetworkStats(s);
          if (r.use_phases && r.cur.phase) {
            r.cur.down += net - r.acc_down;
            r.cur.up += 2 * net - r.acc_up;
            r.cur.dur_ms += net - r.acc_ms;
            r.acc_down = net;
            r.acc_up = 2 * net;
            r.acc_ms = net;
          } else {
            r.top.down = net;
            r.top.up = 2 * net;
            r.top.dur_ms = net;
          }
          break;
        }
        case kRetry: {
          google::internal::federatedml::v2::RetryWindow w;
          w.set_retry_token("secret");
          w.mutable_delay_min()->set_seconds(n);
          l.SetRetryWindow(w);
          r.retry = n;
          break;
        }
        case kMinSep:
          l.SetMinSepPolicyIndex(n);
          r.min_sep = n;
          break;
        case kWipe:  // retention dropped the whole history
          store->data.clear_opstats();
          wiped = true;
          committed = false;
          break;
        case kCommit:
        case kCommitFail: {
          store->fail = op == kCommitFail;
          absl::Status s = l.CommitToStorage();
          ctx.Eq(s.ok(), op == kCommit, "commit status");
          if (op == kCommit) {
            committed = true;
            stored = ShowRef(r);
          }
          break;
        }
      }
      ctx.Step("op " + std::to_string(op));
      check();
      // The task currently executing.
      std::string want;
      if (r.use_phases) {
        want = r.cur.task;
        for (int i = (int)r.done.size() - 1; i >= 0 && want.empty(); --i) want = r.done[i].task;
      } else {
        want = r.top.task;
      }
      ctx.Eq(l.GetCurrentTaskName(), want, "current task name");
      ctx.State(ShowRef(r) + std::to_string(committed) + std::to_string(wiped));
    }
    store->fail = ctx.Flip("final commit fails");
    if (!store->fail) {
      committed = true;
      stored = ShowRef(r);
    }
  }
  check();
  if (committed) {
    // Time stamps never go backwards.
    auto& o = store->data.opstats(store->data.opstats_size() - 1);
    auto mono = [&](const auto& es) {
      for (int i = 1; i < es.size(); ++i) {
        ctx.Check(google::protobuf::util::TimeUtil::TimestampToNanoseconds(es.Get(i - 1).timestamp()) <=
                      google::protobuf::util::TimeUtil::TimestampToNanoseconds(es.Get(i).timestamp()),
                  "event times go backwards");
      }
      for (auto& e : es) ctx.Check(e.timestamp().seconds() > 1600000000, "event without time");
    };
    mono(o.events());
    for (auto& p : o.phase_stats()) mono(p.events());
  }
  ctx.Outcome(committed ? "stored" : "nothing stored");
}
}  // namespace

MC_SCENARIO(all_operations, {}) {
  std::vector<int> ops;
  for (int i = 0; i < kNumOps; ++i) ops.push_back(i);
  Run(ctx, ops, ctx.thorough() ? 5 : 4, false);
}
MC_SCENARIO(commits_and_phases, {}) {
  Run(ctx, {kEvent, kStart1, kStop, kCommit, kCommitFail, kNet, kTask}, ctx.thorough() ? 7 : 6, false);
}
MC_SCENARIO(from_a_run_under_way, {}) {
  Run(ctx, {kEvent, kError, kDataset, kFirst, kStart2, kStop, kCommit, kCommitFail, kNet, kTask}, ctx.thorough() ? 5 : 4,
      true);
}
static int init = (mc::Rule("Every operation sequence up to the depth, each commit succeeding or failing, with and "
                            "without phases and earlier runs; entry compared with a reference after each step."),
                   0);
