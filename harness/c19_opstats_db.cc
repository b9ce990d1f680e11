// C19: the store of the operational history.
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

#include "common/client_fakes.h"
#include "common/fsfault.h"
#include "common/mc.h"
#include "common/vclock.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"
#include "google/protobuf/util/time_util.h"

namespace fs = std::filesystem;
using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::OpStatsDb;
using fcp::client::opstats::OpStatsSequence;
using fcp::client::opstats::PdsBackedOpStatsDb;
namespace {
constexpr int64_t kStart = 1700000000;
constexpr int64_t kTtl = 1000;
struct Kept {
  std::string name, bytes;
  int64_t last;  // -1: no events
};
std::string Ser(const google::protobuf::MessageLite& m) { return m.SerializeAsString(); }
int64_t Now() { return absl::ToUnixSeconds(absl::Now()); }
// Kinds of entries: 0 events at the top, 1 events in phases, 2 the last phase
// without events, 3 none at all.
OperationalStats Entry(int number, int kind, int size) {
  OperationalStats s;
  s.set_session_name("session " + std::to_string(number));
  s.set_population_name(std::string(size, 'p'));
  auto event = [](auto* e, int64_t t) {
    e->set_event_type(OperationalStats::Event::EVENT_KIND_CHECKIN_STARTED);
    e->mutable_timestamp()->set_seconds(t);
  };
  if (kind == 0) {
    event(s.add_events(), Now() - 1);
    event(s.add_events(), Now());
  }
  if (kind == 1 || kind == 2) {
    auto* p = s.add_phase_stats();
    p->set_phase(OperationalStats::PhaseStats::CHECKIN);
    event(p->add_events(), Now() - 1);
    if (kind == 1) {
      p = s.add_phase_stats();
      p->set_phase(OperationalStats::PhaseStats::COMPUTATION);
      event(p->add_events(), Now());
    } else {
      event(p->add_events(), Now());
      s.add_phase_stats()->set_phase(OperationalStats::PhaseStats::COMPUTATION);
    }
  }
  return s;
}
struct World {
  mc::Ctx& ctx;
  mc::RecLog log;
  std::string base = mc::Scratch();
  int64_t max;
  std::unique_ptr<OpStatsDb> db;
  std::vector<Kept> want;
  int64_t earliest = 0, lost = 0;  // the latest update of anything dropped
  int number = 0;

  World(mc::Ctx& c, int64_t m) : ctx(c), max(m) {
    mc::WipeScratch();
    mc::UseVirtualTime(absl::FromUnixSeconds(kStart));
    earliest = kStart;
  }
  ~World() { mc::UseRealTime(); }
  absl::Status Open() {
    db.reset();
    auto r = PdsBackedOpStatsDb::Create(base, absl::Seconds(kTtl), log, max);
    if (r.ok()) db = std::move(*r);
    return r.status();
  }
  void MustOpen() {
    absl::Status s = Open();
    ctx.Step("open");
    ctx.Check(s.ok(), "cannot be opened: " + s.ToString());
  }
  static int64_t LastUpdate(int kind) { return kind == 3 ? -1 : Now(); }
  // Checks what is stored against `want`; if `may_prune`, entries may be
  // missing from the front.
  void CheckStored(const OpStatsSequence& data, bool pruned_ok) {
    size_t n = data.opstats_size();
    ctx.Check(n <= want.size(), "entries that were never stored");
    size_t gone = want.size() - n;
    for (size_t i = 0; i < n; ++i) {
      ctx.Check(Ser(data.opstats(i)) == want[gone + i].bytes, "entry " + std::to_string(i) + " is not " + want[gone + i].name);
    }
    if (gone) {
      ctx.Check(pruned_ok, "an entry was dropped");
      OpStatsSequence more = data;
      more.mutable_opstats()->Clear();
      for (size_t i = gone - 1; i < want.size(); ++i) more.add_opstats()->ParseFromString(want[i].bytes);
      // The accounting of the code is a little conservative.
      ctx.Check((int64_t)more.ByteSizeLong() + 4 * (int64_t)gone + 8 > max, "an entry was dropped although there was room");
      for (size_t i = 0; i < gone; ++i) lost = std::max(lost, want[i].last);
      want.erase(want.begin(), want.begin() + gone);
      ctx.Outcome("pruned");
    }
    ctx.Check((int64_t)data.ByteSizeLong() <= max + 16 || n == 0, "the history takes " + std::to_string(data.ByteSizeLong()) + " bytes");
    int64_t e = data.earliest_trustworthy_time().seconds();
    ctx.Check(data.has_earliest_trustworthy_time(), "no earliest trustworthy time");
    ctx.Check(e >= lost, "history is claimed since " + std::to_string(e - kStart) + " but an entry of " + std::to_string(lost - kStart) + " was dropped");
    ctx.Check(e >= earliest, "the earliest trustworthy time went back");
    ctx.Check(e <= Now(), "the earliest trustworthy time is in the future");
    if (e > earliest) ctx.Check(lost_something, "the earliest trustworthy time moved although nothing was dropped");
    for (auto& w : want) {
      if (w.last >= 0) {
        ctx.Check(e <= w.last, "an entry that is kept is not covered by the earliest trustworthy time");
        break;
      }
    }
    earliest = e;
  }
  bool lost_something = false;
  void Expire() {
    for (auto it = want.begin(); it != want.end();) {
      if (it->last < Now() - kTtl) {
        lost_something = true;
        lost = std::max(lost, it->last);
        it = want.erase(it);
        ctx.Outcome("expired");
      } else {
        ++it;
      }
    }
  }
  void Add(int kind, int size) {
    OperationalStats e = Entry(++number, kind, size);
    int64_t before_size = -1;
    bool too_big = false;
    absl::Status s = db->Transform([&](OpStatsSequence& d) {
      *d.add_opstats() = e;
      before_size = d.ByteSizeLong();
      too_big = before_size > max;
    });
    ctx.Step("add");
    ctx.Check(s.ok(), "not stored: " + s.ToString());
    ctx.Check(before_size >= 0, "the change was not applied");
    Expire();
    want.push_back({"entry " + std::to_string(number), Ser(e), LastUpdate(kind)});
    lost_something |= too_big;
    Look(too_big);
  }
  // Replaces the last entry, as the logger does on its second commit.
  void Replace(int kind, int size) {
    Expire();
    OperationalStats e = Entry(++number, kind, size);
    bool too_big = false;
    absl::Status s = db->Transform([&](OpStatsSequence& d) {
      if (d.opstats_size() > 0) *d.mutable_opstats(d.opstats_size() - 1) = e;
      too_big = (int64_t)d.ByteSizeLong() > max;
    });
    ctx.Step("replace");
    ctx.Check(s.ok(), "not stored: " + s.ToString());
    if (!want.empty()) want.back() = {"entry " + std::to_string(number), Ser(e), LastUpdate(kind)};
    lost_something |= too_big;
    Look(too_big);
  }
  void Look(bool pruned_ok) {
    auto r = db->Read();
    ctx.Check(r.ok(), "cannot be read: " + r.status().ToString());
    CheckStored(*r, pruned_ok);
    lost_something = false;
  }
};
}  // namespace

MC_SCENARIO(histories, {}) {
  World w(ctx, 150);
  w.MustOpen();
  w.Look(false);
  int depth = ctx.thorough() ? 6 : 5;
  for (int i = 0; i < depth; ++i) {
    mc::AdvanceVirtualTime(absl::Seconds(2));
    switch (ctx.Choose(10, "operation")) {
      case 0:
        w.Add(0, 2);
        break;
      case 1:
        w.Add(1, 2);
        break;
      case 2:
        w.Add(2, 10);
        break;
      case 3:
        w.Add(3, 2);
        break;
      case 4:
        w.Add(1, 60);
        break;
      case 5:
        w.Replace(1, 30);
        break;
      case 6:
        mc::AdvanceVirtualTime(absl::Seconds(500));
        break;
      case 7:
        mc::AdvanceVirtualTime(absl::Seconds(1001));
        break;
      case 8:
        w.MustOpen();
        w.Look(false);
        break;
      case 9:
        w.Add(0, 200);
        break;
    }
  }
  w.MustOpen();
  w.Look(false);
}
// Retention to the second.
MC_SCENARIO(retention, {}) {
  World w(ctx, 10000);
  w.MustOpen();
  w.Add(ctx.Choose(3, "first"), 2);
  int64_t wait = ctx.Pick(std::vector<int64_t>{0, 1, 2, 3}, "wait");
  mc::AdvanceVirtualTime(absl::Seconds(wait));
  w.Add(ctx.Choose(4, "second"), 2);
  mc::AdvanceVirtualTime(absl::Seconds(kTtl) + ctx.Pick(std::vector<absl::Duration>{absl::Seconds(-3), absl::Seconds(-2), absl::Seconds(-1), absl::Seconds(0), absl::Seconds(1), absl::Seconds(2)}, "wait"));
  w.Add(1, 2);
  mc::AdvanceVirtualTime(absl::Seconds(1));
  w.Add(0, 2);
}
// The size limit to the byte.
MC_SCENARIO(limit, {}) {
  World w(ctx, 60 + ctx.Choose(ctx.thorough() ? 200 : 120, "limit"));
  w.MustOpen();
  int kinds = ctx.Choose(2, "kinds");
  for (int i = 0; i < 4; ++i) {
    mc::AdvanceVirtualTime(absl::Seconds(2));
    w.Add(kinds ? 1 : i % 3, ctx.Pick(std::vector<int>{0, 20}, "size"));
  }
  w.MustOpen();
  w.Look(false);
}
// A damaged file is noticed, reported once and started over.
MC_SCENARIO(damage, {}) {
  World w(ctx, 10000);
  w.MustOpen();
  w.Add(0, 5);
  w.Add(1, 5);
  w.db.reset();
  std::string path = w.base + "/fcp/opstats/opstats.pb";
  std::ifstream f(path);
  std::string data((std::istreambuf_iterator<char>(f)), {});
  f.close();
  ctx.Check(!data.empty(), "no file at the documented place");
  if (ctx.Flip("cut")) {
    data.resize(ctx.Choose((int)data.size(), "cut at"));
  } else {
    data[ctx.Choose((int)data.size(), "byte")] ^= 0x21;
  }
  std::ofstream(path) << data;
  mc::AdvanceVirtualTime(absl::Seconds(10));
  w.MustOpen();
  w.lost = Now() - 10;
  w.want.clear();
  w.lost_something = true;
  if (ctx.Flip("read")) {
    auto r = w.db->Read();
    ctx.Step("read");
    if (r.ok()) {
      ctx.Check(data.empty(), "a damaged history was read");
      w.CheckStored(*r, false);
    } else {
      ctx.Check(r.status().code() == absl::StatusCode::kInternal, "wrong error");
      w.Look(false);
      ctx.Eq(w.earliest, Now(), "earliest trustworthy time after starting over");
    }
  }
  w.lost_something = true;
  w.Add(1, 5);
  w.MustOpen();
  w.Look(false);
}
// Never two owners.
MC_SCENARIO(owners, {}) {
  World w(ctx, 10000);
  w.MustOpen();
  w.Add(0, 3);
  mc::RecLog log;
  static const std::vector<std::string> kSpellings = {"", "/", "/.", "/../" };
  std::string spelling = ctx.Pick(kSpellings, "spelling");
  std::string base = w.base + spelling;
  if (spelling == "/../") base += fs::path(w.base).filename().string();
  int how = ctx.Choose(4, "how");
  if (how == 0) {
    // A second one while the first lives.
    auto r = PdsBackedOpStatsDb::Create(base, absl::Seconds(kTtl), log, 10000);
    ctx.Step("second");
    ctx.Check(!r.ok() && r.status().code() == absl::StatusCode::kInternal, "two owners");
    w.Look(false);
    // The failure has not released the first one's hold.
    auto r2 = PdsBackedOpStatsDb::Create(base, absl::Seconds(kTtl), log, 10000);
    ctx.Check(!r2.ok(), "two owners");
  } else if (how == 1) {
    w.db.reset();
    auto r = PdsBackedOpStatsDb::Create(base, absl::Seconds(kTtl), log, 10000);
    ctx.Step("second");
    ctx.Check(r.ok(), "not available after the owner is gone");
    auto d = (*r)->Read();
    ctx.Check(d.ok(), "cannot be read");
    w.CheckStored(*d, false);
  } else if (how == 2) {
    // Another process holds it.
    w.db.reset();
    int fd = open((w.base + "/fcp/opstats/opstats.pb").c_str(), O_RDWR);
    ctx.Check(fd >= 0 && flock(fd, LOCK_EX | LOCK_NB) == 0, "the file is still locked");
    auto r = PdsBackedOpStatsDb::Create(base, absl::Seconds(kTtl), log, 10000);
    ctx.Step("second");
    ctx.Check(!r.ok(), "opened although another process holds the file");
    close(fd);
    auto r2 = PdsBackedOpStatsDb::Create(base, absl::Seconds(kTtl), log, 10000);
    ctx.Check(r2.ok(), "not available after the other process let go");
  } else {
    // The owner keeps others out across processes.
    int fd = open((w.base + "/fcp/opstats/opstats.pb").c_str(), O_RDWR);
    ctx.Check(fd >= 0 && flock(fd, LOCK_EX | LOCK_NB) != 0, "the file is not locked");
    close(fd);
    w.Look(false);
    w.Add(1, 3);
  }
}
MC_SCENARIO(places, {}) {
  World w(ctx, 10000);
  mc::RecLog log;
  std::ofstream(w.base + "/file") << "x";
  int k = ctx.Choose(4, "where");
  static const char* kRel[] = {"relative", ""};
  std::string dir = k < 2 ? kRel[k] : k == 2 ? w.base + "/file" : w.base + "/new/deep";
  auto r = PdsBackedOpStatsDb::Create(dir, absl::Seconds(kTtl), log, 10000);
  ctx.Step("open");
  ctx.Eq(r.ok(), k == 3, "opened");
  if (k < 2) ctx.Check(r.status().code() == absl::StatusCode::kInvalidArgument, "wrong error");
  if (k == 2) ctx.Check(r.status().code() == absl::StatusCode::kInternal, "wrong error");
  ctx.Check(!fs::exists("relative") && !fs::exists("fcp/opstats"), "something was made in the working directory");
}

namespace {
int& Done() {
  static int* d = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return *d;
}
// A run of adds and re-opens; `stop` is asked after each operation.
void Run(World& w, const std::vector<int>& ops, std::vector<std::string>* added) {
  Done() = 0;
  if (!w.Open().ok()) return;
  for (size_t i = 0; i < ops.size(); ++i) {
    mc::AdvanceVirtualTime(absl::Seconds(2));
    if (ops[i] == 2) {
      if (!w.Open().ok()) return;
    } else {
      OperationalStats e = Entry(100 + i, ops[i], 5);
      if (added) added->push_back(Ser(e));
      if (!w.db->Transform([&](OpStatsSequence& d) { *d.add_opstats() = e; }).ok()) return;
    }
    Done() = i + 1;
  }
  Done() = 100;
}
std::vector<std::string> Calls(mc::Ctx& ctx, const std::vector<int>& ops) {
  World w(ctx, 10000);
  mcfs::Start(w.base, mcfs::Mode::kRecord);
  Run(w, ops, nullptr);
  std::vector<std::string> calls = mcfs::Log();
  mcfs::Stop();
  ctx.Step("run");
  ctx.Check(Done() == 100, "failed without a fault");
  return calls;
}
// What the entries would have been.
std::vector<std::pair<int, std::string>> Entries(const std::vector<int>& ops) {
  std::vector<std::pair<int, std::string>> out;
  mc::UseVirtualTime(absl::FromUnixSeconds(kStart));
  for (size_t i = 0; i < ops.size(); ++i) {
    mc::AdvanceVirtualTime(absl::Seconds(2));
    if (ops[i] != 2) out.emplace_back(i, Ser(Entry(100 + i, ops[i], 5)));
  }
  return out;
}
// The history has to be a prefix of the run up to an operation between
// `done` and `tried`, or have been started over.
void CheckAfter(mc::Ctx& ctx, World& w, const std::vector<int>& ops, int done, bool reopen) {
  auto entries = Entries(ops);
  mc::SetVirtualTime(absl::FromUnixSeconds(kStart + 100));
  if (reopen) {
    absl::Status s = w.Open();
    ctx.Step("open");
    ctx.Check(s.ok(), "cannot be opened: " + s.ToString());
  }
  std::vector<std::string> without, with;
  for (auto& [i, e] : entries) {
    if (i < done) without.push_back(e);
    if (i <= done) with.push_back(e);
  }
  auto r = w.db->Read();
  ctx.Step("read");
  bool reported = !r.ok();
  if (reported) {
    r = w.db->Read();
    ctx.Check(r.ok(), "cannot be read after starting over: " + r.status().ToString());
  }
  std::vector<std::string> got;
  for (auto& s : r->opstats()) got.push_back(Ser(s));
  int64_t e = r->earliest_trustworthy_time().seconds();
  if (!reported && (got == without || got == with) && e == kStart) {
    ctx.Outcome(got == with && with != without ? "new history" : "previous history");
  } else {
    ctx.Check(got.empty(), "neither the previous nor the new history nor an empty one");
    ctx.Check(e >= kStart + 2 * done, "started over, but history is claimed since " + std::to_string(e - kStart));
    ctx.Outcome("started over");
  }
  // And it can be used.
  OperationalStats more = Entry(7, 1, 5);
  absl::Status s = w.db->Transform([&](OpStatsSequence& d) { *d.add_opstats() = more; });
  ctx.Check(s.ok(), "cannot be written any more: " + s.ToString());
  got.push_back(Ser(more));
  ctx.Check(w.Open().ok(), "cannot be opened");
  r = w.db->Read();
  ctx.Check(r.ok() && r->opstats_size() == (int)got.size(), "an entry was lost");
  for (size_t i = 0; i < got.size(); ++i) ctx.Check(Ser(r->opstats(i)) == got[i], "an entry changed");
}
}  // namespace

MC_SCENARIO(crash, {}) {
  std::vector<int> ops;
  int n = ctx.thorough() ? 4 : 3;
  for (int i = 0; i < n; ++i) ops.push_back(ctx.Choose(3, "operation"));
  std::vector<std::string> calls = Calls(ctx, ops);
  int at = ctx.Choose((int)calls.size(), "crash at call");
  int variant = calls[at].find("write") != std::string::npos ? 2 * ctx.Choose(2, "half-way") : at + 1 == (int)calls.size() ? ctx.Choose(2, "after") : 0;
  World w(ctx, 10000);
  bool crashed = mcfs::RunAndCrash(w.base, at, variant, [&] { Run(w, ops, nullptr); });
  ctx.Check(crashed, "the crash point was not reached");
  ctx.Step("run");
  CheckAfter(ctx, w, ops, Done(), true);
}
MC_SCENARIO(faults, {}) {
  std::vector<int> ops;
  int n = ctx.thorough() ? 4 : 3;
  for (int i = 0; i < n; ++i) ops.push_back(ctx.Choose(3, "operation"));
  std::vector<std::string> calls = Calls(ctx, ops);
  int at = ctx.Choose((int)calls.size(), "failing call");
  static const std::vector<int> kinds = {0, 2, 1, 3};
  int variant = kinds[ctx.Choose(calls[at].find("write") != std::string::npos ? 4 : 2, "kind of failure")];
  World w(ctx, 10000);
  mcfs::Start(w.base, mcfs::Mode::kFault, at, variant);
  Run(w, ops, nullptr);
  mcfs::Stop();
  ctx.Step("run");
  int done = Done();
  if (done == 100) {
    // A short write that was carried on, or a failure that did not matter.
    ctx.Outcome("succeeded");
    CheckAfter(ctx, w, ops, 100, true);
  } else {
    CheckAfter(ctx, w, ops, done, w.db == nullptr || ctx.Flip("reopened"));
  }
}
static int init = (mc::Rule("the history is what was stored, minus entries past the retention time and the oldest ones beyond the size limit; the earliest trustworthy time covers no dropped entry and all kept ones; one owner at a time"),
                   mc::Assumption("the store below is a stand-in that detects damage, as the real one does"), 0);
