// C17: the resource cache across crashes and I/O failures.
#include <sys/mman.h>

#include <filesystem>
#include <fstream>
#include <map>
#include <set>

#include "absl/status/status.h"
#include "common/client_fakes.h"
#include "common/fsfault.h"
#include "common/mc.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/cache/file_backed_resource_cache.h"
#include "google/protobuf/any.pb.h"

namespace fs = std::filesystem;
using fcp::client::cache::FileBackedResourceCache;
namespace {
struct Op {
  enum { kPut, kGet, kOpen, kExtend } kind;
  std::string id;
  int size = 0;
};
const std::vector<Op> kOps = {
    {Op::kPut, "a", 30}, {Op::kPut, "b", 40}, {Op::kPut, "a", 50}, {Op::kGet, "a"}, {Op::kOpen, ""}, {Op::kPut, "c", 50},
    {Op::kExtend, "b"},
};
const std::vector<std::string> kIds = {"a", "b", "c", "d"};
std::string Bytes(int version, int size) {
  std::string s;
  for (int i = 0; i < size; ++i) s += (char)(version * 64 + i);
  return s;
}
struct World {
  mc::RecLog log;
  fcp::SimulatedClock clock{absl::FromUnixSeconds(1700000000)};
  std::string base = mc::Scratch(), dir = base + "/cache/fcp/cache";
  int64_t max;
  std::unique_ptr<FileBackedResourceCache> cache;

  explicit World(int64_t m) : max(m) {
    fs::create_directories(base + "/base");
    fs::create_directories(base + "/cache");
  }
  absl::Status Open() {
    cache.reset();
    auto r = FileBackedResourceCache::Create(base + "/base", base + "/cache", &log, &clock, max);
    if (r.ok()) cache = std::move(*r);
    return r.status();
  }
  absl::Status Put(const std::string& id, int version, int size) {
    google::protobuf::Any meta;
    meta.set_value("meta " + std::to_string(version));
    return cache->Put(id, absl::Cord(Bytes(version, size)), meta, absl::Seconds(1000));
  }
  int64_t Total() {
    int64_t t = 0;
    for (auto& f : fs::directory_iterator(dir)) t += fs::file_size(f.path());
    return t;
  }
};
// What Get may return: per identifier the versions, with their sizes.
struct Model {
  std::map<std::string, std::map<int, int>> may;
  std::set<std::string> must;  // identifiers that have to be found
  void Begin(const std::string& id, int version, int size) { may[id][version] = size; }
  void Done(const std::string& id, int version, int size) {
    may[id].clear();
    may[id][version] = size;
    must.insert(id);
  }
};
void CheckGet(mc::Ctx& ctx, World& w, Model& m, const std::string& id, const std::string& when) {
  auto r = w.cache->Get(id, std::nullopt);
  ctx.Step("get");
  if (!r.ok()) {
    ctx.Check(r.status().code() == absl::StatusCode::kNotFound, when + ": getting " + id + " fails: " + r.status().ToString());
    ctx.Check(!m.must.count(id), when + ": " + id + " was stored and is gone");
    m.may[id].clear();
    return;
  }
  std::string got(r->resource);
  for (auto& [v, size] : m.may[id]) {
    if (got == Bytes(v, size) && r->metadata.value() == "meta " + std::to_string(v)) {
      int vv = v, ss = size;
      m.may[id].clear();
      m.may[id][vv] = ss;
      ctx.Outcome(when + " found");
      return;
    }
  }
  ctx.Fail(when + ": " + id + " returns " + mc::Hex(got) + " with " + r->metadata.value() + ", which was not stored under it");
}
void CheckUsable(mc::Ctx& ctx, World& w, Model& m) {
  m.must.clear();
  absl::Status s = w.Open();
  ctx.Step("open");
  if (!s.ok()) {
    ctx.Check(s.code() == absl::StatusCode::kInternal, "wrong error on opening");
    s = w.Open();
    ctx.Check(s.ok(), "the cache cannot be opened any more: " + s.ToString());
  }
  ctx.Check(w.Total() <= w.max, "the files take more room than allowed");
  for (auto& id : kIds) CheckGet(ctx, w, m, id, "after the restart");
  std::vector<std::string> again = {"d", "a"};
  int v = 50;
  for (auto& id : again) {
    ++v;
    w.clock.AdvanceTime(absl::Seconds(1));
    s = w.Put(id, v, 50);
    ctx.Step("put");
    ctx.Check(s.ok(), "cannot store any more: " + s.ToString());
    m.Done(id, v, 50);
    ctx.Check(w.Total() <= w.max, "the files take more room than allowed");
    CheckGet(ctx, w, m, id, "after storing");
    m.must.clear();
  }
}
// How far a run came, also if it is one in a child process.  Allocated in the
// worker, so that workers do not share it.
int& Done() {
  static int* d = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return *d;
}
void Run(World& w, const std::vector<int>& ops) {
  Done() = 0;
  if (!w.Open().ok()) return;
  int v = 0;
  for (int o : ops) {
    const Op& op = kOps[o];
    w.clock.AdvanceTime(absl::Seconds(1));
    ++v;
    bool ok = true;
    if (op.kind == Op::kPut) ok = w.Put(op.id, v, op.size).ok();
    if (op.kind == Op::kGet) (void)w.cache->Get(op.id, std::nullopt);
    if (op.kind == Op::kExtend) (void)w.cache->Get(op.id, absl::Seconds(2000));
    if (op.kind == Op::kOpen) ok = w.Open().ok();
    if (!ok) return;
    Done() = v;
  }
  Done() = 100;
}
// The file system calls of a run without faults.
std::vector<std::string> Calls(mc::Ctx& ctx, int64_t max, const std::vector<int>& ops) {
  mc::WipeScratch();
  World w(max);
  mcfs::Start(mc::Scratch(), mcfs::Mode::kRecord);
  Run(w, ops);
  std::vector<std::string> calls = mcfs::Log();
  mcfs::Stop();
  ctx.Step("run");
  ctx.Check(Done() == 100, "failed without a fault");
  return calls;
}
}  // namespace

MC_SCENARIO(crash, {}) {
  int64_t max = ctx.Choose(2, "small cache") ? 100 : 1000;
  std::vector<int> ops;
  int depth = ctx.thorough() ? 4 : 3;
  for (int i = 0; i < depth; ++i) ops.push_back(ctx.Choose((int)kOps.size(), "operation"));
  std::vector<std::string> calls = Calls(ctx, max, ops);
  int at = ctx.Choose((int)calls.size(), "crash at call");
  // Dying after a call is dying before the next one.
  int variant = calls[at].find("write") != std::string::npos ? 2 * ctx.Choose(2, "half-way") : at + 1 == (int)calls.size() ? ctx.Choose(2, "after") : 0;
  mc::WipeScratch();
  World w(max);
  bool crashed = mcfs::RunAndCrash(mc::Scratch(), at, variant, [&] { Run(w, ops); });
  ctx.Check(crashed, "the crash point was not reached");
  ctx.Step("run");
  ctx.Outcome("crashed after " + std::to_string(Done()));
  Model m;
  for (int i = 0; i < (int)ops.size() && i <= Done(); ++i) {
    const Op& op = kOps[ops[i]];
    if (op.kind != Op::kPut) continue;
    if (i < Done()) {
      m.Done(op.id, i + 1, op.size);
    } else {
      m.Begin(op.id, i + 1, op.size);
    }
  }
  w.clock.AdvanceTime(absl::Seconds(10));
  CheckUsable(ctx, w, m);
}
MC_SCENARIO(faults, {}) {
  int64_t max = ctx.Choose(2, "small cache") ? 100 : 1000;
  int depth = ctx.thorough() ? 4 : 3;
  std::vector<int> ops;
  for (int i = 0; i < depth; ++i) ops.push_back(ctx.Choose((int)kOps.size(), "operation"));
  std::vector<std::string> calls = Calls(ctx, max, ops);
  int at = ctx.Choose((int)calls.size(), "failing call");
  static const std::vector<int> kinds = {0, 2, 1, 3};
  int variant = kinds[ctx.Choose(calls[at].find("write") != std::string::npos ? 4 : 2, "kind of failure")];
  mc::WipeScratch();
  World w(max);
  Model m;
  bool over = false;
  mcfs::Start(mc::Scratch(), mcfs::Mode::kFault, at, variant);
  auto after = [&] {
    if (!over && mcfs::Fired()) {
      mcfs::Stop();
      over = true;
      m.must.clear();
      return true;
    }
    return false;
  };
  absl::Status s = w.Open();
  ctx.Step("open");
  bool hit = after();
  ctx.Check(s.ok() || hit, "opening fails without a fault");
  int v = 0;
  for (int o : ops) {
    const Op& op = kOps[o];
    ++v;
    w.clock.AdvanceTime(absl::Seconds(1));
    if (w.cache == nullptr) {
      s = w.Open();
      if (!s.ok()) s = w.Open();
      ctx.Check(s.ok(), "cannot be opened after a failure: " + s.ToString());
    }
    if (op.kind == Op::kPut) {
      s = w.Put(op.id, v, op.size);
      ctx.Step("put");
      hit = after();
      ctx.Check(s.ok() || hit, "storing fails without a fault: " + s.ToString());
      if (s.ok()) {
        m.Done(op.id, v, op.size);
      } else {
        m.Begin(op.id, v, op.size);
      }
      if (!hit) ctx.Check(w.Total() <= w.max, "the files take more room than allowed");
      if (hit) ctx.Outcome(s.ok() ? "stored despite a fault" : "not stored");
      if (s.ok() && hit) CheckGet(ctx, w, m, op.id, "after storing");
    } else if (op.kind == Op::kOpen) {
      s = w.Open();
      ctx.Step("open");
      hit = after();
      if (!s.ok() && !hit && over) {
        m.must.clear();
        s = w.Open();
        hit = false;
        ctx.Check(s.ok(), "cannot be opened after a failure: " + s.ToString());
      }
      ctx.Check(s.ok() || hit, "opening fails without a fault: " + s.ToString());
      // What was lost in a failure is only noticed now.
      if (over) m.must.clear();
    } else {
      auto r = w.cache->Get(op.id, op.kind == Op::kExtend ? std::optional(absl::Seconds(2000)) : std::nullopt);
      ctx.Step("get");
      hit = after();
      if (!r.ok() && !hit) {
        ctx.Check(r.status().code() == absl::StatusCode::kNotFound, "getting fails without a fault");
        ctx.Check(max == 100 || !m.must.count(op.id), op.id + " was stored and is gone");
      }
      if (r.ok()) {
        bool found = false;
        for (auto& [ver, size] : m.may[op.id]) {
          found |= std::string(r->resource) == Bytes(ver, size) && r->metadata.value() == "meta " + std::to_string(ver);
        }
        ctx.Check(found, op.id + " returns what was not stored under it");
      }
    }
    if (max == 100) m.must.clear();
  }
  mcfs::Stop();
  if (!over) {
    ctx.Prune();
  }
  if (w.cache != nullptr && ctx.Flip("used on")) {
    for (auto& id : kIds) CheckGet(ctx, w, m, id, "in the same process");
  }
  CheckUsable(ctx, w, m);
}
static int init = (mc::Rule("whatever is found under an identifier is one complete resource with the metadata it was stored with, the latest completed or an interrupted one; the cache opens, stays within its limit and works"),
                   mc::Assumption("the store for the manifest is a stand-in that detects a partly written manifest, as the real one does"), 0);
