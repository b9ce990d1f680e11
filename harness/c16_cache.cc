// C16: the resource cache against a record of what was stored.
#include <sys/stat.h>

#include <filesystem>
#include <fstream>
#include <map>
#include <set>

#include "absl/status/status.h"
#include "common/client_fakes.h"
#include "common/mc.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/cache/file_backed_resource_cache.h"
#include "google/protobuf/any.pb.h"

namespace fs = std::filesystem;
using fcp::client::cache::FileBackedResourceCache;
namespace {
constexpr int64_t kMax = 100;
struct Entry {
  std::string bytes, meta;
  absl::Time expiry, used;
};
struct World {
  mc::Ctx& ctx;
  mc::RecLog log;
  fcp::SimulatedClock clock{absl::FromUnixSeconds(1700000000)};
  std::string base, dir;
  int64_t max = kMax;
  std::unique_ptr<FileBackedResourceCache> cache;
  std::map<std::string, Entry> want;  // what the cache holds
  int puts = 0;

  explicit World(mc::Ctx& c) : ctx(c) {
    mc::WipeScratch();
    base = mc::Scratch();
    dir = base + "/cache/fcp/cache";
    fs::create_directories(base + "/base");
    fs::create_directories(base + "/cache");
    Open();
  }
  void Open() {
    cache.reset();
    auto r = FileBackedResourceCache::Create(base + "/base", base + "/cache", &log, &clock, max);
    ctx.Step("open");
    ctx.Check(r.ok(), "cannot open: " + r.status().ToString());
    cache = std::move(*r);
    // Expired entries go; then, if it is too much, those not used for longest.
    DropExpired();
    std::string none;
    AfterEviction(0, 0);
    CheckFiles();
  }
  void DropExpired() {
    for (auto it = want.begin(); it != want.end();) {
      it = it->second.expiry < clock.Now() ? want.erase(it) : std::next(it);
    }
  }
  bool Has(const std::string& id) { return fs::exists(dir + "/" + id); }
  // Entries may have been dropped to make room for `reserve` bytes; `slack`
  // is what an entry being replaced took up.
  void AfterEviction(int64_t reserve, int64_t slack) {
    int64_t left = 0;
    absl::Time newest_gone = absl::InfinitePast();
    int64_t newest_gone_size = 0;
    bool gone = false;
    for (auto& [id, e] : want) {
      if (Has(id)) {
        left += e.bytes.size();
      } else {
        gone = true;
        if (e.used >= newest_gone) {
          newest_gone_size = e.used > newest_gone ? e.bytes.size() : std::max<int64_t>(newest_gone_size, e.bytes.size());
          newest_gone = e.used;
        }
      }
    }
    ctx.Check(left + reserve <= max, "the cache holds " + std::to_string(left + reserve) + " bytes");
    if (gone) {
      ctx.Check(left + newest_gone_size + reserve + slack >= max, "an entry was dropped although there was room");
      for (auto it = want.begin(); it != want.end();) {
        if (!Has(it->first)) {
          it = want.erase(it);
        } else {
          ctx.Check(it->second.used >= newest_gone, "an entry used more recently than " + it->first + " was dropped");
          ++it;
        }
      }
    }
  }
  // Exactly the files of the entries are there, complete.
  void CheckFiles() {
    int64_t total = 0;
    for (auto& f : fs::directory_iterator(dir)) {
      std::string id = f.path().filename().string();
      ctx.Check(want.count(id), "a file without an entry: " + id);
      total += fs::file_size(f.path());
    }
    ctx.Check(total <= max, "the files take " + std::to_string(total) + " bytes");
  }
  google::protobuf::Any Meta(const std::string& m) {
    google::protobuf::Any a;
    a.set_type_url("type/" + m);
    a.set_value(m);
    return a;
  }
  void Put(const std::string& id, int size, absl::Duration age) {
    ++puts;
    std::string bytes;
    for (int i = 0; i < size; ++i) bytes += (char)(puts * 16 + i);
    std::string meta = "meta " + std::to_string(puts);
    absl::Cord cord;
    for (int i = 0; i < size; i += 7) cord.Append(absl::Cord(bytes.substr(i, 7)));
    absl::Status s = cache->Put(id, cord, Meta(meta), age);
    ctx.Step("put");
    if (size > max / 2) {
      ctx.Check(s.code() == absl::StatusCode::kResourceExhausted, "too large a resource was accepted");
      for (auto& [i, e] : want) ctx.Check(Has(i), "a refused resource displaced " + i);
      return;
    }
    ctx.Check(s.ok(), "not stored: " + s.ToString());
    DropExpired();
    int64_t slack = 0;
    if (auto it = want.find(id); it != want.end()) {
      slack = it->second.bytes.size();
      want.erase(it);
    }
    AfterEviction(size, slack);
    want[id] = {bytes, meta, clock.Now() + age, clock.Now()};
    ctx.Check(Has(id), "stored, but there is no file");
    CheckFiles();
  }
  void Get(const std::string& id, std::optional<absl::Duration> age) {
    auto r = cache->Get(id, age);
    ctx.Step("get");
    auto it = want.find(id);
    if (it == want.end()) {
      ctx.Check(r.status().code() == absl::StatusCode::kNotFound, "got something that is not stored");
      return;
    }
    if (!r.ok() && it->second.expiry < clock.Now()) {
      ctx.Check(r.status().code() == absl::StatusCode::kNotFound, "wrong error for an expired entry");
      return;
    }
    ctx.Check(r.ok(), "not found: " + r.status().ToString());
    ctx.Eq(mc::Hex(std::string(r->resource)), mc::Hex(it->second.bytes), "resource");
    ctx.Eq(r->metadata.value(), it->second.meta, "metadata");
    ctx.Eq(r->metadata.type_url(), "type/" + it->second.meta, "type of the metadata");
    it->second.used = clock.Now();
    if (age) it->second.expiry = clock.Now() + *age;
  }
};
const std::vector<std::string> kIds = {"a", "b", "c"};
}  // namespace

MC_SCENARIO(histories, {}) {
  World w(ctx);
  int depth = ctx.thorough() ? 5 : 4;
  for (int i = 0; i < depth; ++i) {
    int op = ctx.Choose(14, "operation");
    // Time passes with every operation, so that there is an order of use.
    w.clock.AdvanceTime(absl::Seconds(1));
    if (op < 6) {
      w.Put(kIds[op % 3], op < 3 ? 30 : 50, absl::Seconds(1000));
    } else if (op < 9) {
      w.Get(kIds[op - 6], std::nullopt);
    } else if (op == 9) {
      w.Put("a", 51, absl::Seconds(1000));
    } else if (op == 10) {
      w.Put("b", 1, absl::Seconds(10));
    } else if (op == 11) {
      w.clock.AdvanceTime(absl::Seconds(100));
    } else if (op == 12) {
      w.Get("b", absl::Seconds(500));
    } else {
      w.Open();
    }
  }
  for (auto& id : kIds) w.Get(id, std::nullopt);
  w.Open();
  for (auto& id : kIds) w.Get(id, std::nullopt);
}
// Filling up: which entries make room.
MC_SCENARIO(eviction, {}) {
  World w(ctx);
  static const std::vector<std::string> ids = {"a", "b", "c", "d"};
  static const std::vector<int> sizes = {0, 25, 26, 50};
  for (auto& id : ids) {
    w.clock.AdvanceTime(absl::Seconds(ctx.thorough() ? ctx.Choose(2, "time passes") : 1));
    w.Put(id, ctx.Pick(sizes, "size"), absl::Seconds(1000));
  }
  int touch = ctx.Choose(5, "used again");
  w.clock.AdvanceTime(absl::Seconds(1));
  if (touch) w.Get(ids[touch - 1], std::nullopt);
  int then = ctx.Choose(3, "then");
  if (then == 0) w.Put("e", 50, absl::Seconds(1000));
  if (then == 1) {
    w.max = ctx.Pick(std::vector<int64_t>{0, 25, 50, 75}, "smaller cache");
    w.Open();
  }
  if (then == 2) w.Put("a", 49, absl::Seconds(1000));
  for (auto& id : ids) w.Get(id, std::nullopt);
}
// Expiry to the second, also when extended.
MC_SCENARIO(expiry, {}) {
  World w(ctx);
  absl::Duration age = ctx.Pick(std::vector<absl::Duration>{absl::Seconds(0), absl::Milliseconds(1), absl::Seconds(10), absl::Hours(100000)}, "age");
  w.Put("a", 10, age);
  w.Put("b", 10, absl::Seconds(20));
  w.clock.AdvanceTime(ctx.Pick(std::vector<absl::Duration>{absl::Seconds(0), absl::Nanoseconds(1), absl::Seconds(5)}, "wait"));
  int ext = ctx.Choose(3, "extended");
  if (ext == 1) w.Get("b", absl::Seconds(3));
  if (ext == 2) w.Get("b", absl::Seconds(100));
  w.clock.AdvanceTime(ctx.Pick(std::vector<absl::Duration>{absl::Seconds(0), absl::Seconds(3), absl::Seconds(4), absl::Seconds(15), absl::Seconds(16), absl::Seconds(99)}, "wait"));
  if (ctx.Flip("reopened")) {
    w.Open();
  } else {
    w.Put("c", 5, absl::Seconds(5));
  }
  w.Get("a", std::nullopt);
  w.Get("b", std::nullopt);
}
// Files that come and go behind the cache's back.
MC_SCENARIO(strangers, {}) {
  World w(ctx);
  w.Put("a", 30, absl::Seconds(1000));
  w.Put("b", 30, absl::Seconds(1000));
  for (int i = 0; i < 3; ++i) {
    w.clock.AdvanceTime(absl::Seconds(1));
    switch (ctx.Choose(6, "event")) {
      case 0:
        if (fs::remove(w.dir + "/a")) w.want.erase("a");
        break;
      case 1:
        std::ofstream(w.dir + "/stranger") << std::string(90, 's');
        break;
      case 2:
        w.Get("a", std::nullopt);
        break;
      case 3:
        w.Put("a", 20, absl::Seconds(1000));
        break;
      case 4:
        w.Put("c", 50, absl::Seconds(1000));
        break;
      case 5:
        w.Open();
        break;
    }
  }
  // Whatever happened, the directory is in order after the next start.
  w.Open();
  ctx.Check(!fs::exists(w.dir + "/stranger"), "a foreign file was kept");
  for (auto& id : kIds) w.Get(id, std::nullopt);
}
// A manifest that cannot be read: everything goes, nothing wrong is served.
MC_SCENARIO(damaged_manifest, {}) {
  World w(ctx);
  w.Put("a", 30, absl::Seconds(1000));
  w.Put("b", 30, absl::Seconds(1000));
  w.cache.reset();
  std::string path = w.base + "/base/fcp/cache_manifest.pb";
  std::ifstream f(path);
  std::string data((std::istreambuf_iterator<char>(f)), {});
  f.close();
  int how = ctx.Choose(3, "damage");
  if (how == 0) {
    data.resize(ctx.Choose((int)data.size(), "cut at"));
    std::ofstream(path) << data;
  } else if (how == 1) {
    data[ctx.Choose((int)data.size(), "byte")] ^= 0x11;
    std::ofstream(path) << data;
  } else {
    fs::remove(path);
  }
  // Opening may fail once; the manifest is started over.
  auto r = FileBackedResourceCache::Create(w.base + "/base", w.base + "/cache", &w.log, &w.clock, w.max);
  ctx.Step("open");
  ctx.Check(r.ok() || r.status().code() == absl::StatusCode::kInternal, "wrong error");
  w.want.clear();
  w.Open();
  for (auto& id : kIds) w.Get(id, std::nullopt);
  w.Put("a", 20, absl::Seconds(1000));
  w.Get("a", std::nullopt);
}
MC_SCENARIO(places, {}) {
  mc::WipeScratch();
  std::string base = mc::Scratch();
  mc::RecLog log;
  fcp::SimulatedClock clock(absl::FromUnixSeconds(1700000000));
  int b = ctx.Choose(4, "base"), c = ctx.Choose(4, "cache");
  std::ofstream(base + "/file") << "x";
  auto dir = [&](int k, const char* n) { return k == 0 ? base + "/" + n : k == 1 ? std::string("relative/") + n : k == 2 ? base + "/file" : std::string(); };
  auto r = FileBackedResourceCache::Create(dir(b, "base"), dir(c, "cache"), &log, &clock, kMax);
  ctx.Step("open");
  ctx.Eq(r.ok(), b == 0 && c == 0, "opened");
  if (!r.ok()) {
    bool rel = c == 1 || c == 3 || (c == 0 && (b == 1 || b == 3));
    ctx.Check(r.status().code() == (rel ? absl::StatusCode::kInvalidArgument : absl::StatusCode::kInternal), "wrong error " + r.status().ToString());
  }
  ctx.Check(!fs::exists("relative"), "something was made in the working directory");
}
static int init = (mc::Rule("a get returns the latest put of its identifier or nothing; only expired entries and the least recently used ones go, and only when room is needed"),
                   mc::Assumption("identifiers are plain file names; the store for the manifest is a stand-in"), 0);
