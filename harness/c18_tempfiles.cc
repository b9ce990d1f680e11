// C18: temporary files are fresh, contained and cleaned up.
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <set>

#include "common/client_fakes.h"
#include "common/fsfault.h"
#include "common/mc.h"
#include "fcp/client/cache/temp_files.h"

namespace fs = std::filesystem;
using fcp::client::cache::TempFiles;

namespace {
// rand() with many repetitions, so that names collide.
int g_rand_i = 0;
bool g_collide = true;
}  // namespace
extern "C" int rand() noexcept {
  ++g_rand_i;
  return g_collide ? 1000 + (g_rand_i / 3) % 7 : 1000 + g_rand_i;
}

namespace {
struct World {
  std::string base, cache, dir;
  std::set<std::string> sentinels;
  explicit World(bool make_tmp) {
    mc::WipeScratch();
    g_rand_i = 0;
    g_collide = true;
    base = mc::Scratch();
    cache = base + "/cache";
    dir = cache + "/fcp/tmp";
    fs::create_directories(make_tmp ? dir : cache + "/fcp");
    for (auto p : {cache + "/keep1", cache + "/fcp/keep2", base + "/keep3"}) {
      std::ofstream(p) << "s";
      sentinels.insert(p);
    }
  }
  std::set<std::string> Files() {
    std::set<std::string> s;
    if (!fs::exists(dir)) return s;
    for (auto& e : fs::directory_iterator(dir)) s.insert(e.path().string());
    return s;
  }
  void CheckSentinels(mc::Ctx& ctx) {
    for (auto& p : sentinels) ctx.Check(fs::exists(p), "a file outside the directory is gone: " + p);
    // Nothing new outside.
    for (auto& e : fs::recursive_directory_iterator(base)) {
      std::string p = e.path().string();
      if (e.is_directory() || p.rfind(dir + "/", 0) == 0) continue;
      ctx.Check(sentinels.count(p), "unexpected file outside the directory: " + p);
    }
  }
  void Touch(const std::string& name) { std::ofstream(dir + "/" + name) << "old data"; }
};
const std::vector<std::pair<std::string, std::string>> kNames = {{"a", ".tmp"}, {"", ""}, {"a", ""}, {"pre_", ".x.y"}};

void CheckFresh(mc::Ctx& ctx, World& w, const std::string& path, const std::set<std::string>& before,
                const std::pair<std::string, std::string>& nm) {
  ctx.Check(!before.count(path), "the path was already in use: " + path);
  ctx.Check(path.rfind(w.dir + "/", 0) == 0, "the path is not in the directory: " + path);
  std::string name = path.substr(w.dir.size() + 1);
  ctx.Check(name.find('/') == std::string::npos, "not directly in the directory: " + path);
  ctx.Check(name.size() >= nm.first.size() + nm.second.size() && name.rfind(nm.first, 0) == 0 &&
                name.substr(name.size() - nm.second.size()) == nm.second,
            "prefix or suffix missing in " + name);
  struct stat st;
  ctx.Check(stat(path.c_str(), &st) == 0 && S_ISREG(st.st_mode), "the file does not exist: " + path);
  ctx.Check(st.st_size == 0, "the file is not empty");
  ctx.Check((st.st_mode & 0600) == 0600, "the file cannot be read and written");
}
}  // namespace

// Histories of create, write, delete, destroy and process death over owners of
// one directory, with leftovers.
MC_SCENARIO(histories, {}) {
  World w(ctx.Flip("directory exists"));
  mc::RecLog log;
  if (fs::exists(w.dir)) {
    if (ctx.Flip("leftover file")) w.Touch("old");
    if (ctx.Flip("leftover empty directory")) fs::create_directory(w.dir + "/sub");
    if (ctx.Flip("leftover with a name that collides")) w.Touch("a1000.tmp");
  }
  std::unique_ptr<TempFiles> tf;
  int depth = (ctx.thorough() ? 6 : 4) + !fs::exists(w.dir);
  for (int d = 0; d < depth; ++d) {
    if (!tf) {
      auto r = TempFiles::Create(w.cache, &log);
      ctx.Step("create owner");
      ctx.Check(r.ok(), "creation failed: " + r.status().ToString());
      tf = std::move(*r);
      ctx.Check(w.Files().empty(), "leftovers survived creation");
    }
    int op = ctx.Choose(4 + (int)kNames.size(), "op");
    if (op < (int)kNames.size()) {
      auto before = w.Files();
      auto r = tf->CreateTempFile(kNames[op].first, kNames[op].second);
      ctx.Step("temp file");
      ctx.Check(r.ok(), "could not create a temporary file");
      CheckFresh(ctx, w, *r, before, kNames[op]);
      ctx.Check(w.Files().size() == before.size() + 1, "number of files");
      if (d % 2) std::ofstream(*r) << "content";
    } else if (op == (int)kNames.size()) {
      tf.reset();
      ctx.Step("destroy owner");
      ctx.Check(w.Files().empty(), "files survived their owner");
    } else if (op == (int)kNames.size() + 1) {
      tf.release();  // killed: no destructor
      ctx.Step("process death");
    } else if (op == (int)kNames.size() + 2) {
      auto f = w.Files();
      if (!f.empty()) fs::remove(*f.begin());  // the user deleted one
      ctx.Step("user deletes");
    } else {
      w.Touch("b1001");
      ctx.Step("user adds");
    }
    w.CheckSentinels(ctx);
    std::string st = std::to_string(tf != nullptr);
    for (auto& f : w.Files()) st += f.substr(w.base.size());
    ctx.State(st);
  }
  tf.reset();
  w.CheckSentinels(ctx);
}

// The k-th file-system call fails.
MC_SCENARIO(faults, {}) {
  bool exists = ctx.Flip("directory exists");
  bool leftovers = ctx.Flip("leftovers");
  int k = ctx.Choose(14, "failing call");
  int variant = ctx.Choose(2, "once or from then on") ? 2 : 0;
  World w(exists);
  g_collide = false;
  if (exists && leftovers) {
    w.Touch("l1");
    w.Touch("l2");
    w.Touch("l3");
  }
  mc::RecLog log;
  mcfs::Start(w.cache, mcfs::Mode::kFault, k, variant);
  auto r = TempFiles::Create(w.cache, &log);
  ctx.Step("create owner");
  bool fired = mcfs::Fired();
  if (!fired) ctx.Check(r.ok(), "failed without a fault");
  if (!r.ok()) {
    mcfs::Stop();
    ctx.Outcome("owner not created");
    if (variant == 0) ctx.Check(w.Files().size() <= 1, "one failing deletion kept other leftovers");
  } else {
    ctx.Check(w.Files().empty(), "leftovers survived a creation reported successful");
    std::vector<std::string> made;
    for (int i = 0; i < 3; ++i) {
      auto before = w.Files();
      bool was = mcfs::Fired();
      auto p = (*r)->CreateTempFile("a", ".tmp");
      ctx.Step("temp file");
      if (p.ok()) CheckFresh(ctx, w, *p, before, {"a", ".tmp"});
      else ctx.Check(mcfs::Fired(), "failed without a fault");
      if (!p.ok()) ctx.Outcome("temp file error");
    }
    bool before_fired = mcfs::Fired();
    log.prod.clear();
    size_t had = w.Files().size();
    r->reset();
    ctx.Step("destroy owner");
    mcfs::Stop();
    auto left = w.Files();
    if (!mcfs::Fired() || (before_fired && variant == 0)) ctx.Check(left.empty(), "files survived their owner");
    if (variant == 0) ctx.Check(left.size() <= 1, "one failing deletion kept the others alive");
    if (!left.empty()) {
      ctx.Check(!log.prod.empty(), "a failed deletion was not reported");
      ctx.Outcome("deletion failure reported");
    }
    ctx.State("d" + std::to_string(left.size()) + "/" + std::to_string(had));
  }
  w.CheckSentinels(ctx);
  ctx.State(std::to_string(exists) + std::to_string(leftovers) + std::to_string(k) + std::to_string(variant));
}

// Unusable locations are errors.
MC_SCENARIO(bad_locations) {
  World w(false);
  mc::RecLog log;
  int k = ctx.Choose(4, "location");
  std::string loc = k == 0 ? "relative/dir" : k == 1 ? "" : k == 2 ? w.cache + "/keep1" : w.cache;
  if (k == 3) std::ofstream(w.dir) << "a file where the directory should be";
  if (k == 3) w.sentinels.insert(w.dir);
  std::string cwd = fs::current_path();
  fs::current_path(w.base);
  auto r = TempFiles::Create(loc, &log);
  fs::current_path(cwd);
  ctx.Step();
  ctx.Check(!r.ok(), "an unusable location was accepted");
  w.CheckSentinels(ctx);
  ctx.State(std::to_string(k));
}
static int init = (mc::Rule("Every history of up to 4-5 (6-7) operations over leftovers; every file-system call failing once "
                            "or for good."),
                   0);
