// C46: file helpers tell the truth about what is on disk.
#include <filesystem>

#include "common/fsfault.h"
#include "common/mc.h"
#include "fcp/base/platform.h"

namespace fs = std::filesystem;
namespace {
bool on = mcfs::g_reads = true;
std::string Content(int k) {
  static const std::vector<size_t> sizes = {0, 1, 100, 4096, 8191, 8192, 8193, 20000, 65536};
  std::string s;
  for (size_t i = 0; i < sizes[k]; ++i) s += (char)(i * 31 + k);
  return s;
}
absl::Cord Cord(const std::string& s, int pieces) {
  absl::Cord c;
  size_t step = s.size() / pieces + 1;
  for (size_t i = 0; i < s.size(); i += step) c.Append(absl::MakeCordFromExternal(absl::string_view(s).substr(i, step), [] {}));
  return c;
}
std::string Raw(const std::string& p) {
  mcfs::Stop();
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return "<none>";
  std::string s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
}  // namespace

MC_SCENARIO(write_then_read, {}) {
  mc::WipeScratch();
  std::string p = mc::Scratch() + "/f";
  std::string c = Content(ctx.Choose(9, "content"));
  int how = ctx.Choose(4, "string or cord");
  int old = ctx.Choose(3, "existing file");
  if (old) {
    auto s = fcp::WriteStringToFile(p, old == 1 ? "old" : std::string(100000, 'o'));
    ctx.Check(s.ok(), "write failed");
  }
  ctx.Eq(fcp::FileExists(p), old != 0, "file exists");
  int fault = ctx.Choose(ctx.thorough() ? 30 : 14, "failing call");  // 0: none
  int variant = fault ? ctx.Choose(4, "kind of failure") : 0;
  if (fault) mcfs::Start(mc::Scratch(), mcfs::Mode::kFault, fault - 1, variant);
  auto s = how == 0 ? fcp::WriteStringToFile(p, c) : fcp::WriteCordToFile(p, Cord(c, how == 1 ? 1 : how == 2 ? 3 : 50));
  ctx.Step("write");
  bool fired = fault && mcfs::Fired();
  mcfs::Stop();
  if (!fired) ctx.Check(s.ok(), "failed without a fault: " + s.ToString());
  if (s.ok()) ctx.Check(Raw(p) == c, "the write was reported successful, but the file has other content");
  ctx.Outcome(std::string(s.ok() ? "ok" : "error") + (fired ? " with fault" : ""));
  ctx.State(std::to_string(c.size()) + "/" + std::to_string(how) + "/" + std::to_string(old) + "/" + std::to_string(fault) + "/" +
            std::to_string(variant));
}
MC_SCENARIO(reads, {}) {
  mc::WipeScratch();
  std::string p = mc::Scratch() + "/f";
  std::string c = Content(ctx.Choose(9, "content"));
  FILE* f = fopen(p.c_str(), "wb");
  fwrite(c.data(), 1, c.size(), f);
  fclose(f);
  int fault = ctx.Choose(ctx.thorough() ? 30 : 14, "failing call");
  int variant = fault ? ctx.Choose(4, "kind of failure") : 0;
  bool cord = ctx.Flip("cord");
  if (fault) mcfs::Start(mc::Scratch(), mcfs::Mode::kFault, fault - 1, variant);
  absl::StatusOr<std::string> r;
  if (cord) {
    auto q = fcp::ReadFileToCord(p);
    if (q.ok()) r = std::string(*q);
    else r = q.status();
  } else {
    r = fcp::ReadFileToString(p);
  }
  ctx.Step("read");
  bool fired = fault && mcfs::Fired();
  mcfs::Stop();
  if (!fired) ctx.Check(r.ok(), "failed without a fault");
  if (r.ok()) ctx.Check(*r == c, "a read reported successful returned " + std::to_string(r->size()) + " of " + std::to_string(c.size()) + " bytes");
  ctx.Outcome(std::string(r.ok() ? "ok" : "error") + (fired ? " with fault" : ""));
  ctx.State("r" + std::to_string(c.size()) + "/" + std::to_string(fault) + "/" + std::to_string(variant));
  ctx.Check(!fcp::ReadFileToString(p + "x").ok() && !fcp::ReadFileToCord(p + "x").ok(), "a missing file was read");
  ctx.Check(!fcp::FileExists(p + "x") && fcp::FileExists(p), "file existence");
  ctx.Check(!fcp::WriteStringToFile(p + "x/y", "z").ok() && !fcp::WriteCordToFile(p + "x/y", absl::Cord("z")).ok(),
            "a file in a missing directory was written");
}
static int init = (mc::Rule("9 sizes around the buffer sizes, string and cords of 1-50 pieces, 3 kinds of existing file; "
                            "each of the first 13 (29) file-system calls failing or short, in 4 ways."),
                   0);
