// C30 (1): the iterator over fetched slices, with write failures.
#include <sys/stat.h>

#include "absl/status/status.h"
#include "common/fsfault.h"
#include "common/mc.h"
#include "fcp/client/federated_select.h"

using fcp::client::InMemoryFederatedSelectExampleIterator;
namespace {
std::string Raw(const std::string& p) {
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return "<none>";
  std::string s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
bool Exists(const std::string& p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0;
}
const std::vector<std::string>& Contents() {
  static const std::vector<std::string> c = {"", "short", std::string("\0\r\n\x1a\xff", 5), std::string(8191, 'a'), std::string(8192, 'b'), std::string(50000, 'c')};
  return c;
}
absl::Cord Cord(const std::string& s, int pieces) {
  absl::Cord c;
  size_t step = s.size() / pieces + 1;
  for (size_t i = 0; i < s.size(); i += step) c.Append(absl::MakeCordFromExternal(absl::string_view(s).substr(i, step), [] {}));
  return c;
}
}  // namespace
// Every sequence of operations.
MC_SCENARIO(histories, {}) {
  mc::WipeScratch();
  const std::string path = mc::Scratch() + "/slice.ckp";
  bool there = ctx.Flip("file was created before");
  if (there) fclose(fopen(path.c_str(), "w"));
  int n = ctx.Choose(4, "slices");
  std::deque<absl::Cord> q;
  std::vector<std::string> want;
  want.reserve(4);
  int pieces = 1 + ctx.Choose(2, "pieces") * 2;
  for (int i = 0; i < n; ++i) {
    want.push_back(Contents()[ctx.Choose(i == 0 ? 6 : 3, "content")]);
    q.push_back(Cord(want.back(), pieces));
  }
  {
    InMemoryFederatedSelectExampleIterator it(path, std::move(q));
    size_t at = 0;
    bool closed = false;
    for (int i = 0; i < 5; ++i) {
      int op = ctx.Choose(4, "operation");
      if (op == 0) break;
      if (op == 1) {
        auto r = it.Next();
        ctx.Step("next");
        if (!closed && at < want.size()) {
          ctx.Check(r.ok(), "slice not given: " + r.status().ToString());
          ctx.Eq(*r, path, "file name");
          ctx.Check(Raw(path) == want[at], "slice " + std::to_string(at) + " has other content");
          ++at;
        } else {
          ctx.Check(!r.ok() && r.status().code() == absl::StatusCode::kOutOfRange, "more slices than there are");
          ctx.Check(!Exists(path), "the file is still there at the end");
        }
      } else if (op == 2) {
        it.Close();
        ctx.Step("close");
        closed = true;
        ctx.Check(!Exists(path), "the file is still there after closing");
      } else {
        // The user of a slice may remove or change its file.
        if (ctx.Flip("changes it")) {
          FILE* f = fopen(path.c_str(), "a");
          fputs("something appended", f);
          fclose(f);
        } else {
          remove(path.c_str());
        }
      }
    }
  }
  ctx.Check(!Exists(path), "the file outlived the iterator");
}
// Every write fails, falls short or keeps failing.
MC_SCENARIO(write_failures, {}) {
  mc::WipeScratch();
  const std::string path = mc::Scratch() + "/slice.ckp";
  std::vector<std::string> want = {Contents()[ctx.Choose(6, "first")], Contents()[ctx.Choose(6, "second")]};
  int pieces = 1 + ctx.Choose(3, "pieces") * 3;
  std::deque<absl::Cord> q = {Cord(want[0], pieces), Cord(want[1], pieces)};
  InMemoryFederatedSelectExampleIterator it(path, std::move(q));
  size_t at = 0;
  int fault = ctx.Choose(ctx.thorough() ? 20 : 10, "failing call");
  int variant = ctx.Choose(4, "kind of failure");
  mcfs::Start(mc::Scratch(), mcfs::Mode::kFault, fault, variant);
  for (int i = 0; i < 4 && at < want.size(); ++i) {
    absl::StatusOr<std::string> r = absl::UnknownError("threw");
    r = it.Next();
    ctx.Step("next");
    bool fired = mcfs::Fired();
    if (fired) mcfs::Stop();
    ctx.Check(fired || i > 0 || r.ok(), "failed without a fault");
    if (!r.ok()) {
      ctx.Check(r.status().code() == absl::StatusCode::kInternal, "a failure looks like the end");
      continue;
    }
    // The slices come in order and complete; one whose writing failed is not
    // skipped.
    ctx.Check(Raw(path) == want[at], "slice " + std::to_string(at) + " was reported written, but the file has other content");
    ++at;
  }
  mcfs::Stop();
  ctx.Check(at == want.size(), "a slice was lost");
  it.Close();
  ctx.Check(!Exists(path), "the file is still there after closing");
}
static int init = (mc::Rule("slices come complete, in order and once; failures are errors; nothing after the end or after closing"),
                   mc::Assumption("removing the scratch file does not fail"), 0);
