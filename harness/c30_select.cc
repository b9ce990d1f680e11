// C30 (2): fetching slices, and iterators used by several threads.
#include <dirent.h>
#include <sys/stat.h>

#include <memory>
#include <set>
#include <vector>

#include "common/fakehttp.h"
#include "common/mcsched.h"
#include "fcp/client/federated_select.h"
#include "fcp/client/files.h"
#include "fcp/protos/plan.pb.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
namespace fk = mc::fakehttp;
using namespace fcp::client;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::SlicesSelector;
using Code = absl::StatusCode;

class Log : public LogManager {
 public:
  void LogDiag(ProdDiagCode c) override {
    if (c == ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT) sched::UntilQuiet();
    mc::abslx::MutexLock l(&mu);
    if (c == ProdDiagCode::FEDSELECT_SLICE_HTTP_FETCH_REQUESTED) ++requested;
    if (c == ProdDiagCode::FEDSELECT_SLICE_HTTP_FETCH_FAILED) ++failed;
    if (c == ProdDiagCode::FEDSELECT_SLICE_HTTP_FETCH_SUCCEEDED) ++succeeded;
    if (c == ProdDiagCode::FEDSELECT_SLICE_HTTP_FETCH_REQUESTED_BUT_DISABLED) ++disabled;
  }
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
  mc::abslx::Mutex mu;
  int requested = 0, failed = 0, succeeded = 0, disabled = 0;
};
class TempDir : public Files {
 public:
  absl::StatusOr<std::string> CreateTempFile(const std::string& prefix, const std::string& suffix) override {
    mc::abslx::MutexLock l(&mu);
    if (fails) return absl::InternalError("no file");
    std::string p = mc::Scratch() + "/" + prefix + std::to_string(n++) + suffix;
    fclose(fopen(p.c_str(), "w"));
    return p;
  }
  mc::abslx::Mutex mu;
  int n = 0;
  bool fails = false;
};
MC_NOTSAN bool Exists(const std::string& p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0;
}
MC_NOTSAN std::string Raw(const std::string& p) {
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return "<none>";
  std::string s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
InterruptibleRunner::TimingConfig Timing() { return {absl::Milliseconds(10), absl::Seconds(10), absl::Seconds(20)}; }
ExampleSelector Selector(const std::string& id, const std::vector<int>& keys) {
  ExampleSelector s;
  SlicesSelector c;
  c.set_served_at_id(id);
  for (int k : keys) c.add_keys(k);
  s.set_collection_uri(kFederatedSelectCollectionUri);
  s.mutable_criteria()->PackFrom(c);
  return s;
}
std::string Replace(std::string t, const std::string& id, int key) {
  // Left to right, what was put in is not looked at again.
  std::string out;
  for (size_t i = 0; i < t.size();) {
    if (t.compare(i, 14, "{served_at_id}") == 0) {
      out += id;
      i += 14;
    } else if (t.compare(i, 12, "{key_base10}") == 0) {
      out += std::to_string(key);
      i += 12;
    } else {
      out += t[i++];
    }
  }
  return out;
}

// One query: addresses, contents, order, failures, accounting.
MC_SCENARIO(query, {.bound = 0, .bound_thorough = 0}) {
  static const std::vector<std::string> kTemplates = {"https://h/{served_at_id}/{key_base10}", "https://h/x?k={key_base10}&s={served_at_id}&again={key_base10}",
                                                      "https://h/fixed", "https://h/{unknown}/{key_base10}{served_at_id}", ""};
  static const std::vector<std::string> kIds = {"id-1", "", "{key_base10}", "a/b{served_at_id}"};
  int tp = ctx.Choose(kTemplates.size(), "template");
  const std::string tmpl = kTemplates[tp];
  const std::string id = kIds[ctx.Choose(kIds.size(), "served at")];
  static const std::vector<std::vector<int>> kKeys = {{}, {0}, {7, 3}, {5, 5}, {-1, INT32_MAX, 0}};
  std::vector<int> keys = kKeys[ctx.Choose(kKeys.size(), "keys")];
  int bad = ctx.Choose((int)keys.size() + 1, "failing slice") - 1;
  int kind = bad >= 0 ? ctx.Choose(4, "how it fails") : 0;
  int other = ctx.Choose(4, "otherwise");  // 1: not a slices query, 2: no file, 3: the requests cannot be made
  if (other && bad >= 0) ctx.Prune();
  if (other == 3 && keys.empty()) ctx.Prune();  // nothing to request
  mc::WipeScratch();
  Log log;
  TempDir files;
  files.fails = other == 2;
  fk::Client client;
  client.fail = [&](const std::string& m) { ctx.Fail(m); };
  // Resources are requested in the order of the keys, the same address perhaps once.
  std::vector<std::string> uris;
  for (int k : keys) uris.push_back(Replace(tmpl, id, k));
  std::string bad_uri = bad >= 0 ? uris[bad] : "";
  int64_t sent = 0, received = 0;
  client.serve = [&](const fk::Call& c) {
    fk::Reply r;
    int h = 0;
    for (size_t i = 0; i < uris.size(); ++i) {
      if (uris[i] == c.uri) h = i + 1;
    }
    r.sent = 10 + h;
    r.received = 1000 + h * 100;
    sent += r.sent;
    received += r.received;
    r.chunks = {"slice of ", c.uri};
    if (!bad_uri.empty() && c.uri == bad_uri) {
      if (kind == 0) r.code = 404;
      if (kind == 1) r.code = 503;
      if (kind == 2) r.kind = fk::Reply::kFail, r.error = absl::UnavailableError("net");
      if (kind == 3) r.kind = fk::Reply::kFailInBody, r.error = absl::InternalError("net");
    }
    return r;
  };
  if (other == 3) client.perform_error = [] { return absl::InternalError("cannot"); };
  sched::Run(ctx, [&] {
    HttpFederatedSelectManager mgr(&log, &files, &client, [] { return false; }, Timing());
    auto factory = mgr.CreateExampleIteratorFactoryForUriTemplate(tmpl);
    ExampleSelector sel = Selector(id, keys);
    ctx.Check(factory->CanHandle(sel) && !factory->ShouldCollectStats(), "the factory does not take slice queries");
    ExampleSelector foreign = sel;
    foreign.set_collection_uri("app:/data");
    ctx.Check(!factory->CanHandle(foreign), "the factory takes other queries");
    if (other == 1) sel.mutable_criteria()->PackFrom(ExampleSelector());
    auto it = factory->CreateExampleIterator(sel);
    ctx.Step("query");
    bool ok = tp != 4 && !other && bad < 0;
    ctx.Check(it.ok() == ok, ok ? "query failed: " + it.status().ToString() : "query succeeded");
    std::multiset<std::string> asked, should;
    for (auto& c : client.calls) {
      asked.insert(c.uri);
      ctx.Eq(c.method, "GET", "method");
    }
    if (tp != 4 && other != 1 && other != 2) should.insert(uris.begin(), uris.end());
    ctx.Check(std::set<std::string>(asked.begin(), asked.end()) == std::set<std::string>(should.begin(), should.end()), "requests made");
    auto st = mgr.GetNetworkStats();
    ctx.Eq(st.bytes_downloaded, received, "bytes received");
    ctx.Eq(st.bytes_uploaded, sent, "bytes sent");
    ctx.Eq(log.disabled, tp == 4 ? 1 : 0, "diagnostics for a disabled query");
    ctx.Eq(log.requested, tp != 4 && other != 1 ? 1 : 0, "diagnostics for the request");
    ctx.Eq(log.succeeded, ok ? 1 : 0, "diagnostics for success");
    if (!ok) {
      Code c = it.status().code();
      Code wanted = tp == 4 || other == 1 ? Code::kInvalidArgument : other ? Code::kInternal : Code::kUnavailable;
      ctx.Check(c == wanted, "query failed with " + it.status().ToString());
      return;
    }
    for (size_t i = 0; i < keys.size(); ++i) {
      auto f = (*it)->Next();
      ctx.Step("next");
      ctx.Check(f.ok(), "slice missing: " + f.status().ToString());
      ctx.Eq(Raw(*f), "slice of " + uris[i], "slice " + std::to_string(i));
    }
    ctx.Check((*it)->Next().status().code() == Code::kOutOfRange, "more slices than keys");
    (*it)->Close();
  });
}
// Two threads at one iterator: each slice is given out once, nothing after
// closing, no file left.
MC_SCENARIO(shared_iterator, {.bound = 4, .bound_thorough = 6}) {
  mc::WipeScratch();
  const std::string path = mc::Scratch() + "/slice.ckp";
  int n = ctx.Choose(3, "slices");
  bool close = ctx.Flip("closes");
  int calls = 1 + ctx.Choose(2, "calls");
  int given[2] = {0, 0}, late = 0;
  mc::atomic<bool> closed{false};
  sched::Run(ctx, [&] {
    given[0] = given[1] = late = 0;
    closed = false;
    std::deque<absl::Cord> q;
    for (int i = 0; i < n; ++i) q.push_back(absl::Cord("content " + std::to_string(i)));
    auto it = std::make_unique<InMemoryFederatedSelectExampleIterator>(path, std::move(q));
    std::vector<mc::thread> th;
    for (int t = 0; t < 2; ++t)
      th.emplace_back([&, t] {
        for (int i = 0; i < calls; ++i) {
          bool was = closed;
          auto r = it->Next();
          if (r.ok()) given[t]++;
          if (was && r.ok()) late = 1;
        }
        if (close && t == 0) {
          it->Close();
          closed = true;
        }
      });
    for (auto& t : th) t.join();
    bool done = close || given[0] + given[1] < 2 * calls;
    if (close) ctx.Check(it->Next().status().code() == Code::kOutOfRange, "a slice after closing");
    if (done) ctx.Check(!Exists(path), "the file is still there");
    it.reset();
    ctx.Check(!Exists(path), "the file outlived the iterator");
  });
  ctx.Check(!late, "a slice was given out after closing");
  int sum = given[0] + given[1];
  ctx.Check(sum <= n, "a slice was given out twice");
  if (!close) ctx.Eq(sum, std::min(n, 2 * calls), "slices given out");
  ctx.Outcome(std::to_string(given[0]) + "," + std::to_string(given[1]));
}
// Two queries at once: contents do not mix, nothing is counted twice or lost.
MC_SCENARIO(parallel_queries, {.bound = 2, .bound_thorough = 3}) {
  mc::WipeScratch();
  Log log;
  TempDir files;
  fk::Client client;
  client.fail = [&](const std::string& m) { ctx.Fail(m); };
  bool fail = ctx.Flip("one fails");
  client.serve = [&](const fk::Call& c) {
    fk::Reply r;
    bool b = c.uri.find("/B/") != std::string::npos;
    r.sent = b ? 7 : 3;
    r.received = b ? 70 : 30;
    r.chunks = {c.uri};
    if (b && fail) r.code = 404;
    return r;
  };
  sched::Run(ctx, [&] {
    HttpFederatedSelectManager mgr(&log, &files, &client, [] { return false; }, Timing());
    auto fa = mgr.CreateExampleIteratorFactoryForUriTemplate("https://h/{served_at_id}/{key_base10}");
    auto fb = mgr.CreateExampleIteratorFactoryForUriTemplate("https://g/{served_at_id}/{key_base10}");
    auto use = [&](engine::ExampleIteratorFactory& f, const std::string& host, const std::string& id) {
      auto it = f.CreateExampleIterator(Selector(id, {1, 2}));
      if (id == "B" && fail) {
        ctx.Check(!it.ok(), "query succeeded");
        return;
      }
      ctx.Check(it.ok(), "query failed");
      for (int k = 1; k <= 2; ++k) {
        auto p = (*it)->Next();
        ctx.Check(p.ok(), "no slice");
        ctx.Eq(Raw(*p), host + id + "/" + std::to_string(k), "slice");
      }
      ctx.Check(!(*it)->Next().ok(), "too many slices");
    };
    mc::thread t([&] { use(*fa, "https://h/", "A"); });
    use(*fb, "https://g/", "B");
    t.join();
    auto st = mgr.GetNetworkStats();
    ctx.Eq(st.bytes_downloaded, 200, "bytes received");
    ctx.Eq(st.bytes_uploaded, 20, "bytes sent");
  });
}
static int init = (mc::Rule("a query yields exactly the slices of its keys in order, or an error; what was transferred is counted once"), 0);
}  // namespace
