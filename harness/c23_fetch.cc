// C23: in-memory HTTP requests and responses.
#include <algorithm>
#include <climits>
#include <memory>
#include <vector>

#include "common/fakehttp.h"
#include "common/mcsched.h"
#include "fcp/base/compression.h"
#include "fcp/client/cache/resource_cache.h"
#include "fcp/client/http/http_resource_metadata.pb.h"
#include "fcp/client/http/in_memory_request_response.h"
#include "fcp/client/interruptible_runner.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
namespace fk = mc::fakehttp;
using namespace fcp::client::http;
using fcp::client::InterruptibleRunner;
using M = HttpRequest::Method;
using Code = absl::StatusCode;

class Log : public fcp::client::LogManager {
 public:
  void LogDiag(fcp::client::ProdDiagCode c) override {
    // The process is about to end; let the requests come to theirs first, since
    // here it is only this thread that ends.
    if (c == fcp::client::ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT) sched::UntilQuiet();
  }
  void LogDiag(fcp::client::DebugDiagCode) override {}
  void LogToLongHistogram(fcp::client::HistogramCounters, int, int, fcp::client::engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};
std::unique_ptr<InterruptibleRunner> MakeRunner(Log* log, std::function<bool()> f) {
  using P = fcp::client::ProdDiagCode;
  return std::make_unique<InterruptibleRunner>(
      log, std::move(f), InterruptibleRunner::TimingConfig{absl::Milliseconds(10), absl::Seconds(10), absl::Seconds(20)},
      InterruptibleRunner::DiagnosticsConfig{P::BACKGROUND_TRAINING_INTERRUPT_HTTP, P::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT,
                                             P::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED,
                                             P::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT});
}
std::string Unzip(const std::string& s) {
  auto r = fcp::UncompressWithGzip(s);
  return r.ok() ? std::string(*r) : "not gzip";
}

// ---- requests -------------------------------------------------------------
MC_SCENARIO(request_making, {}) {
  static const std::vector<std::string> kUris = {"https://h/p", "HTTPS://h", "http://localhost:80/x", "HTTP://LOCALHOST:8", "http://h", "http://localhost",
                                                 "http://localhostx:1", "", "xhttps://h", "https:/h"};
  int u = ctx.Choose(kUris.size(), "uri");
  M m = ctx.Pick(std::vector<M>{M::kPost, M::kGet, M::kHead, M::kPut, M::kPatch, M::kDelete}, "method");
  std::string body = ctx.Pick(std::vector<std::string>{"", "b", std::string("\0\x80z", 3), std::string(1000, 'q')}, "body");
  bool zip = ctx.Flip("compress");
  HeaderList h;
  int nh = ctx.Choose(3, "headers");
  if (nh >= 1) h.push_back({"some-header", "v"});
  if (nh == 2) h.push_back({ctx.Flip("case") ? "content-LENGTH" : "Content-Length", "3"});
  auto r = InMemoryHttpRequest::Create(kUris[u], m, h, body, zip);
  ctx.Step();
  bool has = zip || !body.empty();
  bool good = u < 4 && nh != 2 && !(has && (m == M::kGet || m == M::kHead));
  ctx.Eq(r.ok(), good, "request accepted");
  if (!good) {
    ctx.Check(r.status().code() == Code::kInvalidArgument, "wrong error");
    return;
  }
  ctx.Eq(std::string((*r)->uri()), kUris[u], "uri");
  ctx.Check((*r)->method() == m, "method");
  ctx.Eq((*r)->HasBody(), has, "has a body");
  std::string sent;
  int size = 1 + ctx.Choose(4, "read size") * 3;
  bool ended = false;
  for (int i = 0; i < 2000; ++i) {
    std::unique_ptr<char[]> b(new char[size + 8]);
    memset(b.get(), 'U', size + 8);
    auto n = (*r)->ReadBody(b.get(), size);
    ctx.Step();
    if (!n.ok()) {
      ctx.Check(n.status().code() == Code::kOutOfRange, "wrong error at the end");
      ctx.Check(std::string(b.get(), size + 8) == std::string(size + 8, 'U'), "buffer touched at the end");
      ended = true;
      break;
    }
    ctx.Check(*n >= 1 && *n <= size, "bytes read");
    ctx.Check(std::string(b.get() + *n, size + 8 - *n) == std::string(size + 8 - *n, 'U'), "buffer touched beyond the bytes read");
    sent.append(b.get(), *n);
  }
  ctx.Check(ended, "the body has no end");
  ctx.Check((*r)->ReadBody(nullptr, 0).status().code() == Code::kOutOfRange, "more after the end");
  ctx.Eq(mc::Hex(zip ? Unzip(sent) : sent), mc::Hex(body), "body");
  std::vector<std::string> got, want;
  for (auto& [k, v] : (*r)->extra_headers()) got.push_back(k + ": " + v);
  if (nh) want.push_back("some-header: v");
  if (zip) want.push_back("Content-Encoding: gzip");
  if (has) want.push_back("Content-Length: " + std::to_string(sent.size()));
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  ctx.Check(got == want, "headers");
}
// The body is handed out once although two threads take turns reading it.
MC_SCENARIO(body_readers, {.bound = 4, .bound_thorough = 6}) {
  std::string body = "0123456789";
  int size = 1 + ctx.Choose(4, "read size") * 2;
  std::string parts[2];
  sched::Run(ctx, [&] {
    auto r = *InMemoryHttpRequest::Create("https://h", M::kPost, {}, body, false);
    std::vector<mc::thread> th;
    for (int t = 0; t < 2; ++t)
      th.emplace_back([&, t] {
        parts[t].clear();
        char b[16];
        while (true) {
          auto n = r->ReadBody(b, size);
          if (!n.ok()) break;
          parts[t].append(b, *n);
        }
      });
    for (auto& t : th) t.join();
  });
  std::string all = parts[0] + parts[1];
  std::sort(all.begin(), all.end());
  ctx.Eq(all, body, "bytes read by both");
  ctx.Outcome(parts[0]);
}

// ---- one response -----------------------------------------------------------
struct Shape {
  fk::Reply reply;
  bool accept = false;
  // expected
  bool ok = false;
  Code code = Code::kUnknown;
  std::string body, encoding, type;
};
Code Canonical(int c) {
  static const std::map<int, Code> kMap = {{400, Code::kInvalidArgument}, {401, Code::kUnauthenticated}, {403, Code::kPermissionDenied},
                                           {404, Code::kNotFound}, {409, Code::kAborted}, {429, Code::kResourceExhausted}, {499, Code::kCancelled},
                                           {501, Code::kUnimplemented}, {503, Code::kUnavailable}, {504, Code::kDeadlineExceeded}};
  auto it = kMap.find(c);
  if (it != kMap.end()) return it->second;
  return c / 100 == 2 ? Code::kOk : c / 100 == 4 ? Code::kFailedPrecondition : c / 100 == 5 ? Code::kInternal : Code::kUnknown;
}
Shape ChooseShape(Ctx& ctx) {
  Shape s;
  std::string body = ctx.Pick(std::vector<std::string>{"abcd", "", "x"}, "body");
  // Every way of cutting the body.
  for (size_t at = 0; at < body.size();) {
    size_t n = 1 + ctx.Choose(body.size() - at, "chunk");
    s.reply.chunks.push_back(body.substr(at, n));
    at += n;
  }
  enum { kAbsent, kExact, kLess, kMore, kText, kNegative, kEmpty, kHuge, kTrailing };
  int len = ctx.Choose(9, "length header");
  int announced = body.size();
  std::string text = std::to_string(body.size());
  if (len == kLess) text = std::to_string(announced = int(body.size()) - 1);
  if (len == kMore) text = std::to_string(announced = int(body.size()) + 1);
  if (len == kText) text = "abc";
  if (len == kNegative) text = "-1";
  if (len == kEmpty) text = "";
  if (len == kHuge) text = "99999999999999999999";
  if (len == kTrailing) text += "x";
  if (len == kLess && body.empty()) len = kNegative;
  if (len) s.reply.headers.push_back({ctx.Flip("case") ? "content-length" : "Content-Length", text});
  int enc = ctx.Choose(2, "encoding header");
  s.accept = enc && ctx.Flip("accepts encodings");
  if (enc) s.reply.headers.push_back({"Content-Encoding", "gzip"});
  int te = ctx.Choose(4, "transfer header");
  static const char* kTe[] = {"", "identity", "Identity", "chunked"};
  if (te) s.reply.headers.push_back({"Transfer-Encoding", kTe[te]});
  if (ctx.Flip("type header")) {
    s.reply.headers.push_back({"content-type", "text/x"});
    s.type = "text/x";
  }
  s.reply.code = ctx.Pick(std::vector<int>{200, 201, 404, 503, 302, 418, 599, 0}, "status");
  // Where it breaks off.
  int fail = ctx.Choose(4, "failure");
  static const Code kErr[] = {Code::kUnavailable, Code::kDeadlineExceeded};
  Code err = fail ? kErr[ctx.Choose(2, "error")] : Code::kOk;
  if (fail == 1) s.reply.kind = fk::Reply::kFail;
  if (fail == 2) s.reply.kind = fk::Reply::kFailInBody;
  if (fail == 3) {
    s.reply.kind = fk::Reply::kFailInBody;
    if (!s.reply.chunks.empty()) s.reply.chunks.pop_back();
  }
  s.reply.error = absl::Status(err, "the failure");
  // What must come out.
  if (fail == 1) {
    s.code = err;
  } else if (enc && !s.accept) {
    s.code = Code::kInvalidArgument;
  } else if (te == 3) {
    s.code = Code::kInvalidArgument;
  } else if (len == kText || len == kEmpty || len == kHuge || len == kTrailing) {
    s.code = Code::kInvalidArgument;
  } else if (len == kNegative) {
    s.code = Code::kOutOfRange;
  } else {
    int got = 0;
    bool over = false;
    for (auto& c : s.reply.chunks) {
      got += c.size();
      if (len && got > announced) over = true;
    }
    if (over) s.code = Code::kOutOfRange;
    else if (fail) s.code = err;
    else if (len && got != announced) s.code = Code::kInvalidArgument;
    else s.code = Canonical(s.reply.code);
    s.ok = s.code == Code::kOk;
    s.body = body;
    s.encoding = enc ? "gzip" : "";
  }
  return s;
}
void CheckResponse(Ctx& ctx, const absl::StatusOr<InMemoryHttpResponse>& r, const Shape& s, const std::string& what) {
  ctx.Check(r.ok() == s.ok, what + ": expected " + absl::StatusCodeToString(s.code) + ", got " + r.status().ToString());
  if (!s.ok) {
    ctx.Eq(absl::StatusCodeToString(r.status().code()), absl::StatusCodeToString(s.code), what + " error");
    return;
  }
  ctx.Eq(r->code, s.reply.code, what + " status");
  ctx.Eq(std::string(r->body), s.body, what + " body");
  ctx.Eq(r->content_encoding, s.encoding, what + " encoding");
  ctx.Eq(r->content_type, s.type, what + " type");
}
MC_SCENARIO(one_response, {.bound = 0, .bound_thorough = 0}) {
  Shape s = ChooseShape(ctx);
  // Straight through the callback: the client's side is exact here already.
  sched::Run(ctx, [&] {
    Log log;
    auto runner = MakeRunner(&log, [] { return false; });
    fk::Client http;
    http.serve = [&](const fk::Call&) { return s.reply; };
    s.reply.sent = 11;
    s.reply.received = 222;
    int64_t in = 1000, out = 5000;
    HeaderList h;
    if (s.accept) h.push_back({"Accept-Encoding", "gzip"});
    auto r = PerformRequestInMemory(http, *runner, *InMemoryHttpRequest::Create("https://h", M::kGet, h, "", false), &in, &out);
    ctx.Step();
    CheckResponse(ctx, r, s, "response");
    ctx.Eq(in, int64_t{1222}, "bytes received");
    ctx.Eq(out, int64_t{5011}, "bytes sent");
    ctx.Eq(http.calls.size(), size_t{1}, "requests");
  });
  ctx.Outcome(absl::StatusCodeToString(s.code));
}
// ---- batches ----------------------------------------------------------------
// A handful of very different answers; each comes back in its own place.
Shape Simple(int k, int i) {
  Shape s;
  s.reply.sent = 1 << (2 * i);
  s.reply.received = 1 << (2 * i + 1);
  std::string body = "body " + std::to_string(i);
  switch (k) {
    case 0:
      s.reply.chunks = {body};
      s.ok = true;
      s.code = Code::kOk;
      s.body = body;
      break;
    case 1:
      s.reply.chunks = {body.substr(0, 2), body.substr(2)};
      s.reply.headers = {{"Content-Length", std::to_string(body.size())}};
      s.ok = true;
      s.code = Code::kOk;
      s.body = body;
      break;
    case 2:
      s.reply.code = 404;
      s.code = Code::kNotFound;
      break;
    case 3:
      s.reply.kind = fk::Reply::kFailInBody;
      s.reply.error = absl::DataLossError("x");
      s.code = Code::kDataLoss;
      break;
    case 4:
      s.reply.kind = fk::Reply::kFail;
      s.reply.error = absl::UnavailableError("x");
      s.code = Code::kUnavailable;
      break;
  }
  return s;
}
MC_SCENARIO(batches, {.bound = 1, .bound_thorough = 2}) {
  int n = ctx.Choose(4, "requests");
  std::vector<Shape> s;
  for (int i = 0; i < n; ++i) s.push_back(Simple(ctx.Choose(5, "answer"), i));
  bool broken = ctx.Flip("performing fails");
  bool threads = n > 1 && ctx.Flip("threads");
  sched::Run(ctx, [&] {
    Log log;
    auto runner = MakeRunner(&log, [] { return false; });
    fk::Client http;
    http.threads = threads;
    http.serve = [&](const fk::Call& c) { return s[c.uri.back() - '0'].reply; };
    if (broken) http.perform_error = [] { return absl::InvalidArgumentError("broken"); };
    int64_t in = 0, out = 0;
    std::vector<std::unique_ptr<HttpRequest>> q;
    for (int i = 0; i < n; ++i) q.push_back(*InMemoryHttpRequest::Create("https://h/" + std::to_string(i), M::kGet, {}, "", false));
    auto r = PerformMultipleRequestsInMemory(http, *runner, std::move(q), &in, &out);
    ctx.Step();
    int64_t win = 0, wout = 0;
    for (auto& x : s) win += x.reply.received, wout += x.reply.sent;
    ctx.Eq(in, win, "bytes received");
    ctx.Eq(out, wout, "bytes sent");
    ctx.Eq(http.batches, 1, "calls of the HTTP client");
    if (broken) {
      ctx.Check(!r.ok() && r.status().code() == Code::kInvalidArgument, "failure of the whole is lost");
      return;
    }
    ctx.Check(r.ok(), "failed as a whole: " + r.status().ToString());
    ctx.Eq(r->size(), (size_t)n, "results");
    for (int i = 0; i < n; ++i) CheckResponse(ctx, (*r)[i], s[i], "request " + std::to_string(i));
  });
}
// An interruption at every moment cancels every request of the batch and is reported.
MC_SCENARIO(interruption, {.bound = 3, .bound_thorough = 4}) {
  int n = 1 + ctx.Choose(2, "requests");
  bool in_body = ctx.Flip("in the body");
  bool threads = ctx.Flip("threads");
  int at = ctx.Choose(3, "signal");
  sched::Run(ctx, [&] {
    Log log;
    int64_t t0 = mc::rt::NowNanos();
    auto runner = MakeRunner(&log, [&] { return mc::rt::NowNanos() - t0 >= at * 15'000'000; });
    fk::Client http;
    http.threads = threads;
    http.serve = [&](const fk::Call&) {
      fk::Reply r;
      r.kind = in_body ? fk::Reply::kHangInBody : fk::Reply::kHang;
      r.chunks = {"part"};
      r.received = 3;
      return r;
    };
    int64_t in = 0;
    std::vector<std::unique_ptr<HttpRequest>> q;
    for (int i = 0; i < n; ++i) q.push_back(*InMemoryHttpRequest::Create("https://h/" + std::to_string(i), M::kGet, {}, "", false));
    absl::StatusOr<std::vector<absl::StatusOr<InMemoryHttpResponse>>> r;
    try {
      r = PerformMultipleRequestsInMemory(http, *runner, std::move(q), &in, nullptr);
    } catch (mc::ProcessExit&) {
      ctx.Outcome("out of patience");
      return;
    }
    ctx.Step();
    ctx.Check(!r.ok() && r.status().code() == Code::kCancelled, "an interrupted fetch returned " + r.status().ToString());
    ctx.Eq(http.batches, at == 0 ? 0 : 1, "batches begun");
    ctx.Eq(in, int64_t{at == 0 ? 0 : 3 * n}, "bytes received");
  });
}
// ---- resources --------------------------------------------------------------
class Cache : public fcp::client::cache::ResourceCache {
 public:
  struct PutCall {
    std::string id, body;
    int format;
    absl::Duration age;
  };
  absl::Status Put(absl::string_view id, const absl::Cord& r, const google::protobuf::Any& m, absl::Duration age) override {
    HttpResourceMetadata md;
    bool ok = m.UnpackTo(&md);
    puts.push_back({std::string(id), std::string(r), ok ? (int)md.compression_format() : -1, age});
    return put;
  }
  absl::StatusOr<ResourceAndMetadata> Get(absl::string_view id, std::optional<absl::Duration> age) override {
    gets.push_back(std::string(id) + (age ? absl::FormatDuration(*age) : ""));
    auto it = have.find(std::string(id));
    if (it == have.end()) return get;
    return it->second;
  }
  std::map<std::string, ResourceAndMetadata> have;
  absl::Status put, get = absl::NotFoundError("none");
  std::vector<PutCall> puts;
  std::vector<std::string> gets;
};
MC_SCENARIO(resources, {.bound = 0, .bound_thorough = 0}) {
  using Fmt = UriOrInlineData::InlineData::CompressionFormat;
  int n = 1 + ctx.Choose(ctx.thorough() ? 4 : 3, "resources");
  bool caching = !ctx.Flip("no cache");
  bool put_fails = caching && ctx.Flip("cache refuses");
  bool get_fails = caching && ctx.Flip("cache broken");
  enum { kPlainUri, kZippedUri, kBadZip, kMissing, kInline, kInlineZip, kInlineBad, kHit, kHitZip, kHitBad, kInsecure, kKinds };
  std::vector<int> kind(n);
  std::vector<bool> id(n);
  for (int i = 0; i < n; ++i) {
    kind[i] = ctx.Choose(kKinds, "kind");
    bool uri = kind[i] <= kMissing;
    id[i] = (kind[i] >= kHit && kind[i] <= kHitBad) || (uri && ctx.Flip("has a cache id"));
  }
  auto raw = [](int i) { return "resource " + std::to_string(i) + std::string(30, 'r'); };
  auto zip = [&](int i) { return *fcp::CompressWithGzip(raw(i)); };
  sched::Run(ctx, [&] {
    Log log;
    auto runner = MakeRunner(&log, [] { return false; });
    fk::Client http;
    Cache cache;
    if (put_fails) cache.put = absl::ResourceExhaustedError("full");
    if (get_fails) cache.get = absl::InternalError("broken");
    http.serve = [&](const fk::Call& c) {
      int i = c.uri.back() - '0';
      fk::Reply r;
      r.sent = 1 << (2 * i);
      r.received = 2 << (2 * i);
      switch (kind[i]) {
        case kPlainUri: case kHit: case kHitZip: case kHitBad: r.chunks = {raw(i)}; break;
        case kZippedUri: r.chunks = {zip(i)}; r.headers = {{"Content-Type", "x/y+GZip"}}; break;
        case kBadZip: r.chunks = {"not gzip"}; r.headers = {{"Content-Type", "x/y+gzip"}}; break;
        case kMissing: r.code = 404; break;
      }
      return r;
    };
    std::vector<UriOrInlineData> res;
    bool insecure = false;
    std::vector<bool> fetched(n);
    for (int i = 0; i < n; ++i) {
      std::string cid = id[i] ? "id" + std::to_string(i) : "";
      std::string uri = "https://h/" + std::to_string(i);
      fetched[i] = kind[i] <= kMissing;
      switch (kind[i]) {
        case kInline: res.push_back(UriOrInlineData::CreateInlineData(absl::Cord(raw(i)), Fmt::kUncompressed)); break;
        case kInlineZip: res.push_back(UriOrInlineData::CreateInlineData(absl::Cord(zip(i)), Fmt::kGzip)); break;
        case kInlineBad: res.push_back(UriOrInlineData::CreateInlineData(absl::Cord("bad"), Fmt::kGzip)); break;
        case kInsecure:
          res.push_back(UriOrInlineData::CreateUri("http://h/" + std::to_string(i), "", absl::Hours(1)));
          insecure = true;
          break;
        default: res.push_back(UriOrInlineData::CreateUri(uri, cid, absl::Hours(i + 1)));
      }
      if (kind[i] >= kHit && kind[i] <= kHitBad) {
        HttpResourceMetadata md;
        md.set_compression_format(kind[i] == kHit ? RESOURCE_COMPRESSION_FORMAT_UNSPECIFIED : RESOURCE_COMPRESSION_FORMAT_GZIP);
        Cache::ResourceAndMetadata rm;
        rm.metadata.PackFrom(md);
        rm.resource = kind[i] == kHit ? absl::Cord(raw(i)) : kind[i] == kHitZip ? absl::Cord(zip(i)) : absl::Cord("bad");
        cache.have[cid] = rm;
        fetched[i] = !caching || kind[i] == kHitBad;
      }
    }
    int64_t in = 0, out = 0;
    auto r = FetchResourcesInMemory(http, *runner, res, &in, &out, caching ? &cache : nullptr);
    ctx.Step();
    if (insecure) {
      ctx.Check(!r.ok() && r.status().code() == Code::kInvalidArgument, "insecure address accepted");
      ctx.Eq(http.calls.size(), size_t{0}, "requests sent");
      return;
    }
    ctx.Check(r.ok(), "failed as a whole");
    ctx.Eq(r->size(), (size_t)n, "results");
    int64_t win = 0, wout = 0;
    size_t calls = 0;
    std::vector<Cache::PutCall> puts;
    for (int i = 0; i < n; ++i) {
      auto& x = (*r)[i];
      std::string what = "resource " + std::to_string(i);
      bool good = kind[i] != kBadZip && kind[i] != kMissing && kind[i] != kInlineBad;
      ctx.Check(x.ok() == good, what + ": " + x.status().ToString());
      if (good) {
        ctx.Eq(std::string(x->body), raw(i), what);
        ctx.Eq(x->code, 200, what + " status");
      } else if (kind[i] == kMissing) {
        ctx.Check(x.status().code() == Code::kNotFound, what + " error");
      }
      if (fetched[i]) {
        wout += 1 << (2 * i), win += 2 << (2 * i);
        ctx.Check(calls < http.calls.size(), what + " was not requested");
        ctx.Eq(http.calls[calls].uri, "https://h/" + std::to_string(i), "address");
        ctx.Eq(http.calls[calls].method, "GET", "method");
        ++calls;
        if (caching && id[i] && kind[i] != kMissing && kind[i] != kBadZip)
          puts.push_back({"id" + std::to_string(i), kind[i] == kZippedUri ? zip(i) : raw(i), kind[i] == kZippedUri ? 1 : 0, absl::Hours(i + 1)});
      }
    }
    ctx.Eq(http.calls.size(), calls, "requests");
    ctx.Eq(in, win, "bytes received");
    ctx.Eq(out, wout, "bytes sent");
    // An undecodable body may be kept or not: it is never served.
    auto bad = [&](const Cache::PutCall& p) { return kind[p.id.back() - '0'] == kBadZip; };
    cache.puts.erase(std::remove_if(cache.puts.begin(), cache.puts.end(), bad), cache.puts.end());
    ctx.Eq(cache.puts.size(), puts.size(), "resources cached");
    for (size_t i = 0; i < puts.size(); ++i) {
      ctx.Eq(cache.puts[i].id, puts[i].id, "cached id");
      ctx.Eq(mc::Hex(cache.puts[i].body), mc::Hex(puts[i].body), "cached body");
      ctx.Eq(cache.puts[i].format == RESOURCE_COMPRESSION_FORMAT_GZIP, puts[i].format == 1, "cached as gzip");
      ctx.Check(cache.puts[i].age == puts[i].age, "cached for");
    }
  });
}
static int init = (mc::Rule("all combinations of request parts and read sizes; all combinations of status, length, encoding, transfer and type headers, chunking "
                            "and failure point of one response; batches of up to three; interruptions under every schedule within the bound; all mixes of "
                            "fetched, inline and cached resources"), 0);
}  // namespace
