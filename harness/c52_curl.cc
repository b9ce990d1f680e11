// C52: HTTP requests over libcurl (CurlHttpClient), with libcurl scripted.
#include <curl/curl.h>

#include <cstdarg>
#include <deque>
#include <map>

#include "common/mc.h"
#include "fcp/client/http/curl/curl_api.h"
#include "fcp/client/http/curl/curl_http_client.h"
#include "fcp/client/http/http_client.h"

using fcp::client::http::HeaderList;
using fcp::client::http::HttpRequest;
using fcp::client::http::HttpRequestCallback;
using fcp::client::http::HttpRequestHandle;
using fcp::client::http::HttpResponse;
namespace {
const std::vector<std::string> kMoved = {"HTTP/1.1 301 Moved Permanently\r\n", "Location: elsewhere\r\n", "\r\n"};
const std::vector<std::string> kFinal = {"HTTP/1.1 404 Not Found\r\n", "Content-Length: 5\r\n", "X: y: z\r\n", "\r\n"};
const std::vector<std::string> kChunks = {"ab", "cde"};
enum Who { kNobody, kEarly, kBeforeAnswer, kOnStarted, kOnBody, kOnBody2, kLate, kWhos };

// What one request does and what is done to it.
struct Script {
  HttpRequest::Method method = HttpRequest::Method::kGet;
  bool length = false, encoding = false;
  int body = 0;            // pieces
  int body_fails = -1;     // at this piece
  bool moved = false;
  int chunks = 2;
  int fails = -1;          // transport fails before this event of the answer
  int refuses = 0;         // 1 the start, 2.. that piece of the body
  int cancel = kNobody;
  bool progress = true;    // libcurl asks whether to go on before each event
  bool add_fails = false;
  HttpRequestHandle* handle = nullptr;
  std::vector<std::string> calls;
  std::string data, sent, wire;
  bool over = false;  // PerformRequests has returned
  bool Unsupported() const { return method == HttpRequest::Method::kPatch || method == HttpRequest::Method::kDelete; }
  std::vector<std::string> Answer() const {
    std::vector<std::string> v;
    if (moved) v.insert(v.end(), kMoved.begin(), kMoved.end());
    v.insert(v.end(), kFinal.begin(), kFinal.end());
    return v;
  }
};
struct Multi;
struct Easy {
  std::map<int, long> nums = {{CURLOPT_SSL_VERIFYPEER, 1}, {CURLOPT_SSL_VERIFYHOST, 2}, {CURLOPT_NOPROGRESS, 1}};
  std::map<int, void*> ptrs;
  std::map<int, std::string> texts;
  char* error = nullptr;
  Multi* multi = nullptr;
  Script* s = nullptr;
  size_t at = 0;
  int piece = 0;
  bool asked = false;
  curl_off_t up = 0, down = 0;
};
struct Multi {
  std::vector<Easy*> active;
  std::deque<CURLMsg> done;
  CURLMsg last;
};
mc::Ctx* g_ctx;
std::map<std::string, Script*> g_scripts;  // by uri
int g_easy, g_multi, g_lists;
bool g_together;  // libcurl advances all requests at once

// The request as libcurl would send it.
std::string Wire(Easy& e) {
  std::string s = e.ptrs.count(CURLOPT_HTTPGET) || e.nums.count(CURLOPT_HTTPGET) ? "GET"
                  : e.nums.count(CURLOPT_NOBODY)                                 ? "HEAD"
                  : e.nums.count(CURLOPT_POST)                                   ? "POST"
                  : e.nums.count(CURLOPT_UPLOAD)                                 ? "PUT"
                  : e.ptrs.count(CURLOPT_CUSTOMREQUEST)                          ? "?"
                                                                                 : "GET";
  s += " " + e.texts[CURLOPT_URL];
  if (e.nums.count(CURLOPT_POSTFIELDSIZE)) s += " length=" + std::to_string(e.nums[CURLOPT_POSTFIELDSIZE]);
  if (e.nums.count(CURLOPT_INFILESIZE)) s += " length=" + std::to_string(e.nums[CURLOPT_INFILESIZE]);
  if (e.texts.count(CURLOPT_ACCEPT_ENCODING)) s += " decode=" + e.texts[CURLOPT_ACCEPT_ENCODING];
  for (auto* l = static_cast<curl_slist*>(e.ptrs[CURLOPT_HTTPHEADER]); l; l = l->next)
    if (std::string(l->data) != "Expect: ") s += std::string(" [") + l->data + "]";
  if (!e.nums[CURLOPT_SSL_VERIFYPEER] || !e.nums[CURLOPT_SSL_VERIFYHOST]) s += " unverified";
  if (!e.nums[CURLOPT_FOLLOWLOCATION]) s += " stays";
  if (e.texts.count(CURLOPT_COOKIEFILE) || e.texts.count(CURLOPT_COOKIEJAR) || e.texts.count(CURLOPT_COOKIE)) s += " cookies";
  return s;
}
void Finish(Multi* m, Easy* e, CURLcode code) {
  for (auto it = m->active.begin(); it != m->active.end(); ++it)
    if (*it == e) {
      m->active.erase(it);
      break;
    }
  CURLMsg msg;
  msg.msg = CURLMSG_DONE;
  msg.easy_handle = e;
  msg.data.result = code;
  m->done.push_back(msg);
}
// Advances one request by one event.
void Advance(Multi* m, Easy* e) {
  Script& s = *e->s;
  g_ctx->Step();
  bool sends = s.method == HttpRequest::Method::kPost || s.method == HttpRequest::Method::kPut;
  if (!e->asked) {
    e->asked = true;
    s.wire = Wire(*e);
    if (s.cancel == kBeforeAnswer) s.handle->Cancel();
  }
  auto xfer = reinterpret_cast<curl_xferinfo_callback>(e->ptrs[CURLOPT_XFERINFOFUNCTION]);
  if (s.progress && xfer && !e->nums[CURLOPT_NOPROGRESS] && xfer(e->ptrs[CURLOPT_XFERINFODATA], 0, 0, 0, 0))
    return Finish(m, e, CURLE_ABORTED_BY_CALLBACK);
  if (sends && e->piece >= 0) {
    char buffer[4];
    auto read = reinterpret_cast<curl_read_callback>(e->ptrs[CURLOPT_READFUNCTION]);
    size_t n = read(buffer, 1, sizeof(buffer), e->ptrs[CURLOPT_READDATA]);
    if (n == CURL_READFUNC_ABORT) return Finish(m, e, CURLE_ABORTED_BY_CALLBACK);
    if (n == 0)
      e->piece = -1;
    else
      ++e->piece, e->up += n, s.sent.append(buffer, n);
    return;
  }
  if (s.fails == int(e->at)) return Finish(m, e, CURLE_RECV_ERROR);
  auto lines = s.Answer();
  size_t at = e->at++;
  if (at < lines.size()) {
    auto header = reinterpret_cast<curl_write_callback>(e->ptrs[CURLOPT_HEADERFUNCTION]);
    std::string l = lines[at];
    if (header(l.data(), 1, l.size(), e->ptrs[CURLOPT_HEADERDATA]) != l.size()) return Finish(m, e, CURLE_WRITE_ERROR);
    return;
  }
  at -= lines.size();
  if (at < size_t(s.chunks)) {
    auto write = reinterpret_cast<curl_write_callback>(e->ptrs[CURLOPT_WRITEFUNCTION]);
    std::string c = kChunks[at];
    e->down += c.size();
    if (write(c.data(), 1, c.size(), e->ptrs[CURLOPT_WRITEDATA]) != c.size()) return Finish(m, e, CURLE_WRITE_ERROR);
    return;
  }
  Finish(m, e, CURLE_OK);
}
}  // namespace
// ------------------------------------------------------------------ libcurl
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
CURL* curl_easy_init() {
  ++g_easy;
  return new Easy;
}
void curl_easy_cleanup(CURL* c) {
  --g_easy;
  delete static_cast<Easy*>(c);
}
const char* curl_easy_strerror(CURLcode) { return "error"; }
const char* curl_multi_strerror(CURLMcode) { return "error"; }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  auto* e = static_cast<Easy*>(c);
  va_list a;
  va_start(a, o);
  if (o < CURLOPTTYPE_OBJECTPOINT) {
    e->nums[o] = va_arg(a, long);
  } else if (o < CURLOPTTYPE_OFF_T) {
    void* p = va_arg(a, void*);
    if (o == CURLOPT_URL || o == CURLOPT_ACCEPT_ENCODING || o == CURLOPT_CAINFO || o == CURLOPT_COOKIEFILE || o == CURLOPT_COOKIEJAR ||
        o == CURLOPT_COOKIE) {
      e->texts.erase(o);
      if (p) e->texts[o] = static_cast<char*>(p);
    } else {
      e->ptrs[o] = p;
    }
  } else {
    curl_off_t n = va_arg(a, curl_off_t);
    if (o == CURLOPT_POSTFIELDSIZE_LARGE) e->nums[CURLOPT_POSTFIELDSIZE] = n;
    if (o == CURLOPT_INFILESIZE_LARGE) e->nums[CURLOPT_INFILESIZE] = n;
  }
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
  auto* e = static_cast<Easy*>(c);
  va_list a;
  va_start(a, i);
  void* p = va_arg(a, void*);
  va_end(a);
  if (i == CURLINFO_PRIVATE) *static_cast<void**>(p) = e->ptrs[CURLOPT_PRIVATE];
  if (i == CURLINFO_SIZE_UPLOAD_T) *static_cast<curl_off_t*>(p) = e->up;
  if (i == CURLINFO_SIZE_DOWNLOAD_T) *static_cast<curl_off_t*>(p) = e->down;
  return CURLE_OK;
}
curl_slist* curl_slist_append(curl_slist* l, const char* s) {
  auto* n = new curl_slist{strdup(s), nullptr};
  ++g_lists;
  if (!l) return n;
  auto* p = l;
  while (p->next) p = p->next;
  p->next = n;
  return l;
}
void curl_slist_free_all(curl_slist* l) {
  while (l) {
    auto* n = l->next;
    free(l->data);
    delete l;
    --g_lists;
    l = n;
  }
}
CURLM* curl_multi_init() {
  ++g_multi;
  return reinterpret_cast<CURLM*>(new Multi);
}
CURLMcode curl_multi_cleanup(CURLM* m) {
  --g_multi;
  delete reinterpret_cast<Multi*>(m);
  return CURLM_OK;
}
CURLMcode curl_multi_add_handle(CURLM* m, CURL* c) {
  auto* e = static_cast<Easy*>(c);
  e->s = g_scripts[e->texts[CURLOPT_URL]];
  if (e->s->add_fails) return CURLM_OUT_OF_MEMORY;
  g_ctx->Check(!e->multi, "a handle is performed twice");
  e->multi = reinterpret_cast<Multi*>(m);
  e->multi->active.push_back(e);
  return CURLM_OK;
}
CURLMcode curl_multi_remove_handle(CURLM*, CURL*) { return CURLM_OK; }
CURLMcode curl_multi_perform(CURLM* mm, int* running) {
  auto* m = reinterpret_cast<Multi*>(mm);
  if (g_together) {
    for (auto* e : std::vector<Easy*>(m->active)) Advance(m, e);
  } else if (!m->active.empty()) {
    Advance(m, m->active[m->active.size() > 1 ? g_ctx->Choose(m->active.size(), "next") : 0]);
  }
  *running = m->active.size();
  return CURLM_OK;
}
CURLMsg* curl_multi_info_read(CURLM* mm, int* n) {
  auto* m = reinterpret_cast<Multi*>(mm);
  if (m->done.empty()) {
    *n = 0;
    return nullptr;
  }
  m->last = m->done.front();
  m->done.pop_front();
  *n = m->done.size();
  return &m->last;
}
CURLMcode curl_multi_poll(CURLM*, curl_waitfd*, unsigned, int, int*) { return CURLM_OK; }
CURLMcode curl_multi_wait(CURLM*, curl_waitfd*, unsigned, int, int*) { return CURLM_OK; }
CURLMcode curl_multi_wakeup(CURLM*) { return CURLM_OK; }
}
namespace {
int g_requests;
class Request : public HttpRequest {
 public:
  Request(Script* s, std::string uri) : s_(s), uri_(uri) {
    ++g_requests;
    if (s->length) headers_.push_back({"content-LENGTH", std::to_string(3 * s->body)});
    headers_.push_back({"X-One", "1: 2"});
    if (s->encoding) headers_.push_back({"Accept-Encoding", "identity"});
    headers_.push_back({"X-Two", "3"});
  }
  ~Request() override { --g_requests; }
  absl::string_view uri() const override { return uri_; }
  Method method() const override { return s_->method; }
  const HeaderList& extra_headers() const override { return headers_; }
  bool HasBody() const override { return s_->body > 0; }
  absl::StatusOr<int64_t> ReadBody(char* buffer, int64_t n) override {
    if (at_ == s_->body_fails) return absl::DataLossError("body");
    if (at_ == s_->body) return absl::OutOfRangeError("end");
    ++at_;
    memcpy(buffer, "xyz", 3);
    return 3;
  }
  Script* s_;
  std::string uri_;
  HeaderList headers_;
  int at_ = 0;
};
class Callback : public HttpRequestCallback {
 public:
  explicit Callback(Script* s) : s_(s) {}
  absl::Status OnResponseStarted(const HttpRequest&, const HttpResponse& r) override {
    std::string t = "started " + std::to_string(r.code());
    for (auto& [k, v] : r.headers()) t += " " + k + "=" + v;
    Add(t);
    if (s_->cancel == kOnStarted) s_->handle->Cancel();
    return s_->refuses == 1 ? absl::AbortedError("refused") : absl::OkStatus();
  }
  void OnResponseError(const HttpRequest&, const absl::Status& e) override { Add("error " + absl::StatusCodeToString(e.code())); }
  absl::Status OnResponseBody(const HttpRequest&, const HttpResponse&, absl::string_view d) override {
    Add("body");
    s_->data += std::string(d);
    ++n_;
    if (s_->cancel == kOnBody + n_ - 1 && n_ <= 2) s_->handle->Cancel();
    return s_->refuses == 1 + n_ ? absl::AbortedError("refused") : absl::OkStatus();
  }
  void OnResponseBodyError(const HttpRequest&, const HttpResponse&, const absl::Status& e) override {
    Add("body error " + absl::StatusCodeToString(e.code()));
  }
  void OnResponseCompleted(const HttpRequest&, const HttpResponse&) override { Add("completed"); }
  void Add(const std::string& x) {
    s_->calls.push_back(x);
    if (s_->over) s_->calls.push_back("(late)");
  }
  Script* s_;
  int n_ = 0;
};
std::string Join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += x + "; ";
  return s;
}
// What the callback should be told.
std::vector<std::string> Expected(const Script& s) {
  std::vector<std::string> v;
  bool sends = s.method == HttpRequest::Method::kPost || s.method == HttpRequest::Method::kPut;
  if (s.add_fails || s.Unsupported()) return {"error *"};
  if (s.cancel == kBeforeAnswer) return {"error CANCELLED"};
  if (sends && s.body_fails >= 0 && s.body_fails <= s.body) return {"error DATA_LOSS"};
  int head = s.Answer().size();
  if (s.fails >= 0 && s.fails < head) return {"error *"};
  v.push_back(std::string("started 404 ") + (s.encoding ? "Content-Length=5 " : "") + "X=y: z");
  if (s.cancel == kOnStarted) {
    v.push_back("body error CANCELLED");
    return v;
  }
  if (s.refuses == 1) return v;
  for (int i = 0; i < s.chunks; ++i) {
    if (s.fails == head + i) {
      v.push_back("body error *");
      return v;
    }
    v.push_back("body");
    if (s.cancel == kOnBody + i) {
      v.push_back("body error CANCELLED");
      return v;
    }
    if (s.refuses == 2 + i) return v;
  }
  if (s.fails == head + s.chunks)
    v.push_back("body error *");
  else
    v.push_back("completed");
  return v;
}
// The calls up to the first that ends the request; after Cancel() calls that
// were under way may follow.
void Compare(mc::Ctx& ctx, const Script& s) {
  auto want = Expected(s), got = s.calls;
  bool cancelled = !want.empty() && want.back().find("CANCELLED") != std::string::npos;
  if (cancelled && got.size() > want.size()) {
    for (size_t i = want.size(); i < got.size(); ++i)
      ctx.Check(got[i] == "body" || got[i].compare(0, 7, "started") == 0, "'" + got[i] + "' after a cancelled request ended");
    got.resize(want.size());
  }
  for (size_t i = 0; i < std::min(got.size(), want.size()); ++i)
    if (want[i].back() == '*' && got[i].compare(0, want[i].size() - 1, want[i], 0, want[i].size() - 1) == 0) got[i] = want[i];
  ctx.Eq(Join(got), Join(want), "what the callback was told");
  std::string data;
  int n = 0;
  for (auto& c : s.calls)
    if (c == "body") data += kChunks[n++];
  ctx.Eq(s.data, data, "data the callback was given");
}
std::string Sent(const Script& s, const std::string& uri) {
  const char* names[] = {"HEAD", "GET", "POST", "PUT"};
  bool sends = s.method == HttpRequest::Method::kPost || s.method == HttpRequest::Method::kPut;
  std::string t = std::string(names[int(s.method)]) + " " + uri;
  if (sends && s.length) t += " length=" + std::to_string(3 * s.body);
  return t;
}
void Perform(mc::Ctx& ctx, std::vector<Script>& scripts) {
  g_ctx = &ctx;
  g_scripts.clear();
  g_easy = g_multi = g_lists = g_requests = 0;
  {
    fcp::client::http::curl::CurlApi api;
    fcp::client::http::curl::CurlHttpClient client(&api);
    std::vector<std::unique_ptr<HttpRequestHandle>> handles;
    std::vector<std::unique_ptr<Callback>> callbacks;
    std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> requests;
    for (size_t i = 0; i < scripts.size(); ++i) {
      std::string uri = "https://server/" + std::to_string(i);
      g_scripts[uri] = &scripts[i];
      handles.push_back(client.EnqueueRequest(std::make_unique<Request>(&scripts[i], uri)));
      scripts[i].handle = handles.back().get();
      callbacks.push_back(std::make_unique<Callback>(&scripts[i]));
      requests.push_back({handles.back().get(), callbacks.back().get()});
      if (scripts[i].cancel == kEarly) scripts[i].handle->Cancel();
    }
    absl::Status r = client.PerformRequests(requests);
    for (auto& s : scripts) s.over = true;
    ctx.Eq(g_multi, 0, "groups of requests left over");
    bool refused = scripts.size() == 1 && (scripts[0].add_fails || scripts[0].Unsupported());
    ctx.Eq(r.ok(), !refused, "whether the requests were performed");
    for (size_t i = 0; i < scripts.size(); ++i) {
      Script& s = scripts[i];
      if (s.cancel == kLate) s.handle->Cancel();
      // (cancelling a request before it is performed has no effect)
      Compare(ctx, s);
      if (!s.add_fails && !s.Unsupported()) {
        std::string uri = "https://server/" + std::to_string(i), want = Sent(s, uri), head = s.wire.substr(0, want.size());
        ctx.Eq(head, want, "request sent");
        std::string rest = s.wire.substr(want.size());
        ctx.Eq(rest.find("unverified") == std::string::npos, true, "the server is verified");
        ctx.Check(rest.find("stays") == std::string::npos && rest.find("cookies") == std::string::npos && rest.find("signals") == std::string::npos,
                  "redirects, cookies or signals: " + rest);
        ctx.Check(rest.find("length=") == std::string::npos, "a length nobody gave: " + rest);
        ctx.Check((rest.find(" decode=gzip") != std::string::npos) == !s.encoding, "decoding: " + rest);
        size_t a = rest.find("[X-One: 1: 2]"), b = rest.find("[X-Two: 3]");
        ctx.Check(a != std::string::npos && b != std::string::npos && rest.find("[X-One", a + 1) == std::string::npos, "headers: " + rest);
        bool sends = s.method == HttpRequest::Method::kPost || s.method == HttpRequest::Method::kPut;
        bool all = sends && s.cancel != kBeforeAnswer && s.body_fails < 0;
        std::string body;
        for (int k = 0; k < s.body; ++k) body += "xyz";
        if (all) ctx.Eq(s.sent, body, "body sent");
        auto t = handles[i]->TotalSentReceivedBytes();
        ctx.Eq(int(t.sent_bytes), int(s.sent.size()), "bytes sent");
        ctx.Check(t.received_bytes >= int64_t(s.data.size()) && t.received_bytes <= 5, "bytes received");
      }
      size_t calls = s.calls.size();
      ctx.Check(!client.PerformRequests({requests[i]}).ok(), "a request was performed twice");
      ctx.Check(s.calls.size() == calls || s.cancel != kNobody, "a request refused the second time told its callback");
    }
    ctx.Eq(g_requests, int(scripts.size()), "requests while their handles live");
  }
  ctx.Eq(g_requests + g_easy + g_multi + g_lists, 0, "resources left over");
  std::string o;
  for (auto& s : scripts) o += s.calls.empty() ? "nothing " : s.calls.back() + " ";
  ctx.Outcome(o);
}
Script ChooseScript(mc::Ctx& ctx, bool detail) {
  Script s;
  if (detail) {
    s.method = HttpRequest::Method(ctx.Choose(6, "method"));
    bool sends = s.method == HttpRequest::Method::kPost || s.method == HttpRequest::Method::kPut;
    if (sends) {
      s.body = ctx.Choose(3, "body");
      s.body_fails = ctx.Choose(s.body + 2, "body fails") - 1;
      s.length = ctx.Flip("length");
    }
    s.encoding = ctx.Flip("encoding");
    s.add_fails = ctx.Flip("add fails");
    s.moved = ctx.Flip("moved");
    s.progress = !ctx.Flip("no progress");
  }
  if (s.add_fails || s.Unsupported()) return s;
  s.chunks = s.method == HttpRequest::Method::kHead ? 0 : ctx.Choose(3, "chunks");
  int events = s.Answer().size() + s.chunks;
  // (headers cut at their beginning, in the middle, before the last line)
  s.fails = detail ? ctx.Choose(events + 2, "fails") - 1 : ctx.Choose(3, "fails") - 1;
  if (!detail && s.fails >= 0) s.fails = s.fails ? events : 2;
  if (ctx.Flip("cancelled")) {
    const int whos[] = {kEarly, kBeforeAnswer, kOnStarted, kOnBody, kOnBody2, kLate};
    s.cancel = whos[ctx.Choose(6, "when")];
    // A request cancelled before it starts libcurl's work is not cancelled.
  } else {
    s.refuses = ctx.Choose(2 + s.chunks, "refuses");
  }
  return s;
}
}  // namespace
MC_SCENARIO(one, {}) {
  g_together = false;
  std::vector<Script> v = {ChooseScript(ctx, true)};
  Perform(ctx, v);
}
MC_SCENARIO(two, {}) {
  g_together = ctx.Flip("together");
  std::vector<Script> v;
  v.push_back(ChooseScript(ctx, false));
  Script other;
  other.chunks = 1;
  if (ctx.thorough()) other = ChooseScript(ctx, false);
  v.push_back(other);
  Perform(ctx, v);
}
static int init = (mc::Rule("callbacks follow the contract of the HTTP interface: each request is started at most once, delivers the body in order "
                            "and ends exactly once, as completed only if the transfer succeeded"),
                   mc::Assumption("libcurl is scripted: it calls back as documented and aborts when told to"), 0);
