// A scripted HttpClient for controlled ("mt") harnesses.  It keeps to the
// documented contract of the interface; what each request is answered with is
// decided by `serve`.
#ifndef VERIF_FAKEHTTP_H_
#define VERIF_FAKEHTTP_H_
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "common/mcsched.h"
#include "fcp/client/http/http_client.h"
#include "fcp/client/http/http_client_util.h"
#include "mcsync/mcabsl.h"

namespace mc {
namespace fakehttp {
using fcp::client::http::HeaderList;
using fcp::client::http::HttpClient;
using fcp::client::http::HttpRequest;
using fcp::client::http::HttpRequestCallback;
using fcp::client::http::HttpRequestHandle;
using fcp::client::http::HttpResponse;

struct Call {
  std::string method, uri, body;
  HeaderList headers;
  bool has_body = false;
  int batch = 0;
  std::string header(const std::string& name) const {
    return fcp::client::http::FindHeader(headers, name).value_or("");
  }
};
struct Reply {
  enum Kind { kRespond, kFail, kFailInBody, kHang, kHangInBody } kind = kRespond;
  int code = 200;
  HeaderList headers;
  std::vector<std::string> chunks;
  absl::Status error;          // kFail, kFailInBody
  int64_t sent = 0, received = 0;
};
class Response : public HttpResponse {
 public:
  int code() const override { return r.code; }
  const HeaderList& headers() const override { return r.headers; }
  Reply r;
};
class Handle : public HttpRequestHandle {
 public:
  explicit Handle(std::unique_ptr<HttpRequest> q) : request(std::move(q)) {}
  ~Handle() override { if (gone) *gone = true; }
  SentReceivedBytes TotalSentReceivedBytes() const override {
    mc::abslx::MutexLock l(&mu);
    return {bytes.sent_bytes, bytes.received_bytes};
  }
  void Cancel() override {
    mc::abslx::MutexLock l(&mu);
    cancels++;
    if (cancels == 1) cancelled.Notify();
  }
  std::unique_ptr<HttpRequest> request;
  Response response;
  mutable mc::abslx::Mutex mu;
  mc::abslx::Notification cancelled;
  int cancels = 0;
  SentReceivedBytes bytes = {0, 0};
  bool used = false;
  bool* gone = nullptr;
};
class Client : public HttpClient {
 public:
  std::function<Reply(const Call&)> serve;
  std::function<absl::Status()> perform_error;   // checked after the requests were answered
  std::vector<Call> calls;
  int batches = 0;
  int threads = 0;          // answer the requests of a batch on threads of their own
  int read_size = 1000;     // how request bodies are read
  std::function<void(const std::string&)> fail;

  std::unique_ptr<HttpRequestHandle> EnqueueRequest(std::unique_ptr<HttpRequest> r) override {
    return std::make_unique<Handle>(std::move(r));
  }
  absl::Status PerformRequests(std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> requests) override {
    ++batches;
    std::vector<Reply> replies;
    for (auto& [h, c] : requests) {
      Handle* handle = static_cast<Handle*>(h);
      if (handle->used) return absl::InvalidArgumentError("handle used twice");
      handle->used = true;
      Call call;
      call.method = fcp::client::http::ConvertMethodToString(handle->request->method());
      call.uri = std::string(handle->request->uri());
      call.headers = handle->request->extra_headers();
      call.has_body = handle->request->HasBody();
      call.batch = batches;
      if (call.has_body) {
        std::string buf(read_size, '\0');
        while (true) {
          auto n = handle->request->ReadBody(buf.data(), buf.size());
          if (!n.ok()) break;
          call.body.append(buf.data(), *n);
        }
      }
      calls.push_back(call);
      replies.push_back(serve(call));
    }
    if (threads) {
      std::vector<mc::thread> th;
      for (size_t i = 0; i < requests.size(); ++i)
        th.emplace_back([&, i] { Answer(static_cast<Handle*>(requests[i].first), requests[i].second, replies[i]); });
      for (auto& t : th) t.join();
    } else {
      for (size_t i = 0; i < requests.size(); ++i)
        Answer(static_cast<Handle*>(requests[i].first), requests[i].second, replies[i]);
    }
    return perform_error ? perform_error() : absl::OkStatus();
  }

 private:
  void Answer(Handle* h, HttpRequestCallback* cb, const Reply& r) {
    h->response.r = r;
    {
      mc::abslx::MutexLock l(&h->mu);
      h->bytes = {r.sent, r.received};
    }
    if (r.kind == Reply::kHang) {
      h->cancelled.WaitForNotification();
      cb->OnResponseError(*h->request, absl::CancelledError("cancelled"));
      return;
    }
    if (r.kind == Reply::kFail) {
      cb->OnResponseError(*h->request, r.error);
      return;
    }
    if (!cb->OnResponseStarted(*h->request, h->response).ok()) return;
    for (const auto& c : r.chunks)
      if (!cb->OnResponseBody(*h->request, h->response, c).ok()) return;
    if (r.kind == Reply::kHangInBody) {
      h->cancelled.WaitForNotification();
      cb->OnResponseBodyError(*h->request, h->response, absl::CancelledError("cancelled"));
      return;
    }
    if (r.kind == Reply::kFailInBody) {
      cb->OnResponseBodyError(*h->request, h->response, r.error);
      return;
    }
    cb->OnResponseCompleted(*h->request, h->response);
  }
};
}  // namespace fakehttp
}  // namespace mc
#endif
