// C24: URI construction, header lookup and status mapping.
#include "common/mc.h"
#include "absl/strings/str_split.h"
#include "absl/strings/strip.h"
#include "fcp/client/http/http_client_util.h"
#include "fcp/client/http/protocol_request_helper.h"

#include <algorithm>
#include <climits>

using namespace fcp::client::http;
using google::internal::federatedcompute::v1::ForwardingInfo;
namespace {
bool Unreserved(unsigned char c) {
  return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '-' || c == '_' || c == '.' || c == '~';
}
// Strict decoding: '%' is always followed by exactly two hex digits.
bool Decode(const std::string& s, bool slash, std::string* out) {
  auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%') {
      if (i + 2 >= s.size()) return false;
      int a = hex(s[i + 1]), b = hex(s[i + 2]);
      if (a < 0 || b < 0) return false;
      *out += char(a * 16 + b);
      i += 2;
    } else if (Unreserved(s[i]) || (slash && s[i] == '/')) {
      *out += s[i];
    } else {
      return false;
    }
  }
  return true;
}
void CheckEncoding(mc::Ctx& ctx, const std::string& in) {
  bool ascii = true;
  for (unsigned char c : in) ascii &= c < 128;
  for (bool slash : {false, true}) {
    auto r = slash ? EncodeUriMultiplePathSegments(in) : EncodeUriSinglePathSegment(in);
    ctx.Step();
    ctx.Eq(r.ok(), ascii, "accepted " + mc::Hex(in));
    if (!ascii) {
      ctx.Check(r.status().code() == absl::StatusCode::kInvalidArgument, "wrong error");
      continue;
    }
    std::string back;
    ctx.Check(Decode(*r, slash, &back), "'" + *r + "' is not a valid encoding of " + mc::Hex(in));
    ctx.Eq(mc::Hex(back), mc::Hex(in), "decodes to");
    if (slash) ctx.Eq(std::count(r->begin(), r->end(), '/'), std::count(in.begin(), in.end(), '/'), "separators");
    if (slash) {
      auto u = CreateByteStreamUploadUriSuffix(in);
      ctx.Check(u.ok(), "no upload path");
      ctx.Eq(*u, "/upload/v1/media/" + *r, "upload path");
    }
  }
  if (!ascii) ctx.Check(!CreateByteStreamUploadUriSuffix(in).ok(), "upload path for a name that cannot be encoded");
}
}  // namespace

// Every byte alone, between letters, and every pair of bytes.
MC_SCENARIO(encoding_bytes, {}) {
  int a = ctx.Choose(256, "first");
  CheckEncoding(ctx, std::string(1, char(a)));
  CheckEncoding(ctx, "x" + std::string(1, char(a)) + "y");
  for (int b = 0; b < 256; ++b) CheckEncoding(ctx, std::string(1, char(a)) + char(b));
}
MC_SCENARIO(encoding_strings, {}) {
  static const std::string kAlphabet("a/%\0\n .2~$\x7f:", 12);
  std::string s;
  int n = ctx.Choose(ctx.thorough() ? 6 : 5, "length");
  for (int i = 0; i < n; ++i) s += kAlphabet[ctx.Choose(kAlphabet.size(), "char")];
  CheckEncoding(ctx, s);
}
MC_SCENARIO(joining, {}) {
  static const std::string kAlphabet("a/:?");
  auto str = [&](const char* what, int max) {
    std::string s;
    int n = ctx.Choose(max + 1, what);
    for (int i = 0; i < n; ++i) s += kAlphabet[ctx.Choose(kAlphabet.size(), "char")];
    return s;
  };
  std::string base = str("base", 4), suffix = str("suffix", ctx.thorough() ? 5 : 4);
  auto r = JoinBaseUriWithSuffix(base, suffix);
  ctx.Step();
  bool good = suffix.empty() || suffix[0] == '/';
  ctx.Eq(r.ok(), good, "accepted '" + base + "' and '" + suffix + "'");
  if (!good) {
    ctx.Check(r.status().code() == absl::StatusCode::kInvalidArgument, "wrong error");
    return;
  }
  std::string want = base;
  if (!want.empty() && want.back() == '/') want.pop_back();
  want += '/';
  want += suffix.empty() ? "" : suffix.substr(1);
  ctx.Eq(*r, want, "joined");
}
MC_SCENARIO(headers, {}) {
  static const std::vector<std::string> kNames = {"content-length", "Content-Length", "CONTENT-LENGTH", "content-lengt", "content-length ",
                                                  "x", "", "\xc3\x84", "\xc3\xa4"};
  static const std::vector<std::string> kValues = {"1", " 2 ", ""};
  auto lower = [](std::string s) {
    for (char& c : s)
      if (c >= 'A' && c <= 'Z') c += 32;
    return s;
  };
  HeaderList h;
  int n = ctx.Choose(4, "headers");
  for (int i = 0; i < n; ++i) h.push_back({ctx.Pick(kNames, "name"), n == 3 ? kValues[i] : ctx.Pick(kValues, "value")});
  for (const auto& needle : kNames) {
    auto r = FindHeader(h, needle);
    ctx.Step();
    std::optional<std::string> want;
    for (auto& [k, v] : h)
      if (!want && lower(k) == lower(needle)) want = v;
    ctx.Eq(r.has_value(), want.has_value(), "header '" + needle + "' found");
    if (want) ctx.Eq(*r, *want, "value");
  }
}
namespace {
absl::StatusCode Canonical(int c) {
  using S = absl::StatusCode;
  static const std::map<int, S> kMap = {{400, S::kInvalidArgument}, {401, S::kUnauthenticated}, {403, S::kPermissionDenied}, {404, S::kNotFound},
                                        {409, S::kAborted}, {429, S::kResourceExhausted}, {499, S::kCancelled}, {501, S::kUnimplemented},
                                        {503, S::kUnavailable}, {504, S::kDeadlineExceeded}};
  auto it = kMap.find(c);
  if (it != kMap.end()) return it->second;
  if (c / 100 == 2 && c > 0) return S::kOk;
  if (c / 100 == 4 && c > 0) return S::kFailedPrecondition;
  if (c / 100 == 5 && c > 0) return S::kInternal;
  return S::kUnknown;
}
}  // namespace
MC_SCENARIO(http_codes, {}) {
  std::vector<int> codes = {INT_MIN, INT_MAX, -1, -200, -404, 65536 + 200, 65536 + 404};
  for (int i = 0; i < 1200; ++i) codes.push_back(i);
  int c = ctx.Pick(codes, "code");
  absl::Status s = ConvertHttpCodeToStatus(c);
  ctx.Step();
  ctx.Eq(s.code(), Canonical(c), "status of " + std::to_string(c));
  if (!s.ok()) ctx.Check(std::string(s.message()).find(std::to_string(c)) != std::string::npos, "the message does not tell the code");
}
MC_SCENARIO(rpc_codes, {}) {
  std::vector<int> codes = {INT_MIN, INT_MAX, -1, 100};
  for (int i = 0; i < 30; ++i) codes.push_back(i);
  int c = ctx.Pick(codes, "code");
  std::string m = ctx.Pick(std::vector<std::string>{"", "message", std::string("z\0z", 3)}, "message");
  google::rpc::Status r;
  r.set_code(c);
  r.set_message(m);
  absl::Status s = ConvertRpcStatusToAbslStatus(r);
  ctx.Step();
  bool known = c >= 0 && c <= 16;
  ctx.Eq((int)s.code(), known ? c : 2, "code");
  if (c != 0) ctx.Eq(std::string(s.message()), m, "message");
  google::rpc::Status back = ConvertAbslStatusToRpcStatus(s);
  ctx.Eq(back.code(), known ? c : 2, "code converted back");
  ctx.Eq(back.message(), c == 0 ? "" : m, "message converted back");
}
MC_SCENARIO(methods, {}) {
  using M = HttpRequest::Method;
  static const std::vector<std::pair<M, std::string>> kAll = {{M::kGet, "GET"}, {M::kHead, "HEAD"}, {M::kDelete, "DELETE"},
                                                              {M::kPatch, "PATCH"}, {M::kPost, "POST"}, {M::kPut, "PUT"}};
  for (auto& [m, s] : kAll) ctx.Eq(ConvertMethodToString(m), s, "method");
}
// Requests made for a server: address, parameters, headers and body.
MC_SCENARIO(requests, {}) {
  std::string base = ctx.Pick(std::vector<std::string>{"https://a", "https://a/", "https://a/b", "http://localhost:1", "http://a", "", "HTTPS://a",
                                                       "http://localhost.evil", "ftp://https://a"}, "base");
  std::string path = ctx.Pick(std::vector<std::string>{"/v1/x", "", "v1"}, "path");
  int nparams = ctx.Choose(3, "params");
  int nhdr = ctx.Choose(3, "headers");
  bool proto = ctx.Flip("protobuf"), zip = ctx.Flip("compress");
  std::string body = ctx.Flip("body") ? "the body" : "";
  using M = HttpRequest::Method;
  M m = ctx.Pick(std::vector<M>{M::kPost, M::kGet, M::kHead, M::kPut, M::kPatch, M::kDelete}, "method");
  HeaderList hdrs;
  if (nhdr > 0) hdrs.push_back({"h1", "v1"});
  if (nhdr > 1) hdrs.push_back({"h1", "v2"});
  QueryParams params;
  if (nparams > 0) params["p"] = "1";
  if (nparams > 1) params["q"] = "%20";
  std::unique_ptr<ProtocolRequestCreator> c;
  if (ctx.Flip("forwarding info")) {
    if (nhdr > 1) ctx.Prune();
    ForwardingInfo f;
    f.set_target_uri_prefix(base);
    for (auto& [k, v] : hdrs) (*f.mutable_extra_request_headers())[k] = v;
    auto made = ProtocolRequestCreator::Create("key", f, zip);
    ctx.Eq(made.ok(), !base.empty(), "forwarding information accepted");
    if (!made.ok()) return;
    c = *std::move(made);
  } else {
    c = std::make_unique<ProtocolRequestCreator>(base, "key", hdrs, zip);
  }
  if (path.empty() && (proto || nparams)) ctx.Prune();  // parameters need a path
  auto r = c->CreateProtocolRequest(path, params, m, body, proto);
  ctx.Step();
  bool secure = base == "https://a" || base == "https://a/" || base == "https://a/b" || base == "http://localhost:1" || base == "HTTPS://a";
  bool good = secure && path != "v1" && !((zip || !body.empty()) && (m == M::kGet || m == M::kHead));
  ctx.Eq(r.ok(), good, "request made");
  if (!good) {
    ctx.Check(r.status().code() == absl::StatusCode::kInvalidArgument, "wrong error");
    return;
  }
  if (proto) params["%24alt"] = "proto";
  std::string uri((*r)->uri());
  std::pair<std::string, std::string> parts = absl::StrSplit(uri, absl::MaxSplits('?', 1));
  ctx.Eq(uri.find('?') != uri.npos, !params.empty(), "has parameters");
  ctx.Eq(parts.first, std::string(absl::StripSuffix(base, "/")) + (path.empty() ? "/" : path), "address");
  std::vector<std::string> got, want;
  if (!parts.second.empty()) got = absl::StrSplit(parts.second, '&');
  for (auto& [k, v] : params) want.push_back(k + "=" + v);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  ctx.Check(got == want, "parameters " + parts.second);
  ctx.Check((*r)->method() == m, "method");
  std::string sent;
  std::vector<char> buf(7);
  while (true) {
    auto n = (*r)->ReadBody(buf.data(), buf.size());
    if (!n.ok()) break;
    sent.append(buf.data(), *n);
  }
  ctx.Eq((*r)->HasBody(), !sent.empty(), "has a body");
  std::vector<std::string> hgot, hwant;
  for (auto& [k, v] : (*r)->extra_headers()) hgot.push_back(k + ": " + v);
  for (auto& [k, v] : hdrs) hwant.push_back(k + ": " + v);
  hwant.push_back("x-goog-api-key: key");
  if (proto && !body.empty()) hwant.push_back("Content-Type: application/x-protobuf");
  if (zip) hwant.push_back("Content-Encoding: gzip");
  if (!sent.empty()) hwant.push_back("Content-Length: " + std::to_string(sent.size()));
  if (!zip) ctx.Eq(sent, body, "body");
  auto norm = [](std::vector<std::string> v) {
    std::string s;
    for (auto& x : v) {
      size_t p = x.find(':');
      for (size_t i = 0; i < p; ++i) x[i] = tolower(x[i]);
    }
    std::stable_sort(v.begin(), v.end(), [](const std::string& a, const std::string& b) { return a.substr(0, a.find(':')) < b.substr(0, b.find(':')); });
    for (auto& x : v) s += x + "\n";
    return s;
  };
  ctx.Eq(norm(hgot), norm(hwant), "headers");
}
MC_SCENARIO(operation_requests, {}) {
  static const std::string kAlphabet("a/%\n\xff:");
  std::string name = "operations/";
  int n = ctx.Choose(4, "length");
  for (int i = 0; i < n; ++i) name += kAlphabet[ctx.Choose(kAlphabet.size(), "char")];
  bool cancel = ctx.Flip("cancel");
  ProtocolRequestCreator c("https://a", "key", {}, true);
  auto r = cancel ? c.CreateCancelOperationRequest(name) : c.CreateGetOperationRequest(name);
  ctx.Step();
  bool ascii = name.find('\xff') == name.npos;
  ctx.Eq(r.ok(), ascii, "request made");
  if (!ascii) return;
  std::string uri((*r)->uri());
  std::string head = "https://a/v1/", tail = std::string(cancel ? ":cancel" : "") + "?%24alt=proto";
  ctx.Check(uri.substr(0, head.size()) == head && uri.size() >= head.size() + tail.size() && uri.substr(uri.size() - tail.size()) == tail, "address " + uri);
  std::string back;
  ctx.Check(Decode(uri.substr(head.size(), uri.size() - head.size() - tail.size()), true, &back), "address " + uri);
  ctx.Eq(mc::Hex(back), mc::Hex(name), "operation name");
  ctx.Check((*r)->method() == (cancel ? HttpRequest::Method::kPost : HttpRequest::Method::kGet), "method");
  ctx.Check(!(*r)->HasBody(), "has a body");
}
static int init = (mc::Rule("all pairs of bytes and all strings up to the length over an alphabet of every byte class through a strict decoder; all base and "
                            "suffix strings over four characters; header lists up to three; every status code; all combinations of a request's parts"), 0);
