// C25: header blocks are parsed into exactly the final response.
#include "absl/strings/ascii.h"
#include "common/mc.h"
#include "fcp/client/http/curl/curl_header_parser.h"
#include "fcp/client/http/curl/curl_http_response.h"

using fcp::client::http::HeaderList;
using fcp::client::http::curl::CurlHeaderParser;
using fcp::client::http::curl::CurlHttpResponse;

namespace {
struct Line {
  std::string text, key, value;
  bool hop;  // dropped when curl decodes the body
};
const std::vector<Line> kHeaders = {
    {"Content-Length: 5\r\n", "Content-Length", "5", true},
    {"content-encoding: gzip\r\n", "content-encoding", "gzip", true},
    {"Transfer-Encoding:chunked\r\n", "Transfer-Encoding", "chunked", true},
    {"Location: http://example.com:8080/a?b=c:d\r\n", "Location", "http://example.com:8080/a?b=c:d", false},
    {"X-Empty:\r\n", "X-Empty", "", false},
    {"X-Space: \t  a b \t \r\n", "X-Space", "a b", false},
    {"Set-Cookie: a=1\r\n", "Set-Cookie", "a=1", false},
    {"Set-Cookie: b=2\r\n", "Set-Cookie", "b=2", false},
    {"Date: Wed, 21 Oct 2015 07:28:00 GMT\r\n", "Date", "Wed, 21 Oct 2015 07:28:00 GMT", false},
    {"X-Content-Length: 7\r\n", "X-Content-Length", "7", false},
    {"Via:HTTP/2 301 x\r\n", "Via", "HTTP/2 301 x", false},
    {"X-Version: HTTP/1.1 500\r\n", "X-Version", "HTTP/1.1 500", false},
};
struct St {
  std::string text;
  int code;
};
const std::vector<St> kFinal = {{"HTTP/1.1 200 OK\r\n", 200},          {"HTTP/2 404 \r\n", 404},
                                {"HTTP/1.1 503 Try 100 later\r\n", 503}, {"HTTP/2 200\r\n", 200},
                                {"HTTP/1.0 401 Unauthorized: no\r\n", 401}, {"HTTP/1.1 304 Not Modified\r\n", 304}};
std::string Show(const HeaderList& h) {
  std::string s;
  for (auto& [k, v] : h) s += "[" + k + "=" + v + "]";
  return s;
}
}  // namespace

MC_SCENARIO(header_blocks, {}) {
  CurlHeaderParser p;
  bool enc = ctx.Flip("curl decodes the body");
  if (enc) p.UseCurlEncoding();
  ctx.Check(!p.IsLastHeader(), "finished before anything was read");
  int moved = ctx.Choose(3, "permanent redirects before the response");
  int maxh = ctx.thorough() ? 4 : 3;
  HeaderList want;
  std::string st;
  int code = 0;
  auto block = [&](const std::string& status, int c, int max_headers) {
    p.ParseHeader(status);
    ctx.Step(status);
    code = c;
    want.clear();
    ctx.Eq(p.GetStatusCode(), code, "status");
    ctx.Check(p.GetHeaderList().empty(), "headers of an earlier response kept");
    int n = ctx.Choose(max_headers + 1, "headers");
    for (int i = 0; i < n; ++i) {
      const Line& l = ctx.Pick(kHeaders, "header");
      p.ParseHeader(l.text);
      ctx.Step(l.text);
      if (!enc || !l.hop) want.push_back({l.key, l.value});
      ctx.Eq(Show(p.GetHeaderList()), Show(want), "headers so far");
      ctx.Eq(p.GetStatusCode(), code, "status");
      ctx.Check(!p.IsLastHeader(), "finished in the middle of the headers");
      st += l.text;
    }
    p.ParseHeader("\r\n");
    ctx.Step("end of block");
  };
  for (int i = 0; i < moved; ++i) {
    block("HTTP/1.1 301 Moved Permanently\r\n", 301, i == 0 ? 1 : 0);
    ctx.Check(!p.IsLastHeader(), "finished at a redirect");
  }
  const St& f = ctx.Pick(kFinal, "status");
  block(f.text, f.code, moved ? maxh - 1 : maxh);
  ctx.Check(p.IsLastHeader(), "the end of the headers was missed");
  ctx.Eq(p.GetStatusCode(), f.code, "status");
  ctx.Eq(Show(p.GetHeaderList()), Show(want), "headers");
  CurlHttpResponse r(p.GetStatusCode(), p.GetHeaderList());
  ctx.Eq(r.code(), f.code, "response status");
  ctx.Eq(Show(r.headers()), Show(want), "response headers");
  ctx.State(st + f.text + std::to_string(moved) + std::to_string(enc));
  ctx.Outcome(std::to_string(f.code));
}
static int init = (mc::Rule("Every response of up to 3 (4) headers out of 12, after 0-2 permanent redirects, 6 status "
                            "lines, with and without transparent decoding."),
                   0);
