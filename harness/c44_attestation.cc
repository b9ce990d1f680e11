// C44: attestation records logged in pieces reassemble to the original.
#include "common/mc.h"
#include "absl/strings/escaping.h"
#include "fcp/base/compression.h"
#include "fcp/client/attestation/extract_attestation_records.h"
#include "fcp/client/attestation/log_attestation_records.h"
#include "fcp/protos/confidentialcompute/verification_record.pb.h"

#include <openssl/sha.h>

using fcp::client::attestation::ExtractRecords;
using fcp::confidentialcompute::AttestationVerificationRecord;
namespace fa = fcp::client::attestation;
namespace {
std::string Noise(int n, uint32_t seed) {
  std::string s;
  uint32_t x = 2463534242u + seed * 2654435761u;
  for (int i = 0; i < n; ++i) {
    x ^= x << 13, x ^= x >> 17, x ^= x << 5;
    s.push_back(char(x >> 11));
  }
  return s;
}
AttestationVerificationRecord Make(int n, uint32_t seed, bool compressible = false) {
  AttestationVerificationRecord r;
  if (n > 0) {
    std::string body = compressible ? std::string(n, 'c') : Noise(n, seed);
    r.mutable_attestation_evidence()->mutable_root_layer()->set_remote_attestation_report(body);
  }
  if (seed % 2) r.mutable_data_access_policy();
  return r;
}
struct Line {
  std::string text;
  int record = -1;   // which record's piece this is
  bool data = false, end = false;
};
const char* kPrefix[] = {"fcp.attest: ", "11-16 03:31:08.123  1234  5678 D fcp.attest: ", "D/fcp.attest( 99): ", "a->b: fcp.attest: "};
std::vector<Line> LogOf(mc::Ctx& ctx, const AttestationVerificationRecord& r, int id, const char* prefix) {
  std::vector<Line> out;
  bool first = true, ended = false;
  fa::internal::LogSerializedVerificationRecordWith(r, [&](absl::string_view m, bool enclose) {
    ctx.Check(!ended, "a piece after the empty one");
    ctx.Check(m.size() <= 200, "a log message of " + std::to_string(m.size()) + " characters");
    ctx.Check(m.find('\n') == m.npos, "a line break in a log message");
    ctx.Check(m.find('<') == m.npos && m.find('>') == m.npos, "a bracket in a log message");
    Line l;
    if (!enclose) {
      ctx.Check(first, "an unbracketed message in the middle of a record");
    } else {
      l.record = id;
      l.data = !m.empty();
      l.end = m.empty();
      ended = m.empty();
    }
    first = false;
    l.text = std::string(prefix) + (enclose ? "<" : "") + std::string(m) + (enclose ? ">" : "");
    out.push_back(l);
  });
  ctx.Check(ended, "no empty piece at the end of a record");
  ctx.Steps(out.size());
  return out;
}
std::string Sha(const std::string& s) {
  unsigned char d[32];
  SHA256(reinterpret_cast<const unsigned char*>(s.data()), s.size(), d);
  static const char* h = "0123456789abcdef";
  std::string o;
  for (int i = 0; i < 32; ++i) o += h[d[i] >> 4], o += h[d[i] & 15];
  return o;
}
struct Got {
  std::string data, digest;
  int start, end;
};
std::vector<Got> Read(mc::Ctx& ctx, const std::vector<Line>& log, bool crlf = false, bool last_newline = true) {
  std::string text;
  for (size_t i = 0; i < log.size(); ++i) {
    text += log[i].text;
    if (crlf) text += "\r";
    if (i + 1 < log.size() || last_newline) text += "\n";
  }
  std::istringstream in(text);
  std::vector<Got> got;
  int n = ExtractRecords(in, [&](const fa::Record& r) {
    got.push_back({std::string(r.decompressed_record), r.digest, r.start_line, r.end_line});
  });
  ctx.Eq(n, (int)got.size(), "number of records returned");
  ctx.Steps(log.size());
  return got;
}
// Compares with the records whose pieces are all in place.  `doubtful` (may be
// -1) was damaged: it comes out unchanged or not at all.
void Compare(mc::Ctx& ctx, const std::vector<Line>& log, const std::vector<AttestationVerificationRecord>& recs, int doubtful,
             const std::vector<Got>& got) {
  size_t k = 0;
  for (int i = 0; i < (int)recs.size(); ++i) {
    int start = 0, end = 0;
    for (size_t j = 0; j < log.size(); ++j)
      if (log[j].record == i) {
        if (!start) start = j + 1;
        end = j + 1;
      }
    std::string want = recs[i].SerializeAsString();
    if (i == doubtful) {
      if (k >= got.size() || got[k].end != end) continue;
      ctx.Eq(mc::Hex(got[k].data), mc::Hex(want), "a damaged record came out different");
      ctx.Eq(got[k].digest, Sha(want), "digest");
      ctx.Outcome("harmless");
      ++k;
      continue;
    }
    ctx.Check(k < got.size(), "record " + std::to_string(i) + " is missing");
    ctx.Eq(mc::Hex(got[k].data), mc::Hex(want), "record " + std::to_string(i));
    ctx.Eq(got[k].digest, Sha(want), "digest");
    ctx.Eq(got[k].start, start, "first line");
    ctx.Eq(got[k].end, end, "last line");
    ++k;
  }
  ctx.Eq(got.size(), k, "records that were never logged came out");
}
const std::vector<std::string> kForeign = {"", "some other line", "I other.tag: <ABCD>", "I other.tag: <>", "I fcp.other: <ABCD>", "attest: <>", "fcp.attest: no brackets here",
                                           "fcp.attest: an open < bracket", "fcp.attest: a closed > bracket", "other <" + std::string(300, 'A'),
                                           "fcp.attest: backwards > and <", std::string(5000, 'x')};
}  // namespace

MC_SCENARIO(every_size, {}) {
  int n = ctx.Choose(ctx.thorough() ? 4000 : 620, "size");
  int seed = ctx.Choose(2, "seed");
  bool comp = ctx.Flip("compressible");
  auto r = Make(comp ? n * 37 : n, seed, comp);
  auto log = LogOf(ctx, r, 0, kPrefix[0]);
  Compare(ctx, log, {r}, -1, Read(ctx, log, ctx.Flip("crlf"), !ctx.Flip("no final newline")));
  ctx.Outcome(std::to_string(log.size()));
}
// Up to three records in a row with one foreign line of every kind at every position.
MC_SCENARIO(foreign_lines, {}) {
  static const int kSizes[] = {0, 100, 131, 132, 270, 420};
  int m = 1 + ctx.Choose(3, "records");
  std::vector<AttestationVerificationRecord> recs;
  std::vector<Line> log;
  const char* prefix = kPrefix[ctx.Choose(4, "prefix")];
  for (int i = 0; i < m; ++i) {
    recs.push_back(Make(kSizes[ctx.Choose(m == 3 && !ctx.thorough() ? 3 : 6, "size")], i));
    auto l = LogOf(ctx, recs.back(), i, prefix);
    log.insert(log.end(), l.begin(), l.end());
  }
  for (size_t at = 0; at <= log.size(); ++at)
    for (const auto& f : kForeign) {
      auto with = log;
      Line l;
      l.text = f;
      with.insert(with.begin() + at, l);
      Compare(ctx, with, recs, -1, Read(ctx, with));
    }
}
// Two records; the first, the second, or neither loses, repeats, swaps or alters a piece.
MC_SCENARIO(damage, {}) {
  static const int kSizes[] = {0, 60, 131, 270, 420};
  std::vector<AttestationVerificationRecord> recs;
  std::vector<Line> log;
  for (int i = 0; i < 3; ++i) {
    recs.push_back(Make(kSizes[i == 2 ? 1 : ctx.Choose(5, "size")], i));
    auto l = LogOf(ctx, recs.back(), i, kPrefix[0]);
    log.insert(log.end(), l.begin(), l.end());
  }
  int kind = ctx.Choose(6, "damage");
  int stride = ctx.thorough() ? 1 : 7;
  auto run = [&](const std::vector<Line>& bad, int doubtful) { Compare(ctx, bad, recs, doubtful, Read(ctx, bad)); };
  for (size_t j = 0; j < log.size(); ++j) {
    if (!log[j].data || log[j].record == 2) continue;
    auto bad = log;
    size_t p0 = log[j].text.find('<') + 1, p1 = log[j].text.size() - 1;
    switch (kind) {
      case 0:
        bad.erase(bad.begin() + j);
        run(bad, log[j].record);
        break;
      case 1:
        bad.insert(bad.begin() + j, log[j]);
        run(bad, log[j].record);
        break;
      case 2:
        if (!log[j + 1].data || log[j + 1].record != log[j].record) break;
        std::swap(bad[j], bad[j + 1]);
        run(bad, log[j].record);
        break;
      case 3:
        for (size_t p = p0 + (j % stride); p < p1; p += stride)
          for (char c : std::string("A/z=! ")) {
            if (log[j].text[p] == c) continue;
            bad = log;
            bad[j].text[p] = c;
            run(bad, log[j].record);
          }
        break;
      case 4:
        // Cut off in the middle: the piece has no closing bracket and is ignored, or is short.
        for (size_t p = p0 + (j % stride); p < p1; p += stride) {
          bad = log;
          bad[j].text = log[j].text.substr(0, p);
          run(bad, log[j].record);
          if (p == p0) continue;
          bad[j].text += ">";
          run(bad, log[j].record);
        }
        break;
      case 5:
        // The whole of the record's data is lost, only its end is left.
        bad.clear();
        for (auto& l : log)
          if (!(l.data && l.record == log[j].record)) bad.push_back(l);
        run(bad, log[j].record);
        break;
    }
  }
}
// The log of early versions: every piece carries everything that follows, cut at the log's limit.
MC_SCENARIO(overlong_lines, {}) {
  int n = ctx.Choose(ctx.thorough() ? 1500 : 700, "size");
  int limit = std::vector<int>{0, 214, 215, 220, 250, 300, 4000}[ctx.Choose(7, "limit")];
  auto r = Make(n, 0);
  auto log = LogOf(ctx, r, 0, kPrefix[0]);
  std::string all;
  for (auto& l : log)
    if (l.data) all += l.text.substr(l.text.find('<') + 1, l.text.size() - l.text.find('<') - 2);
  size_t at = 0;
  for (auto& l : log) {
    if (!l.data) continue;
    std::string t = kPrefix[0] + ("<" + all.substr(at)) + ">";
    l.text = t.substr(0, std::max<size_t>(limit, 201 + strlen(kPrefix[0])));
    at += 200;
  }
  Compare(ctx, log, {r}, -1, Read(ctx, log));
}
// A record whose end never came is not reported.
MC_SCENARIO(unfinished, {}) {
  auto a = Make(ctx.Choose(3, "size") * 150, 0), b = Make(200, 1);
  auto log = LogOf(ctx, a, 0, kPrefix[0]);
  auto l = LogOf(ctx, b, 1, kPrefix[0]);
  log.insert(log.end(), l.begin(), l.end());
  size_t keep = ctx.Choose(log.size(), "lines");
  log.resize(keep);
  std::vector<AttestationVerificationRecord> recs;
  for (auto& x : log)
    if (x.end) recs.push_back(a);
  Compare(ctx, log, recs, -1, Read(ctx, log, false, !ctx.Flip("no newline")));
}
// Data that is not a record is not reported, and the record after it is.
MC_SCENARIO(not_records, {}) {
  static const std::vector<std::string> kBodies = {"x", "\x0a", "\x0a\x05" "ab", "plain text", "\xff\xff\xff\xff\xff\xff"};
  std::string body = ctx.Pick(kBodies, "bytes");
  std::string coded = absl::Base64Escape(*fcp::CompressWithGzip(body));
  if (ctx.Flip("not compressed")) coded = absl::Base64Escape(body);
  AttestationVerificationRecord probe;
  ctx.Check(!probe.ParseFromString(body), "harness");
  std::vector<Line> log(2);
  log[0].text = kPrefix[0] + ("<" + coded) + ">";
  log[1].text = std::string(kPrefix[0]) + "<>";
  auto r = Make(150, 0);
  auto l = LogOf(ctx, r, 0, kPrefix[0]);
  log.insert(log.end(), l.begin(), l.end());
  Compare(ctx, log, {r}, -1, Read(ctx, log));
}
static int init = (mc::Rule("every record size up to the bound through the real logger and the real extractor; foreign lines of every kind at every position; "
                            "every piece lost, repeated, swapped, cut and altered; the over-long lines of early versions; logs ending anywhere"),
                   mc::Assumption("the empty piece that ends a record is not lost: the format has no other separator"), 0);
