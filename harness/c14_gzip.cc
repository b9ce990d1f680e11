// C14: compression round-trips, damaged streams are errors; digests do not
// depend on how the data is laid out.
#include <zlib.h>

#include "absl/strings/cord.h"
#include "common/mc.h"
#include "fcp/base/compression.h"
#include "fcp/base/digest.h"

namespace {
// Independent decoder.
bool RefInflate(const std::string& in, std::string* out) {
  z_stream z{};
  if (inflateInit2(&z, 31) != Z_OK) return false;
  z.next_in = (Bytef*)in.data();
  z.avail_in = in.size();
  std::string o;
  char buf[4096];
  int rc;
  do {
    z.next_out = (Bytef*)buf;
    z.avail_out = sizeof(buf);
    rc = inflate(&z, Z_NO_FLUSH);
    o.append(buf, sizeof(buf) - z.avail_out);
  } while (rc == Z_OK);
  bool ok = rc == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  *out = o;
  return ok;
}
std::string Body(size_t n, int pat) {
  std::string s(n, 0);
  uint32_t x = 12345 + pat;
  for (size_t i = 0; i < n; ++i) {
    x = x * 1664525 + 1013904223;
    switch (pat) {
      case 0: s[i] = 'a'; break;
      case 1: s[i] = (char)(x >> 24); break;             // incompressible
      case 2: s[i] = "abcab\0\xff\n"[(x >> 20) & 7]; break;
      case 3: s[i] = (char)i; break;
    }
  }
  return s;
}
void RoundTrip(mc::Ctx& ctx, const std::string& s) {
  auto c = fcp::CompressWithGzip(s);
  ctx.Check(c.ok(), "compression failed");
  std::string ref;
  ctx.Check(RefInflate(*c, &ref) && ref == s, "the compressed stream is not gzip of the input, size " +
                                                  std::to_string(s.size()));
  auto u = fcp::UncompressWithGzip(*c);
  ctx.Step();
  ctx.Check(u.ok(), "uncompression failed, size " + std::to_string(s.size()));
  ctx.Check(std::string(*u) == s, "round trip changed the data, size " + std::to_string(s.size()));
}
}  // namespace

MC_SCENARIO(short_strings, {}) {
  static const char al[] = {0, 'a', '\n', (char)0xff};
  int len = ctx.Choose(ctx.thorough() ? 8 : 6, "length");
  std::string s;
  for (int i = 0; i < len; ++i) s += al[ctx.Choose(4, "byte")];
  RoundTrip(ctx, s);
  ctx.State(s);
}

// Sizes around the buffer sizes in use.
MC_SCENARIO(boundary_sizes, {}) {
  static const std::vector<int> base = {0, 64, 1024, 4096, 16384, 32768, 65536, 131072, 262144, 1 << 20};
  int b = ctx.Pick(base, "around");
  int d = ctx.Choose(7, "offset") - 3;
  int pat = ctx.Choose(4, "pattern");
  if (b + d < 0) return;
  RoundTrip(ctx, Body(b + d, pat));
  ctx.State(std::to_string(b + d) + "/" + std::to_string(pat));
}

// Every truncation, every byte replaced, every extension byte.
MC_SCENARIO(damage, {}) {
  static const std::vector<int> sizes = {0, 1, 5, 40, 300, 5000, 70000};
  int si = ctx.Choose((int)sizes.size(), "size");
  int size = sizes[si];
  int pat = ctx.Choose(3, "pattern");
  std::string s = Body(size, pat);
  auto c = fcp::CompressWithGzip(s);
  ctx.Check(c.ok(), "compression failed");
  int kind = ctx.Choose(3, "damage");
  std::string d = *c;
  int n = (int)d.size();
  // Positions: all when the stream is short, else the ends and a stride.
  std::vector<int> pos;
  int stride = n <= 600 ? 1 : (ctx.thorough() ? n / 600 + 1 : n / 150 + 1);
  for (int i = 0; i < n; ++i) {
    if (i < 40 || i >= n - 40 || i % stride == 0) pos.push_back(i);
  }
  for (int p : pos) {
    std::vector<std::string> bad;
    if (kind == 0) {
      bad.push_back(d.substr(0, p));
    } else if (kind == 1) {
      for (int x : {0x01, 0x80, 0xff, 0x10}) {
        std::string y = d;
        y[p] ^= (char)x;
        bad.push_back(y);
      }
    } else {
      bad.push_back(d + d.substr(0, p + 1 == n ? p : p + 1));   // incomplete second member
      bad.push_back(d + std::string(1, (char)p));
      // Cut out one byte.
      std::string y = d;
      y.erase(p, 1);
      bad.push_back(y);
    }
    for (auto& y : bad) {
      auto u = fcp::UncompressWithGzip(y);
      ctx.Step();
      ctx.Eval();
      if (u.ok() && (kind != 1 || std::string(*u) != s)) {
        ctx.Fail(std::string(kind == 0 ? "truncated" : kind == 1 ? "corrupted" : "mangled") +
                 " stream accepted (position " + std::to_string(p) + " of " + std::to_string(n) + ", body " +
                 std::to_string(size) + " bytes)");
      }
      ctx.Outcome(u.ok() ? "ignored header byte" : "rejected");
    }
  }
  ctx.State(std::to_string(size) + "/" + std::to_string(pat) + "/" + std::to_string(kind));
}

// SHA-256 of a string equals that of a cord with any chunking.
MC_SCENARIO(digest, {}) {
  static const std::string lits[] = {"", "abc"};
  static const char* want[] = {"e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855",
                               "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"};
  int which = ctx.Choose(4, "data");
  std::string s = which < 2 ? lits[which] : Body(which == 2 ? 9 : 70, 1);
  std::string h = fcp::ComputeSHA256(s);
  if (which < 2) ctx.Eq(mc::Hex(h), std::string(want[which]), "SHA-256");
  absl::Cord c;
  size_t p = 0;
  int pieces = 0;
  while (p < s.size()) {
    size_t left = s.size() - p;
    size_t n = pieces >= 8 ? left : 1 + ctx.Choose((int)std::min<size_t>(left, 3), "piece");
    if (which == 3) n = std::min(left, n * 16);
    // External chunks keep their boundaries.
    std::string* keep = new std::string(s.substr(p, n));
    c.Append(absl::MakeCordFromExternal(*keep, [keep] { delete keep; }));
    p += n;
    ++pieces;
  }
  ctx.Check(std::string(c) == s, "harness");
  ctx.Step();
  ctx.Eq(mc::Hex(fcp::ComputeSHA256(c)), mc::Hex(h), "digest of a cord");
  ctx.State(std::to_string(which) + "/" + std::to_string(pieces));
}
static int init = (mc::Rule("All strings up to 5 (7) bytes over 4 byte values; sizes within 3 of every buffer "
                            "boundary; every truncation, byte change, byte removal and extension of gzip "
                            "streams; all chunkings of cords."),
                   0);
