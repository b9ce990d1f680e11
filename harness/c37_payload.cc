// C37: client payload headers round-trip, damage is rejected.
#include "common/mc.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/protos/confidentialcompute/aggregation_client_payload.pb.h"

using namespace fcp::confidential_compute;
using fcp::confidentialcompute::AggregationClientPayloadHeader;
namespace {
const std::vector<std::string> kBytes = {"", "k", std::string("\0\xff\x80", 3), std::string(126, 'x'), std::string(300, '\x01'),
                                         std::string(20000, 'y'), "CAv1"};
std::string Show(const ClientPayloadHeader& h) {
  return mc::Hex(h.encrypted_symmetric_key) + "/" + mc::Hex(h.encapsulated_public_key) + "/" +
         mc::Hex(h.serialized_blob_header) + "/" + std::to_string(h.is_gzip_compressed);
}
// Decides what must come out of a byte string: nullopt = rejected.
bool Ref(const std::string& d, ClientPayloadHeader* h, std::string* rest, bool* dont_know) {
  *dont_know = false;
  if (d.rfind("CAv1", 0) != 0) return false;
  size_t p = 4;
  uint64_t v = 0;
  int n = 0;
  while (true) {
    if (p >= d.size()) return false;
    uint8_t b = d[p++];
    if (n < 5) v |= (uint64_t)(b & 0x7f) << (7 * n);
    ++n;
    if (!(b & 0x80)) break;
    if (n >= 10) return false;
  }
  if (n > 5 || v > 0xffffffffull) {
    *dont_know = true;  // over-long varint: upper bits are dropped or it is refused
    return false;
  }
  if (v > d.size() - p) return false;
  AggregationClientPayloadHeader m;
  if (!m.ParseFromString(d.substr(p, v))) return false;
  h->encrypted_symmetric_key = m.encrypted_symmetric_key();
  h->encapsulated_public_key = m.encapsulated_public_key();
  h->serialized_blob_header = m.blob_header();
  h->is_gzip_compressed = m.compression_type() == fcp::confidentialcompute::COMPRESSION_TYPE_GZIP;
  *rest = d.substr(p + v);
  return true;
}
void CheckDecode(mc::Ctx& ctx, const std::string& data) {
  // Exactly sized heap copy: reading past the end is caught.
  std::unique_ptr<char[]> buf(new char[data.size()]);
  memcpy(buf.get(), data.data(), data.size());
  absl::string_view v(buf.get(), data.size());
  auto r = DecodeAndConsumeClientPayloadHeader(v);
  ctx.Step();
  ClientPayloadHeader h;
  std::string rest;
  bool dk;
  bool ok = Ref(data, &h, &rest, &dk);
  if (dk) return;
  ctx.Check(r.ok() == ok, std::string(ok ? "valid data rejected" : "invalid data accepted") + ": " + mc::Hex(data.substr(0, 80)));
  if (ok) {
    ctx.Eq(Show(*r), Show(h), "header");
    ctx.Eq(mc::Hex(std::string(v)), mc::Hex(rest), "remaining payload");
  } else {
    ctx.Check(v.data() == buf.get() && v.size() == data.size(), "rejected data was consumed");
  }
}
}  // namespace
MC_SCENARIO(round_trip, {}) {
  ClientPayloadHeader h;
  h.encrypted_symmetric_key = ctx.Pick(kBytes, "key");
  h.encapsulated_public_key = ctx.Pick(kBytes, "public key");
  h.serialized_blob_header = ctx.Pick(kBytes, "blob header");
  h.is_gzip_compressed = ctx.Flip("compressed");
  const std::string& body = ctx.Pick(kBytes, "payload");
  std::string e = EncodeClientPayload(h, body);
  absl::string_view v = e;
  auto r = DecodeAndConsumeClientPayloadHeader(v);
  ctx.Step();
  ctx.Check(r.ok(), "encoded payload rejected");
  ctx.Check(Show(*r) == Show(h), "header changed");
  ctx.Check(v == body, "payload changed");
  ctx.Check(v.empty() || v.data() == e.data() + e.size() - body.size(), "the view does not point into the data");
  ctx.State(std::to_string(h.encrypted_symmetric_key.size()) + "," + std::to_string(h.encapsulated_public_key.size()) + "," +
            std::to_string(h.serialized_blob_header.size()) + "," + std::to_string(body.size()));
}
// Every truncation and every byte set to every value.
MC_SCENARIO(mutations, {}) {
  int k = ctx.Choose(5, "payload");
  ClientPayloadHeader h;
  if (k >= 1) h.encrypted_symmetric_key = "sym";
  if (k >= 2) h.encapsulated_public_key = "pub";
  if (k >= 3) h.serialized_blob_header = std::string("\x0a\x01z", 3);
  h.is_gzip_compressed = k % 2;
  std::string body = k == 4 ? std::string(130, 'b') : "body\x0a\x02";
  if (k == 4) h.encrypted_symmetric_key = std::string(150, 's');
  std::string e = EncodeClientPayload(h, body);
  int n = (int)e.size() - (int)body.size() + 3;
  int pos = ctx.Choose(n, "position");
  CheckDecode(ctx, e.substr(0, pos));
  ctx.State("t" + std::to_string(k) + "/" + std::to_string(pos));
  for (int b = 0; b < 256; ++b) {
    std::string d = e;
    d[pos] = (char)b;
    CheckDecode(ctx, d);
    // A header that is cut off right behind the changed byte.
    CheckDecode(ctx, d.substr(0, pos + 1));
  }
}
// All short byte strings behind the magic bytes.
MC_SCENARIO(short_data, {}) {
  static const std::vector<unsigned char> al = {0, 1, 2, 3, 5, 0x0a, 0x12, 0x1a, 0x20, 0x08, 0x0b, 0x0c, 0x7f, 0x80, 0xff};
  int len = ctx.Choose(ctx.thorough() ? 6 : 5, "length");
  std::string d = "CAv1";
  for (int i = 0; i < len; ++i) d += (char)al[ctx.Choose((int)al.size(), "byte")];
  CheckDecode(ctx, d);
  ctx.State(d);
}
static int init = (mc::Rule("All header/payload combinations over 7 byte strings; every truncation and all 256 values of "
                            "every header byte; all strings up to 4 (5) bytes over 15 values behind the magic."),
                   0);
