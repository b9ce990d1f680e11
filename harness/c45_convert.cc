// C45: value conversions are exact.
#include "absl/time/time.h"
#include "common/mc.h"
#include "fcp/base/base_name.h"
#include "fcp/base/bounds.h"
#include "fcp/base/platform.h"
#include "fcp/base/status_converters.h"
#include "fcp/base/time_util.h"

namespace {
using fcp::TimeUtil;
std::vector<int64_t> Secs() {
  std::vector<int64_t> v = {0, 1, 2, 59, 60, 61, 3600, 86399, 86400, 1000000000, 1700000000,
                            2147483647, 2147483648ll, 4294967296ll, 253402300799ll, 315576000000ll};
  for (size_t i = v.size(); i-- > 0;) v.push_back(-v[i]);
  return v;
}
std::vector<int64_t> Nanos() {
  return {0, 1, 2, 9, 10, 999, 1000, 999999, 1000000, 500000000, 499999999, 500000001, 999999998, 999999999};
}
std::string S(int64_t v) { return std::to_string(v); }
}  // namespace

MC_SCENARIO(durations) {
  static auto secs = Secs();
  static auto nanos = Nanos();
  int64_t s = ctx.Pick(secs, "seconds"), n = ctx.Pick(nanos, "nanos");
  int q = ctx.Choose(4, "quarter nanos");
  bool neg = ctx.Flip("negative");
  if (s < 0) return;
  absl::Duration d = absl::Seconds(s) + absl::Nanoseconds(n) + absl::Nanoseconds(1) * q / 4;
  if (neg) d = -d;
  auto p = TimeUtil::ConvertAbslToProtoDuration(d);
  ctx.Step();
  // Truncated to nanoseconds toward zero, both parts with the sign of the value.
  ctx.Eq(p.seconds(), neg ? -s : s, "seconds of " + absl::FormatDuration(d));
  ctx.Eq((int64_t)p.nanos(), neg ? -n : n, "nanos of " + absl::FormatDuration(d));
  google::protobuf::Duration pd;
  pd.set_seconds(neg ? -s : s);
  pd.set_nanos(neg ? -n : n);
  absl::Duration back = TimeUtil::ConvertProtoToAbslDuration(pd);
  absl::Duration want = absl::Seconds(s) + absl::Nanoseconds(n);
  if (neg) want = -want;
  ctx.Check(back == want, "proto to native duration " + S(pd.seconds()) + "s " + S(pd.nanos()) + "ns");
  ctx.State("d" + S(s) + "/" + S(n) + "/" + S(q) + "/" + S(neg));
}

MC_SCENARIO(timestamps) {
  static auto secs = Secs();
  static auto nanos = Nanos();
  int64_t s = ctx.Pick(secs, "seconds"), n = ctx.Pick(nanos, "nanos");
  int q = ctx.Choose(4, "quarter nanos");
  absl::Time t = absl::UnixEpoch() + absl::Seconds(s) + absl::Nanoseconds(n);
  auto p = TimeUtil::ConvertAbslToProtoTimestamp(t + absl::Nanoseconds(1) * q / 4);
  ctx.Step();
  ctx.Eq(p.seconds(), s, "seconds of the timestamp");
  ctx.Eq((int64_t)p.nanos(), n, "nanos of the timestamp");
  google::protobuf::Timestamp pt;
  pt.set_seconds(s);
  pt.set_nanos(n);
  ctx.Check(TimeUtil::ConvertProtoToAbslTime(pt) == t, "proto to native time " + S(s) + "s " + S(n) + "ns");
  ctx.State("t" + S(s) + "/" + S(n) + "/" + S(q));
}

MC_SCENARIO(infinite_durations) {
  bool neg = ctx.Flip("negative");
  auto d = neg ? -absl::InfiniteDuration() : absl::InfiniteDuration();
  auto p = TimeUtil::ConvertAbslToProtoDuration(d);
  ctx.Step();
  ctx.Check(neg ? p.seconds() < -315576000000ll : p.seconds() > 315576000000ll, "infinite duration became finite");
  ctx.Check(p.nanos() == 0 || (p.nanos() < 0) == neg, "sign of nanos");
  ctx.State(S(neg));
}

MC_SCENARIO(status_codes) {
  int c = ctx.Choose(19, "code");
  bool msg = ctx.Flip("message");
  auto code = static_cast<absl::StatusCode>(c);
  bool valid = c <= 16;
  auto g = fcp::base::ToGrpcStatusCode(code);
  ctx.Step();
  // gRPC numbers its codes like Abseil does.
  ctx.Eq((int)g, valid ? c : 2, "gRPC code");
  ctx.Eq((int)fcp::base::FromGrpcStatusCode(static_cast<grpc::StatusCode>(c)), valid ? c : 2, "code from gRPC");
  if (valid) {
    std::string m = msg ? "what happened" : "";
    auto gs = fcp::base::ToGrpcStatus(absl::Status(code, m));
    ctx.Eq((int)gs.error_code(), c, "status to gRPC");
    ctx.Eq(gs.error_message(), c == 0 ? std::string() : m, "message to gRPC");
    auto s = fcp::base::FromGrpcStatus(grpc::Status(static_cast<grpc::StatusCode>(c), m));
    ctx.Eq((int)s.code(), c, "status from gRPC");
    ctx.Eq(std::string(s.message()), c == 0 ? std::string() : m, "message from gRPC");
  }
  ctx.State(S(c));
}

// All paths over a small alphabet.
MC_SCENARIO(paths, {}) {
  static const char al[] = {'/', 'a', '.', '\\'};
  int len = ctx.Choose(ctx.thorough() ? 9 : 7, "length");
  std::string s;
  for (int i = 0; i < len; ++i) s += al[ctx.Choose(4, "char")];
  size_t k = s.rfind('/');
  std::string want = k == std::string::npos ? s : s.substr(k + 1);
  ctx.Step();
  ctx.Eq(fcp::BaseName(s), want, "base name of " + s);
  ctx.Eq(fcp::BaseName(absl::string_view(s)), want, "base name of view " + s);
  ctx.Eq(fcp::BaseName(s.c_str()), want, "base name of " + s);
  ctx.Eq(std::string(fcp::StripTrailingPathSeparator(s)), !s.empty() && s.back() == '/' ? s.substr(0, s.size() - 1) : s,
         "strip " + s);
  ctx.Eq(fcp::ConcatPath(s, "x"), s.empty() ? "x" : s + "/x", "concat " + s);
  ctx.State(s);
}

namespace {
template <typename To, typename From>
void Cast(mc::Ctx& ctx, __int128 v) {
  if (v < (__int128)std::numeric_limits<From>::min() || v > (__int128)std::numeric_limits<From>::max()) return;
  To to = 77;
  bool ok = fcp::TryCastInteger<To, From>((From)v, &to);
  ctx.Step();
  bool fits = v >= (__int128)std::numeric_limits<To>::min() && v <= (__int128)std::numeric_limits<To>::max();
  ctx.Check(ok == fits, "lossless cast decision for " + S((int64_t)v) + " from " + S(sizeof(From)) + " to " + S(sizeof(To)));
  ctx.Check(fits ? (__int128)to == v : to == (To)77, "value after cast");
}
template <typename To>
void CastTo(mc::Ctx& ctx, __int128 v) {
  Cast<To, int8_t>(ctx, v);
  Cast<To, uint8_t>(ctx, v);
  Cast<To, int16_t>(ctx, v);
  Cast<To, uint16_t>(ctx, v);
  Cast<To, int32_t>(ctx, v);
  Cast<To, uint32_t>(ctx, v);
  Cast<To, int64_t>(ctx, v);
  Cast<To, uint64_t>(ctx, v);
}
std::vector<__int128> Ints() {
  std::vector<__int128> v;
  for (int b : {0, 7, 8, 15, 16, 31, 32, 63, 64}) {
    for (int d = -2; d <= 2; ++d) {
      v.push_back(((__int128)1 << b) + d);
      v.push_back(-((__int128)1 << b) + d);
    }
  }
  return v;
}
}  // namespace
MC_SCENARIO(integer_casts) {
  static auto ints = Ints();
  int i = ctx.Choose((int)ints.size(), "value");
  __int128 v = ints[i];
  CastTo<int8_t>(ctx, v);
  CastTo<uint8_t>(ctx, v);
  CastTo<int16_t>(ctx, v);
  CastTo<uint16_t>(ctx, v);
  CastTo<int32_t>(ctx, v);
  CastTo<uint32_t>(ctx, v);
  CastTo<int64_t>(ctx, v);
  CastTo<uint64_t>(ctx, v);
  ctx.State(S((int64_t)v) + (v > 0 ? "+" : "-"));
}
// A pointer is translated exactly when the whole span lies in the space.
MC_SCENARIO(address_spaces) {
  static const std::vector<uint64_t> sizes = {0, 1, 15, 16, 17, 0xffffffffull, 1ull << 32, (1ull << 47)};
  static const std::vector<uint64_t> ptrs = {0, 1, 15, 16, 17, 0xffffffffull, 1ull << 32, 1ull << 63, ~0ull, ~0ull - 15};
  static const std::vector<uint32_t> cs = {0, 1, 4, 15, 16, 17, 65536, 0x80000000u, 0xffffffffu};
  uint64_t size = ctx.Pick(sizes, "size"), ptr = ctx.Pick(ptrs, "pointer");
  uint32_t es = ctx.Pick(cs, "element size"), n = ctx.Pick(cs, "count");
  bool current = ctx.Flip("native space");
  char* start = reinterpret_cast<char*>(0x100000);
  fcp::AddressSpace sp = current ? fcp::AddressSpace::Current() : fcp::AddressSpace::Embedded(start, size);
  unsigned __int128 end = (unsigned __int128)ptr + (unsigned __int128)es * n;
  uint64_t lim = current ? ~0ull : size;
  void* got = fcp::MapOutOfAddressSpace(sp, fcp::ForeignPointer{ptr}, es, n);
  ctx.Step();
  uint64_t want = end <= lim ? (current ? ptr : (uint64_t)start + ptr) : 0;
  ctx.Eq((uint64_t)got, want, "mapped address");
  ctx.State(S(size) + "," + S(ptr) + "," + S(es) + "," + S(n));
}
static int init = (mc::Rule("Boundary seconds x nanos x sub-nanos x sign; all status codes; all paths up to 6 (8) "
                            "characters over {/,a,.,\\\\}; integers around every width boundary for all 64 type "
                            "pairs; address spans around every boundary."),
                   0);
