// C26: retry delays lie in their window.
#include "absl/random/random.h"
#include "common/mc.h"
#include "common/vclock.h"
#include "fcp/client/federated_protocol_util.h"

namespace {
uint64_t g_draw;
int g_calls;
// The chosen draw, then others, in case a draw is rejected.
uint64_t Draw() { return ++g_calls <= 4 ? g_draw : g_draw ^ (0x9E3779B97F4A7C15ull * g_calls); }
const std::vector<uint64_t> kDraws = {0, 1, 1ull << 10, 1ull << 11, 1ull << 52, 1ull << 62, (1ull << 63) - 1, 1ull << 63,
                                      3ull << 62, ~0ull << 11, ~0ull - 1, ~0ull};
const std::vector<absl::Duration> kD = {absl::ZeroDuration(),    absl::Nanoseconds(1),  absl::Milliseconds(500),
                                        absl::Seconds(1),        absl::Seconds(100),    absl::Hours(4),
                                        absl::Hours(24 * 365),   -absl::Nanoseconds(1), -absl::Milliseconds(1500),
                                        -absl::Hours(1),         absl::Nanoseconds(999999999)};
google::protobuf::Duration P(absl::Duration d) {
  google::protobuf::Duration p;
  int64_t ns = absl::ToInt64Nanoseconds(d);
  p.set_seconds(ns / 1000000000);
  p.set_nanos(ns % 1000000000);
  return p;
}
absl::Duration D(const google::protobuf::Duration& p) { return absl::Seconds(p.seconds()) + absl::Nanoseconds(p.nanos()); }
std::string S(absl::Duration d) { return absl::FormatDuration(d); }
const absl::Time kNow = absl::FromUnixSeconds(1700000000) + absl::Nanoseconds(123456789);

// Delays obtained over all draws, with the bounds they have to keep.
void CheckSpread(mc::Ctx& ctx, absl::Duration lo, absl::Duration hi, const std::function<absl::Duration()>& pick,
                 const std::string& what) {
  absl::Duration mn = absl::InfiniteDuration(), mx = -absl::InfiniteDuration();
  for (uint64_t d : kDraws) {
    g_draw = d;
    g_calls = 0;
    absl::Duration got = pick();
    ctx.Step();
    ctx.Check(got >= lo && got <= hi, what + ": delay " + S(got) + " not in [" + S(lo) + ", " + S(hi) + "]");
    mn = std::min(mn, got);
    mx = std::max(mx, got);
  }
  // The draws reach from one end of the window to the other.
  ctx.Check(mn <= lo + (hi - lo) * 0.05 + absl::Nanoseconds(1) && mx >= hi - (hi - lo) * 0.05 - absl::Nanoseconds(1),
            what + ": only [" + S(mn) + ", " + S(mx) + "] of [" + S(lo) + ", " + S(hi) + "] is used");
}
}  // namespace

MC_SCENARIO(windows) {
  mc_rand::g_next = &Draw;
  mc::UseVirtualTime(kNow);
  absl::Duration mn = ctx.Pick(kD, "min"), mx = ctx.Pick(kD, "max");
  absl::BitGen gen;
  absl::Duration lo = std::max(mn, absl::ZeroDuration()), hi = std::max(mx, lo);
  CheckSpread(ctx, lo, hi, [&] { return fcp::client::PickRetryTimeFromRange(P(mn), P(mx), gen) - kNow; },
              "window " + S(mn) + ".." + S(mx));
  ctx.State(S(mn) + S(mx));
}
MC_SCENARIO(jitter) {
  mc_rand::g_next = &Draw;
  mc::UseVirtualTime(kNow);
  static const std::vector<double> js = {0, 0.1, 0.2, 0.5, 0.999, 1, -0.5, -3, 1.5, 100};
  absl::Duration t = ctx.Pick(kD, "target");
  double j = ctx.Pick(js, "jitter");
  absl::BitGen gen;
  double jc = std::min(1.0, std::max(0.0, j));
  absl::Duration lo = std::max(t * (1 - jc), absl::ZeroDuration()), hi = std::max(t * (1 + jc), lo);
  CheckSpread(ctx, lo - absl::Nanoseconds(1), hi,
              [&] {
                auto w = fcp::client::GenerateRetryWindowFromTargetDelay(t, j, gen);
                ctx.Check(D(w.delay_min()) == D(w.delay_max()), "the window has a width");
                ctx.Check(D(w.delay_min()) >= absl::ZeroDuration(), "negative delay");
                ctx.Check(w.retry_token().empty(), "retry token");
                return D(w.delay_min());
              },
              "target " + S(t) + " jitter " + std::to_string(j));
  ctx.State(S(t) + std::to_string(j));
}
MC_SCENARIO(retry_time) {
  absl::Duration d = ctx.Pick(kD, "retry time relative to its receipt");
  absl::Duration later = ctx.Pick(kD, "time passed since");
  mc::UseVirtualTime(kNow + later);
  auto w = fcp::client::GenerateRetryWindowFromRetryTime(kNow + d);
  ctx.Step();
  absl::Duration want = std::max(absl::ZeroDuration(), d - later);
  ctx.Check(D(w.delay_min()) == want && D(w.delay_max()) == want,
            "delay " + S(D(w.delay_min())) + ".." + S(D(w.delay_max())) + " instead of " + S(want));
  ctx.State(S(d) + S(later));
}
static int init = (mc::Rule("11x11 windows, 11x10 target/jitter pairs, each with 12 random draws from end to end; "
                            "11x11 (retry time, elapsed time) pairs on a virtual clock."),
                   0);
