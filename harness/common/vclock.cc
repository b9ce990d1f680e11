#include "common/vclock.h"

#include <time.h>

#include "absl/time/clock.h"
namespace mc {
std::function<void(absl::Duration)> g_on_sleep;
namespace {
bool g_virtual = false;
absl::Time g_now;
}  // namespace
void UseVirtualTime(absl::Time start) {
  g_virtual = true;
  g_now = start;
}
void SetVirtualTime(absl::Time t) { g_now = t; }
void AdvanceVirtualTime(absl::Duration d) { g_now += d; }
void UseRealTime() { g_virtual = false; }
}  // namespace mc

namespace absl {
ABSL_NAMESPACE_BEGIN
absl::Time Now() {
  if (mc::g_virtual) return mc::g_now;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return absl::TimeFromTimespec(ts);
}
int64_t GetCurrentTimeNanos() { return absl::ToUnixNanos(Now()); }
ABSL_NAMESPACE_END
}  // namespace absl
extern "C" void ABSL_INTERNAL_C_SYMBOL(AbslInternalSleepFor)(absl::Duration d) {
  if (mc::g_virtual) {
    if (mc::g_on_sleep) mc::g_on_sleep(d);
    if (d > absl::ZeroDuration()) mc::g_now += d;
    return;
  }
  struct timespec ts = absl::ToTimespec(d);
  nanosleep(&ts, nullptr);
}
// protobuf's TimeUtil::GetCurrentTime() asks libc.
extern "C" time_t time(time_t* out) {
  time_t t;
  if (mc::g_virtual) {
    t = absl::ToTimeT(mc::g_now);
  } else {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    t = ts.tv_sec;
  }
  if (out) *out = t;
  return t;
}
