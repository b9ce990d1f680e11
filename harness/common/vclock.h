// Virtual time: absl::Now() and absl::SleepFor() as seen by the code under test.
#ifndef VERIF_VCLOCK_H_
#define VERIF_VCLOCK_H_
#include <functional>

#include "absl/time/time.h"
namespace mc {
void UseVirtualTime(absl::Time start);
void SetVirtualTime(absl::Time t);
void AdvanceVirtualTime(absl::Duration d);
void UseRealTime();
// Called with each sleep (virtual time only), before time advances.
extern std::function<void(absl::Duration)> g_on_sleep;
}  // namespace mc
#endif
