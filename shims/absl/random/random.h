// Stand-in for absl/random/random.h whose generators draw from a source the
// harness controls; the distributions are the real ones.
#ifndef VERIF_SHIM_ABSL_RANDOM_H_
#define VERIF_SHIM_ABSL_RANDOM_H_
#include <cstdint>
#include <limits>

#include "absl/random/distributions.h"
#include "absl/random/seed_sequences.h"

namespace mc_rand {
inline uint64_t DefaultNext() {
  static uint64_t state = 42;
  state += 0x9E3779B97F4A7C15ull;
  uint64_t z = state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t (*g_next)() = &DefaultNext;
}  // namespace mc_rand

namespace absl {
ABSL_NAMESPACE_BEGIN
class BitGen {
 public:
  using result_type = uint64_t;
  BitGen() = default;
  template <class SeedSeq, typename = typename SeedSeq::result_type>
  explicit BitGen(SeedSeq&&) {}
  BitGen(const BitGen&) = delete;
  BitGen& operator=(const BitGen&) = delete;
  BitGen(BitGen&&) = default;
  BitGen& operator=(BitGen&&) = default;
  static constexpr uint64_t(min)() { return 0; }
  static constexpr uint64_t(max)() { return ~uint64_t{0}; }
  uint64_t operator()() { return mc_rand::g_next(); }
  void discard(unsigned long long n) {
    while (n--) mc_rand::g_next();
  }
};
class InsecureBitGen : public BitGen {
 public:
  using BitGen::BitGen;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
