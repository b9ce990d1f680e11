#include "common/rand.h"

#include <mutex>
namespace mc {
std::function<bool(uint8_t*, size_t)> g_rand_source;
bool g_rand_fails = false;
namespace {
std::mutex mu;
uint64_t state = 0x1234567;
uint64_t calls = 0;
uint64_t Next() {
  state += 0x9E3779B97F4A7C15ull;
  uint64_t z = state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
}  // namespace
void SeedRand(uint64_t seed) {
  std::lock_guard<std::mutex> l(mu);
  state = seed * 7919 + 13;
  calls = 0;
}
uint64_t RandCalls() { return calls; }
}  // namespace mc

extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  std::lock_guard<std::mutex> l(mc::mu);
  ++mc::calls;
  if (mc::g_rand_fails) return 0;
  if (mc::g_rand_source && mc::g_rand_source(buf, len)) return 1;
  for (size_t i = 0; i < len; ++i) buf[i] = mc::Next() >> 24;
  return 1;
}
