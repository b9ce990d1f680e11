// Replaces BoringSSL's RAND_bytes in the harness executable with a stream the
// scenario controls.
#ifndef VERIF_RAND_H_
#define VERIF_RAND_H_
#include <cstddef>
#include <cstdint>
#include <functional>
namespace mc {
// Restarts the deterministic stream.
void SeedRand(uint64_t seed);
// When set, is asked for the bytes first (return false: use the stream).
extern std::function<bool(uint8_t*, size_t)> g_rand_source;
extern bool g_rand_fails;   // the source has no randomness to give
uint64_t RandCalls();
}  // namespace mc
#endif
