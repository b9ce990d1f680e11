#include <cstdio>
#include <cstdlib>

#include "absl/log/absl_log.h"

namespace mc_fatal {
bool g_throw_on_fatal = false;
void (*g_on_fatal)(const std::string&) = nullptr;
void Die(const char* file, int line, const std::string& message) {
  if (g_on_fatal) g_on_fatal(message);
  if (g_throw_on_fatal) throw Fatal{message};
  fprintf(stderr, "FATAL %s:%d %s\n", file, line, message.c_str());
  fflush(stderr);
  abort();
}
}  // namespace mc_fatal
