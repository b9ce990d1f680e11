// Stand-in for absl/log (absent from the installed Abseil): INFO/WARNING/ERROR
// evaluate their operands and discard them, FATAL ends the process or, when the
// harness asks for it, throws mc_fatal::Fatal so that a crash is an outcome.
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include <sstream>
#include <ostream>
#include <string>

#include "absl/strings/string_view.h"

namespace mc_fatal {
struct Fatal {
  std::string message;
};
extern bool g_throw_on_fatal;
extern void (*g_on_fatal)(const std::string& message);
[[noreturn]] void Die(const char* file, int line, const std::string& message);

class Sink {
 public:
  Sink& WithVerbosity(int) { return *this; }
  Sink& AtLocation(absl::string_view, int) { return *this; }
  Sink& NoPrefix() { return *this; }
  Sink& WithPerror() { return *this; }
  template <typename T>
  Sink& operator<<(const T&) {
    return *this;
  }
  Sink& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};

class FatalSink {
 public:
  FatalSink(const char* file, int line) : file_(file), line_(line) {}
  ~FatalSink() noexcept(false) { Die(file_, line_, os_.str()); }
  FatalSink& WithVerbosity(int) { return *this; }
  FatalSink& AtLocation(absl::string_view, int) { return *this; }
  FatalSink& NoPrefix() { return *this; }
  FatalSink& WithPerror() { return *this; }
  template <typename T>
  FatalSink& operator<<(const T& v) {
    os_ << v;
    return *this;
  }
  FatalSink& operator<<(std::ostream& (*f)(std::ostream&)) {
    os_ << f;
    return *this;
  }

 private:
  const char* file_;
  int line_;
  std::ostringstream os_;
};

struct Voidify {
  template <typename T>
  void operator&&(T&&) const {}
};
}  // namespace mc_fatal

#define MC_ABSL_LOG_INTERNAL_INFO ::mc_fatal::Sink()
#define MC_ABSL_LOG_INTERNAL_WARNING ::mc_fatal::Sink()
#define MC_ABSL_LOG_INTERNAL_ERROR ::mc_fatal::Sink()
#define MC_ABSL_LOG_INTERNAL_FATAL ::mc_fatal::FatalSink(__FILE__, __LINE__)
#define MC_ABSL_LOG_INTERNAL_QFATAL ::mc_fatal::FatalSink(__FILE__, __LINE__)
#define MC_ABSL_LOG_INTERNAL_DFATAL ::mc_fatal::Sink()

#define ABSL_LOG(severity)           \
  switch (0)                         \
  case 0:                            \
  default:                           \
    ::mc_fatal::Voidify() && MC_ABSL_LOG_INTERNAL_##severity
#define ABSL_LOG_IF(severity, condition) \
  switch (0)                             \
  case 0:                                \
  default:                               \
    !(condition) ? (void)0               \
                 : ::mc_fatal::Voidify() && MC_ABSL_LOG_INTERNAL_##severity
#define ABSL_LOG_EVERY_N(severity, n) ABSL_LOG(severity)
#define ABSL_LOG_FIRST_N(severity, n) ABSL_LOG(severity)
#define ABSL_VLOG(verbosity) ABSL_LOG(INFO)
#define ABSL_VLOG_IS_ON(verbosity) false
#define ABSL_DLOG(severity) ABSL_LOG(severity)
#endif
