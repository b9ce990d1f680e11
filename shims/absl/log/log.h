#ifndef VERIF_SHIM_LOG_H_
#define VERIF_SHIM_LOG_H_
#include "absl/log/absl_log.h"
#define LOG(severity) ABSL_LOG(severity)
#define LOG_IF(severity, condition) ABSL_LOG_IF(severity, condition)
#define VLOG(verbosity) ABSL_LOG(INFO)
#endif
