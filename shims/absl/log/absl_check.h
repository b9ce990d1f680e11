#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include "absl/log/absl_log.h"
#define ABSL_CHECK(c) ABSL_LOG_IF(FATAL, !(c)) << "Check failed: " #c " "
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) ABSL_CHECK((a) != (b))
#define ABSL_CHECK_LT(a, b) ABSL_CHECK((a) < (b))
#define ABSL_CHECK_LE(a, b) ABSL_CHECK((a) <= (b))
#define ABSL_CHECK_GT(a, b) ABSL_CHECK((a) > (b))
#define ABSL_CHECK_GE(a, b) ABSL_CHECK((a) >= (b))
#define ABSL_CHECK_OK(s) ABSL_CHECK((s).ok())
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#ifndef CHECK
#define CHECK(c) ABSL_CHECK(c)
#define CHECK_EQ(a, b) ABSL_CHECK((a) == (b))
#define CHECK_NE(a, b) ABSL_CHECK((a) != (b))
#define CHECK_LT(a, b) ABSL_CHECK((a) < (b))
#define CHECK_LE(a, b) ABSL_CHECK((a) <= (b))
#define CHECK_GT(a, b) ABSL_CHECK((a) > (b))
#define CHECK_GE(a, b) ABSL_CHECK((a) >= (b))
#define CHECK_OK(s) ABSL_CHECK((s).ok())
#define DCHECK(c) ABSL_CHECK(c)
#endif
#endif
