#ifndef VERIF_CLIENT_FAKES_H_
#define VERIF_CLIENT_FAKES_H_
#include <map>
#include <string>
#include <vector>

#include "fcp/client/flags.h"
#include "fcp/client/log_manager.h"
namespace mc {
class RecLog : public fcp::client::LogManager {
 public:
  void LogDiag(fcp::client::ProdDiagCode c) override { ++prod[c]; }
  void LogDiag(fcp::client::DebugDiagCode c) override { ++debug[c]; }
  void LogToLongHistogram(fcp::client::HistogramCounters h, int, int, fcp::client::engine::DataSourceType,
                          int64_t v) override {
    hist[h].push_back(v);
  }
  void SetModelIdentifier(const std::string& m) override { model = m; }
  std::map<int, int> prod, debug;
  std::map<int, std::vector<int64_t>> hist;
  std::string model;
};
class TestFlags : public fcp::client::Flags {
 public:
  int64_t condition_polling_period_millis() const override { return polling_ms; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return grace_ms; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return extended_ms; }
  bool log_tensorflow_error_messages() const override { return true; }
  int64_t opstats_ttl_days() const override { return ttl_days; }
  int64_t opstats_db_size_limit_bytes() const override { return db_limit; }
  bool enable_phase_stats_logging() const override { return phase_stats; }
  bool disable_http_request_body_compression() const override { return no_compression; }
  int64_t polling_ms = 1000, grace_ms = 1000, extended_ms = 2000, ttl_days = 30, db_limit = 1 << 20;
  bool phase_stats = true, no_compression = true;
};
}  // namespace mc
#endif
