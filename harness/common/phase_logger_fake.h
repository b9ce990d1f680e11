// Records what is logged.
#ifndef VERIF_PHASE_LOGGER_FAKE_H_
#define VERIF_PHASE_LOGGER_FAKE_H_
#include <string>
#include <vector>

#include "fcp/client/phase_logger.h"
namespace mc {
class RecPhases : public fcp::client::PhaseLogger {
 public:
  struct Call {
    std::string name, text;
  };
  std::vector<Call> calls;
  absl::Status status;  // what the calls that may fail return
  int Count(const std::string& name) const {
    int n = 0;
    for (auto& c : calls) n += c.name == name;
    return n;
  }
  void UpdateRetryWindowAndNetworkStats(const ::google::internal::federatedml::v2::RetryWindow&, const fcp::client::NetworkStats&) override { Record("UpdateRetryWindowAndNetworkStats"); }
  void SetModelIdentifier(absl::string_view model_identifier) override { Record("SetModelIdentifier", std::string(model_identifier)); }
  void LogTaskNotStarted(absl::string_view error_message) override { Record("TaskNotStarted", std::string(error_message)); }
  void LogNonfatalInitializationError(absl::Status error_status) override { Record("NonfatalInitializationError", error_status.ToString()); }
  void LogFatalInitializationError(absl::Status error_status) override { Record("FatalInitializationError", error_status.ToString()); }
  void LogEligibilityEvalCheckinStarted() override { Record("EligibilityEvalCheckinStarted"); }
  void LogEligibilityEvalCheckinIOError(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time) override { Record("EligibilityEvalCheckinIOError", error_status.ToString()); }
  void LogEligibilityEvalCheckinInvalidPayloadError(absl::string_view error_message, const fcp::client::NetworkStats&, absl::Time) override { Record("EligibilityEvalCheckinInvalidPayloadError", std::string(error_message)); }
  void LogEligibilityEvalCheckinClientInterrupted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time) override { Record("EligibilityEvalCheckinClientInterrupted", error_status.ToString()); }
  void LogEligibilityEvalCheckinServerAborted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time) override { Record("EligibilityEvalCheckinServerAborted", error_status.ToString()); }
  void LogEligibilityEvalNotConfigured(const fcp::client::NetworkStats&, absl::Time) override { Record("EligibilityEvalNotConfigured"); }
  void LogEligibilityEvalCheckinTurnedAway(const fcp::client::NetworkStats&, absl::Time) override { Record("EligibilityEvalCheckinTurnedAway"); }
  void LogEligibilityEvalCheckinPlanUriReceived(const fcp::client::NetworkStats&, absl::Time) override { Record("EligibilityEvalCheckinPlanUriReceived"); }
  void LogEligibilityEvalCheckinCompleted(const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("EligibilityEvalCheckinCompleted"); }
  void LogEligibilityEvalComputationStarted() override { Record("EligibilityEvalComputationStarted"); }
  void LogEligibilityEvalComputationInvalidArgument(absl::Status error_status, const fcp::client::ExampleStats&, absl::Time) override { Record("EligibilityEvalComputationInvalidArgument", error_status.ToString()); }
  void LogEligibilityEvalComputationExampleIteratorError(absl::Status error_status, const fcp::client::ExampleStats&, absl::Time) override { Record("EligibilityEvalComputationExampleIteratorError", error_status.ToString()); }
  void LogEligibilityEvalComputationTensorflowError(absl::Status error_status, const fcp::client::ExampleStats&, absl::Time, absl::Time) override { Record("EligibilityEvalComputationTensorflowError", error_status.ToString()); }
  void LogEligibilityEvalComputationIOError(absl::Status error_status, const fcp::client::ExampleStats&, absl::Time, absl::Time) override { Record("EligibilityEvalComputationIOError", error_status.ToString()); }
  void LogEligibilityEvalComputationInterrupted(absl::Status error_status, const fcp::client::ExampleStats&, absl::Time, absl::Time) override { Record("EligibilityEvalComputationInterrupted", error_status.ToString()); }
  void LogEligibilityEvalComputationErrorNonfatal(absl::Status error_status) override { Record("EligibilityEvalComputationErrorNonfatal", error_status.ToString()); }
  void LogEligibilityEvalComputationCompleted(const fcp::client::ExampleStats&, absl::Time, absl::Time) override { Record("EligibilityEvalComputationCompleted"); }
  void LogMultipleTaskAssignmentsStarted() override { Record("MultipleTaskAssignmentsStarted"); }
  void LogMultipleTaskAssignmentsIOError(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("MultipleTaskAssignmentsIOError", error_status.ToString()); }
  void LogMultipleTaskAssignmentsPayloadIOError(absl::Status error_status) override { Record("MultipleTaskAssignmentsPayloadIOError", error_status.ToString()); }
  void LogMultipleTaskAssignmentsInvalidPayload(absl::string_view error_message) override { Record("MultipleTaskAssignmentsInvalidPayload", std::string(error_message)); }
  void LogMultipleTaskAssignmentsClientInterrupted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("MultipleTaskAssignmentsClientInterrupted", error_status.ToString()); }
  void LogMultipleTaskAssignmentsServerAborted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("MultipleTaskAssignmentsServerAborted", error_status.ToString()); }
  void LogMultipleTaskAssignmentsTurnedAway(const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("MultipleTaskAssignmentsTurnedAway"); }
  void LogMultipleTaskAssignmentsPlanUriReceived(const fcp::client::NetworkStats&, absl::Time) override { Record("MultipleTaskAssignmentsPlanUriReceived"); }
  void LogMultipleTaskAssignmentsPlanUriPartialReceived(const fcp::client::NetworkStats&, absl::Time) override { Record("MultipleTaskAssignmentsPlanUriPartialReceived"); }
  void LogMultipleTaskAssignmentsPartialCompleted(const fcp::client::NetworkStats&, absl::Time, absl::Time, absl::Time) override { Record("MultipleTaskAssignmentsPartialCompleted"); }
  void LogMultipleTaskAssignmentsCompleted(const fcp::client::NetworkStats&, absl::Time, absl::Time, absl::Time) override { Record("MultipleTaskAssignmentsCompleted"); }
  void LogCheckinStarted() override { Record("CheckinStarted"); }
  void LogCheckinIOError(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("CheckinIOError", error_status.ToString()); }
  void LogCheckinInvalidPayload(absl::string_view error_message, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("CheckinInvalidPayload", std::string(error_message)); }
  void LogCheckinClientInterrupted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("CheckinClientInterrupted", error_status.ToString()); }
  void LogCheckinServerAborted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("CheckinServerAborted", error_status.ToString()); }
  void LogCheckinTurnedAway(const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("CheckinTurnedAway"); }
  void LogCheckinPlanUriReceived(absl::string_view task_name, const fcp::client::NetworkStats&, absl::Time) override { Record("CheckinPlanUriReceived", std::string(task_name)); }
  void LogCheckinCompleted(absl::string_view task_name, const fcp::client::NetworkStats&, absl::Time, absl::Time, absl::Time, std::optional<int64_t>) override { Record("CheckinCompleted", std::string(task_name)); }
  void MaybeLogCollectionFirstAccessTime(absl::string_view collection_uri) override { Record("MaybeLogCollectionFirstAccessTime", std::string(collection_uri)); }
  void LogComputationStarted(absl::string_view task_name) override { Record("ComputationStarted", std::string(task_name)); }
  void LogComputationInvalidArgument(absl::Status error_status, const fcp::client::ExampleStats&, const fcp::client::NetworkStats&, absl::Time) override { Record("ComputationInvalidArgument", error_status.ToString()); }
  void LogComputationExampleIteratorError(absl::Status error_status, const fcp::client::ExampleStats&, const fcp::client::NetworkStats&, absl::Time) override { Record("ComputationExampleIteratorError", error_status.ToString()); }
  void LogComputationIOError(absl::Status error_status, const fcp::client::ExampleStats&, const fcp::client::NetworkStats&, absl::Time) override { Record("ComputationIOError", error_status.ToString()); }
  void LogComputationTensorflowError(absl::Status error_status, const fcp::client::ExampleStats&, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("ComputationTensorflowError", error_status.ToString()); }
  void LogComputationInterrupted(absl::Status error_status, const fcp::client::ExampleStats&, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("ComputationInterrupted", error_status.ToString()); }
  void LogComputationCompleted(const fcp::client::ExampleStats&, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("ComputationCompleted"); }
  absl::Status LogResultUploadStarted() override { return Record("ResultUploadStarted"); }
  void LogResultUploadIOError(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("ResultUploadIOError", error_status.ToString()); }
  void LogResultUploadClientInterrupted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("ResultUploadClientInterrupted", error_status.ToString()); }
  void LogResultUploadServerAborted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("ResultUploadServerAborted", error_status.ToString()); }
  void LogResultUploadCompleted(const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("ResultUploadCompleted"); }
  absl::Status LogFailureUploadStarted() override { return Record("FailureUploadStarted"); }
  void LogFailureUploadIOError(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("FailureUploadIOError", error_status.ToString()); }
  void LogFailureUploadClientInterrupted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("FailureUploadClientInterrupted", error_status.ToString()); }
  void LogFailureUploadServerAborted(absl::Status error_status, const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("FailureUploadServerAborted", error_status.ToString()); }
  void LogFailureUploadCompleted(const fcp::client::NetworkStats&, absl::Time, absl::Time) override { Record("FailureUploadCompleted"); }

 private:
  absl::Status Record(const std::string& name, const std::string& text = "") {
    calls.push_back({name, text});
    return status;
  }
};
}  // namespace mc
#endif
