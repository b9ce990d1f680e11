// Stand-in builder: a text record per tensor, in the order they were added.
#ifndef VERIF_SHIM_TFF_FC_CHECKPOINT_BUILDER_H_
#define VERIF_SHIM_TFF_FC_CHECKPOINT_BUILDER_H_
#include <sstream>
#include "tensorflow_federated/cc/core/impl/aggregation/protocol/checkpoint_builder.h"
namespace tensorflow_federated {
namespace aggregation {
class FederatedComputeCheckpointBuilderFactory : public CheckpointBuilderFactory {
 public:
  class Builder : public CheckpointBuilder {
   public:
    absl::Status Add(const std::string& name, const Tensor& t) override {
      os_ << name << ':' << static_cast<int>(t.dtype()) << '[' << t.num_elements() << ']';
      for (size_t i = 0; i < t.num_elements(); ++i) {
        os_ << '|';
        const void* d = t.data().data();
        switch (t.dtype()) {
          case DT_INT32: os_ << static_cast<const int32_t*>(d)[i]; break;
          case DT_INT64: os_ << static_cast<const int64_t*>(d)[i]; break;
          case DT_FLOAT: os_ << static_cast<const float*>(d)[i]; break;
          case DT_DOUBLE: os_ << static_cast<const double*>(d)[i]; break;
          case DT_STRING:
            os_ << static_cast<const absl::string_view*>(d)[i];
            break;
          default: break;
        }
      }
      os_ << '\n';
      return absl::OkStatus();
    }
    absl::StatusOr<absl::Cord> Build() override { return absl::Cord(os_.str()); }

   private:
    std::ostringstream os_;
  };
  std::unique_ptr<CheckpointBuilder> Create() const override {
    return std::make_unique<Builder>();
  }
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
