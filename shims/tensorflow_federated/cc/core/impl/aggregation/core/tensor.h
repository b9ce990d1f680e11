#ifndef VERIF_SHIM_TFF_TENSOR_H_
#define VERIF_SHIM_TFF_TENSOR_H_
#include <memory>
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor.pb.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_data.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_shape.h"
namespace tensorflow_federated {
namespace aggregation {
class Tensor {
 public:
  Tensor() = default;
  Tensor(Tensor&&) = default;
  Tensor& operator=(Tensor&&) = default;
  static absl::StatusOr<Tensor> Create(DataType t, TensorShape shape,
                                       std::unique_ptr<TensorData> data) {
    size_t w = t == DT_STRING ? sizeof(absl::string_view)
               : t == DT_FLOAT || t == DT_INT32 ? 4 : 8;
    if (data->byte_size() != w * shape.NumElements()) {
      return absl::InvalidArgumentError("size does not match the shape");
    }
    Tensor r;
    r.t_ = t;
    r.shape_ = std::move(shape);
    r.data_ = std::move(data);
    return r;
  }
  DataType dtype() const { return t_; }
  const TensorShape& shape() const { return shape_; }
  size_t num_elements() const { return shape_.NumElements(); }
  const TensorData& data() const { return *data_; }

 private:
  DataType t_ = DT_INVALID;
  TensorShape shape_;
  std::unique_ptr<TensorData> data_;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
