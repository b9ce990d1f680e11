#ifndef VERIF_SHIM_TF_TENSOR_SHAPE_H_
#define VERIF_SHIM_TF_TENSOR_SHAPE_H_
#include <cstdint>
#include <initializer_list>
#include <vector>
#include "tensorflow/core/framework/tensor_shape.pb.h"
#include "tensorflow/core/platform/types.h"
namespace tensorflow {
class TensorShape {
 public:
  TensorShape() = default;
  TensorShape(std::initializer_list<int64_t> d) : d_(d) {}
  explicit TensorShape(std::vector<int64_t> d) : d_(std::move(d)) {}
  void AddDim(int64_t s) { d_.push_back(s); }
  int dims() const { return d_.size(); }
  int64_t dim_size(int i) const { return d_[i]; }
  int64_t num_elements() const {
    int64_t n = 1;
    for (int64_t x : d_) n *= x;
    return n;
  }

 private:
  std::vector<int64_t> d_;
};
}  // namespace tensorflow
#endif
