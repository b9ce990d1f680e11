#ifndef VERIF_SHIM_TFF_TENSOR_SHAPE_H_
#define VERIF_SHIM_TFF_TENSOR_SHAPE_H_
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <vector>
namespace tensorflow_federated {
namespace aggregation {
class TensorShape {
 public:
  TensorShape() = default;
  TensorShape(std::initializer_list<size_t> d) : d_(d) {}
  template <typename It>
  TensorShape(It b, It e) : d_(b, e) {}
  const std::vector<size_t>& dim_sizes() const { return d_; }
  size_t NumElements() const {
    size_t n = 1;
    for (size_t x : d_) n *= x;
    return n;
  }

 private:
  std::vector<size_t> d_;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
