#ifndef VERIF_SHIM_TF_TENSOR_SLICE_H_
#define VERIF_SHIM_TF_TENSOR_SLICE_H_
namespace tensorflow {
class TensorSlice {
 public:
  TensorSlice() = default;
  explicit TensorSlice(int dim) : dim_(dim) {}
  int dims() const { return dim_; }

 private:
  int dim_ = 0;
};
}  // namespace tensorflow
#endif
