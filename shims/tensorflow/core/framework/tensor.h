#ifndef VERIF_SHIM_TF_TENSOR_H_
#define VERIF_SHIM_TF_TENSOR_H_
#include <cstdint>
#include <string>
#include <variant>
#include <vector>
#include "tensorflow/core/framework/tensor.pb.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/framework/types.pb.h"
#include "tensorflow/core/platform/types.h"
namespace tensorflow {
template <typename T>
struct DataTypeToEnum;
#define MC_TF_TYPE(T, E) \
  template <>            \
  struct DataTypeToEnum<T> { static constexpr DataType value = E; };
MC_TF_TYPE(int8_t, DT_INT8)
MC_TF_TYPE(uint8_t, DT_UINT8)
MC_TF_TYPE(int16_t, DT_INT16)
MC_TF_TYPE(uint16_t, DT_UINT16)
MC_TF_TYPE(int32_t, DT_INT32)
MC_TF_TYPE(uint32_t, DT_UINT32)
MC_TF_TYPE(int64_t, DT_INT64)
MC_TF_TYPE(uint64_t, DT_UINT64)
MC_TF_TYPE(float, DT_FLOAT)
MC_TF_TYPE(double, DT_DOUBLE)
MC_TF_TYPE(tstring, DT_STRING)
#undef MC_TF_TYPE
template <typename T>
class FlatView {
 public:
  explicit FlatView(std::vector<T>* v) : v_(v) {}
  int64_t size() const { return v_->size(); }
  T& operator()(int64_t i) const { return (*v_)[i]; }
  T& operator()() const { return (*v_)[0]; }
  T* data() const { return v_->data(); }

 private:
  std::vector<T>* v_;
};
class Tensor {
 public:
  Tensor() : dtype_(DT_FLOAT) { Init(); }
  explicit Tensor(const std::string& s) : dtype_(DT_STRING) {
    Init();
    std::get<std::vector<tstring>>(v_)[0] = s;
  }
  Tensor(DataType t, const TensorShape& shape) : dtype_(t), shape_(shape) {
    Init();
  }
  DataType dtype() const { return dtype_; }
  const TensorShape& shape() const { return shape_; }
  int dims() const { return shape_.dims(); }
  int64_t NumElements() const { return shape_.num_elements(); }
  template <typename T>
  FlatView<std::remove_const_t<T>> flat() const {
    return FlatView<std::remove_const_t<T>>(
        &std::get<std::vector<std::remove_const_t<T>>>(v_));
  }
  template <typename T>
  FlatView<std::remove_const_t<T>> scalar() const {
    return flat<T>();
  }
  template <typename T>
  FlatView<std::remove_const_t<T>> unaligned_flat() const {
    return flat<T>();
  }
  bool FromProto(const TensorProto& p) {
    dtype_ = p.dtype();
    shape_ = TensorShape();
    for (auto& d : p.tensor_shape().dim()) shape_.AddDim(d.size());
    Init();
    if (dtype_ == DT_STRING) {
      for (int i = 0; i < p.string_val_size(); ++i) {
        flat<tstring>()(i) = p.string_val(i);
      }
    } else if (dtype_ == DT_FLOAT) {
      for (int i = 0; i < p.float_val_size(); ++i) flat<float>()(i) = p.float_val(i);
    }
    return true;
  }
  void AsProtoField(TensorProto* p) const { p->set_dtype(dtype_); }
  void AsProtoTensorContent(TensorProto* p) const {
    p->set_dtype(dtype_);
    if (dtype_ == DT_FLOAT) {
      for (float f : std::get<std::vector<float>>(v_)) p->add_float_val(f);
    }
  }

 private:
  void Init() {
    size_t n = shape_.num_elements();
    switch (dtype_) {
      case DT_INT8: v_ = std::vector<int8_t>(n); break;
      case DT_UINT8: v_ = std::vector<uint8_t>(n); break;
      case DT_INT16: v_ = std::vector<int16_t>(n); break;
      case DT_UINT16: v_ = std::vector<uint16_t>(n); break;
      case DT_INT32: v_ = std::vector<int32_t>(n); break;
      case DT_UINT32: v_ = std::vector<uint32_t>(n); break;
      case DT_INT64: v_ = std::vector<int64_t>(n); break;
      case DT_UINT64: v_ = std::vector<uint64_t>(n); break;
      case DT_DOUBLE: v_ = std::vector<double>(n); break;
      case DT_STRING: v_ = std::vector<tstring>(n); break;
      default: v_ = std::vector<float>(n); break;
    }
  }
  DataType dtype_;
  TensorShape shape_;
  mutable std::variant<std::vector<float>, std::vector<double>,
                       std::vector<int8_t>, std::vector<uint8_t>,
                       std::vector<int16_t>, std::vector<uint16_t>,
                       std::vector<int32_t>, std::vector<uint32_t>,
                       std::vector<int64_t>, std::vector<uint64_t>,
                       std::vector<tstring>>
      v_;
};
}  // namespace tensorflow
#endif
