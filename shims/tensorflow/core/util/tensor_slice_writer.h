// Stand-in checkpoint writer: one text record per tensor, written at Finish().
#ifndef VERIF_SHIM_TF_TENSOR_SLICE_WRITER_H_
#define VERIF_SHIM_TF_TENSOR_SLICE_WRITER_H_
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include "absl/status/status.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/framework/tensor_slice.h"
namespace tensorflow {
namespace checkpoint {
inline absl::Status CreateTableTensorSliceBuilder(const std::string&, void**) {
  return absl::OkStatus();
}
class TensorSliceWriter {
 public:
  template <typename F>
  TensorSliceWriter(const std::string& filename, F) : filename_(filename) {}
  template <typename T>
  absl::Status Add(const std::string& name, const TensorShape& shape,
                   const TensorSlice&, const T* data) {
    os_ << name << ':' << typeid(T).name() << '[' << shape.num_elements() << "]";
    for (int64_t i = 0; i < shape.num_elements(); ++i) os_ << '|' << data[i];
    os_ << '\n';
    return absl::OkStatus();
  }
  absl::Status Finish() {
    std::ofstream f(filename_, std::ios::binary);
    f << os_.str();
    return f.good() ? absl::OkStatus() : absl::InternalError("write");
  }

 private:
  std::string filename_;
  std::ostringstream os_;
};
}  // namespace checkpoint
}  // namespace tensorflow
#endif
