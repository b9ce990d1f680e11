// A tracing recorder that drops everything.
#ifndef HARNESS_QUIET_TRACE_H_
#define HARNESS_QUIET_TRACE_H_
#include <memory>

#include "fcp/tracing/tracing_recorder_impl.h"

namespace mcq {
class Span : public fcp::tracing_internal::TracingSpanImpl {
 public:
  explicit Span(std::shared_ptr<fcp::tracing_internal::TracingRecorderImpl> r) : r_(std::move(r)) {}
  void TraceImpl(flatbuffers::DetachedBuffer&&, const fcp::TracingTraitsBase&) override {}
  fcp::TracingSpanRef Ref() override { return fcp::TracingSpanRef(r_, fcp::TracingSpanId(1)); }

 private:
  std::shared_ptr<fcp::tracing_internal::TracingRecorderImpl> r_;
};
class Recorder : public fcp::tracing_internal::TracingRecorderImpl {
 public:
  void TraceImpl(fcp::TracingSpanId, flatbuffers::DetachedBuffer&&, const fcp::TracingTraitsBase&) override {}
  fcp::tracing_internal::TracingSpanImpl* GetRootSpan() override {
    if (!root_) root_ = std::make_unique<Span>(shared_from_this());
    return root_.get();
  }
  std::unique_ptr<fcp::tracing_internal::TracingSpanImpl> CreateChildSpan(fcp::TracingSpanId, flatbuffers::DetachedBuffer&&,
                                                                          const fcp::TracingTraitsBase&) override {
    return std::make_unique<Span>(shared_from_this());
  }

 private:
  std::unique_ptr<Span> root_;
};
inline void Quiet() {
  static auto* r = [] {
    auto* p = new std::shared_ptr<Recorder>(new Recorder);
    (*p)->InstallAsGlobal();
    return p;
  }();
  (void)r;
}
}  // namespace mcq
#endif
