// Stand-in for protodatastore-cpp's ProtoDataStore: one proto per file behind a
// checksummed header, cached after the first read or write.  All file accesses
// are plain POSIX calls so that the fault layer of the harness sees them.
#ifndef VERIF_SHIM_PROTOSTORE_PROTO_DATA_STORE_H_
#define VERIF_SHIM_PROTOSTORE_PROTO_DATA_STORE_H_
#include <fcntl.h>
#include <unistd.h>

#include <cerrno>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>

#include "absl/base/thread_annotations.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/synchronization/mutex.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "protostore/file-storage.h"
namespace protostore {
template <typename ProtoT>
class ProtoDataStore {
#ifdef MC_CONTROLLED
  using Mutex = ::mc::abslx::Mutex;
  using Lock = ::mc::abslx::MutexLock;
#else
  using Mutex = absl::Mutex;
  using Lock = absl::MutexLock;
#endif

 public:
  ProtoDataStore(FileStorage& storage, absl::string_view filename)
      : storage_(storage), filename_(filename) {}
  virtual ~ProtoDataStore() = default;

  virtual absl::StatusOr<const ProtoT*> Read() const {
    Lock lock(&mutex_);
    if (cached_ != nullptr) return cached_.get();
    int fd = open(filename_.c_str(), O_RDONLY);
    if (fd < 0) {
      return errno == ENOENT ? absl::NotFoundError("no such file")
                             : absl::InternalError("open failed");
    }
    std::string data;
    char buf[4096];
    ssize_t n;
    while ((n = read(fd, buf, sizeof(buf))) > 0) data.append(buf, n);
    close(fd);
    if (n < 0) return absl::InternalError("read failed");
    if (data.size() < 12) return absl::InternalError("header truncated");
    uint32_t magic;
    uint64_t sum;
    memcpy(&magic, data.data(), 4);
    memcpy(&sum, data.data() + 4, 8);
    std::string body = data.substr(12);
    if (magic != kMagic || sum != Sum(body)) {
      return absl::InternalError("file corrupted");
    }
    auto proto = std::make_unique<ProtoT>();
    if (!proto->ParseFromString(body)) {
      return absl::InternalError("proto does not parse");
    }
    cached_ = std::move(proto);
    return cached_.get();
  }

  virtual absl::Status Write(std::unique_ptr<ProtoT> proto) {
    Lock lock(&mutex_);
    std::string body = Bytes(*proto);
    if (cached_ != nullptr && Bytes(*cached_) == body) {
      return absl::OkStatus();
    }
    uint32_t magic = kMagic;
    uint64_t sum = Sum(body);
    std::string data(12, '\0');
    memcpy(&data[0], &magic, 4);
    memcpy(&data[4], &sum, 8);
    data += body;
    int fd = open(filename_.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return absl::InternalError("open for write failed");
    size_t off = 0;
    while (off < data.size()) {
      ssize_t n = write(fd, data.data() + off, data.size() - off);
      if (n <= 0) {
        close(fd);
        return absl::InternalError("write failed");
      }
      off += n;
    }
    if (close(fd) != 0) return absl::InternalError("close failed");
    cached_ = std::move(proto);
    return absl::OkStatus();
  }

 private:
  static std::string Bytes(const ProtoT& proto) {
    std::string bytes;
    {
      google::protobuf::io::StringOutputStream stream(&bytes);
      google::protobuf::io::CodedOutputStream out(&stream);
      out.SetSerializationDeterministic(true);
      proto.SerializeToCodedStream(&out);
    }
    return bytes;
  }
  static constexpr uint32_t kMagic = 0x726f746f;
  static uint64_t Sum(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h ^ s.size();
  }
  FileStorage& storage_;
  std::string filename_;
  mutable Mutex mutex_;
  mutable std::unique_ptr<ProtoT> cached_ ABSL_GUARDED_BY(mutex_);
};
}  // namespace protostore
#endif
