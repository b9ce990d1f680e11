// Stand-in for protodatastore-cpp's FileStorage.
#ifndef VERIF_SHIM_PROTOSTORE_FILE_STORAGE_H_
#define VERIF_SHIM_PROTOSTORE_FILE_STORAGE_H_
#include <sys/stat.h>

#include <cerrno>
#include <cstdint>
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace protostore {
class FileStorage {
 public:
  virtual ~FileStorage() = default;
  virtual absl::StatusOr<int64_t> GetFileSize(const std::string& filename) const {
    struct stat st;
    if (stat(filename.c_str(), &st) != 0) {
      return errno == ENOENT ? absl::NotFoundError("no such file")
                             : absl::InternalError("stat failed");
    }
    return static_cast<int64_t>(st.st_size);
  }
  absl::StatusOr<int64_t> GetFileSize(absl::string_view filename) const {
    return GetFileSize(std::string(filename));
  }
  absl::StatusOr<int64_t> GetFileSize(const char* filename) const {
    return GetFileSize(std::string(filename));
  }
};
}  // namespace protostore
#endif
