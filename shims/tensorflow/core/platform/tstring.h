#ifndef VERIF_SHIM_TSTRING_H_
#define VERIF_SHIM_TSTRING_H_
#include <string>
#include "absl/strings/string_view.h"
namespace tensorflow {
class tstring : public std::string {
 public:
  tstring() = default;
  tstring(const std::string& s) : std::string(s) {}
  tstring(const char* s) : std::string(s) {}
  tstring(absl::string_view s) : std::string(s.data(), s.size()) {}
  using std::string::operator=;
};
}  // namespace tensorflow
namespace tsl { using ::tensorflow::tstring; }
#endif
