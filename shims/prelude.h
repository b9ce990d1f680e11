// Force-included: standard headers that other toolchains pull in transitively
// and small gaps between the installed library versions and those the
// repository is written against.
#ifndef VERIF_PRELUDE_H_
#define VERIF_PRELUDE_H_
#ifdef __cplusplus
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include "absl/strings/string_view.h"
#include "absl/strings/cord.h"
#include "absl/types/optional.h"
namespace absl {
#ifndef ABSL_USES_STD_STRING_VIEW
inline std::string& operator+=(std::string& s, string_view v) {
  s.append(v.data(), v.size());
  return s;
}
#endif
}  // namespace absl
#endif
#endif
