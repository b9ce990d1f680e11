#ifndef VERIF_SHIM_FLATBUFFERS_IDL_H_
#define VERIF_SHIM_FLATBUFFERS_IDL_H_
#include_next "flatbuffers/idl.h"
#include <string>
// The installed flatbuffers predates GenText; same function under its old name.
namespace flatbuffers {
inline const char* GenText(const Parser& parser, const void* flatbuffer,
                           std::string* text) {
  return GenerateText(parser, flatbuffer, text) ? nullptr : "GenerateText";
}
}  // namespace flatbuffers
#endif
