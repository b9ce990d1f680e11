#ifndef VERIF_SHIM_CPPBOR_PARSE_H_
#define VERIF_SHIM_CPPBOR_PARSE_H_
#include "libcppbor/include/cppbor/cppbor.h"
namespace cppbor {
using ParseResult =
    std::tuple<std::unique_ptr<Item>, const uint8_t*, std::string>;
namespace details {
inline std::unique_ptr<Item> ParseOne(const uint8_t*& p, const uint8_t* e,
                                      std::string* err, int depth) {
  if (p >= e) {
    *err = "need more bytes";
    return nullptr;
  }
  if (depth > 32) {
    *err = "nested too deeply";
    return nullptr;
  }
  const uint8_t* start = p;
  uint8_t type = *p & 0xe0, info = *p & 0x1f;
  ++p;
  uint64_t v = info;
  if (info >= 24) {
    if (info > 27) {
      *err = "unsupported additional information";
      p = start;
      return nullptr;
    }
    int n = 1 << (info - 24);
    if (e - p < n) {
      *err = "need more bytes for header";
      p = start;
      return nullptr;
    }
    v = 0;
    for (int i = 0; i < n; ++i) v = (v << 8) | *p++;
  }
  switch (type) {
    case UINT:
      return std::make_unique<Uint>(v);
    case NINT:
      if (v > static_cast<uint64_t>(INT64_MAX)) {
        *err = "negative integer out of range";
        return nullptr;
      }
      return std::make_unique<Nint>(-1 - static_cast<int64_t>(v));
    case BSTR:
    case TSTR: {
      if (static_cast<uint64_t>(e - p) < v) {
        *err = "need more bytes for string";
        return nullptr;
      }
      const uint8_t* b = p;
      p += v;
      if (type == BSTR) return std::make_unique<Bstr>(b, p);
      return std::make_unique<Tstr>(std::string(b, p));
    }
    case ARRAY: {
      auto a = std::make_unique<Array>();
      for (uint64_t i = 0; i < v; ++i) {
        auto x = ParseOne(p, e, err, depth + 1);
        if (!x) return nullptr;
        a->add(std::move(x));
      }
      return a;
    }
    case MAP: {
      auto m = std::make_unique<Map>();
      for (uint64_t i = 0; i < v; ++i) {
        auto k = ParseOne(p, e, err, depth + 1);
        if (!k) return nullptr;
        auto x = ParseOne(p, e, err, depth + 1);
        if (!x) return nullptr;
        m->add(std::move(k), std::move(x));
      }
      return m;
    }
    case SIMPLE:
      if (info == 20 || info == 21) return std::make_unique<Bool>(info == 21);
      if (info == 22) return std::make_unique<Null>();
      *err = "unsupported simple value";
      return nullptr;
    default:
      *err = "unsupported tag";
      return nullptr;
  }
}
}  // namespace details
inline ParseResult parse(const uint8_t* begin, const uint8_t* end) {
  std::string err;
  const uint8_t* p = begin;
  auto item = details::ParseOne(p, end, &err, 0);
  if (!item) return ParseResult(nullptr, begin, err);
  return ParseResult(std::move(item), p, "");
}
inline ParseResult parse(const uint8_t* begin, size_t size) {
  return parse(begin, begin + size);
}
inline ParseResult parse(const std::vector<uint8_t>& v) {
  return parse(v.data(), v.data() + v.size());
}
inline ParseResult parse(const Bstr* b) {
  return b ? parse(b->value()) : ParseResult(nullptr, nullptr, "null");
}
}  // namespace cppbor
#endif
