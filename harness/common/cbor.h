// CBOR written out by hand: an encoder for building and a reader for judging
// encodings, independent of the library the code under test uses.
#ifndef VERIF_CBOR_H_
#define VERIF_CBOR_H_
#include <cstdint>
#include <map>
#include <string>
#include <vector>
namespace mc::cbor {
inline std::string Head(int major, uint64_t v) {
  std::string s;
  if (v < 24) return std::string(1, (char)(major << 5 | v));
  int n = v < 256 ? 1 : v < 65536 ? 2 : v < (1ull << 32) ? 4 : 8;
  s += (char)(major << 5 | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27));
  for (int i = n - 1; i >= 0; --i) s += (char)(v >> (8 * i));
  return s;
}
inline std::string I(int64_t v) { return v >= 0 ? Head(0, v) : Head(1, (uint64_t)(-(v + 1))); }
inline std::string B(const std::string& b) { return Head(2, b.size()) + b; }
inline std::string T(const std::string& t) { return Head(3, t.size()) + t; }
inline std::string A(const std::vector<std::string>& items) {
  std::string s = Head(4, items.size());
  for (auto& i : items) s += i;
  return s;
}
inline std::string M(const std::vector<std::pair<std::string, std::string>>& items) {
  std::string s = Head(5, items.size());
  for (auto& i : items) s += i.first + i.second;
  return s;
}
// One item of each kind: what may stand where something else is expected.
inline const std::vector<std::string>& Kinds() {
  static const std::vector<std::string> k = {I(7),  I(-3),         B("b"), B(""),     T("t"), A({}),
                                             A({I(1)}), M({}), M({{I(1), I(1)}}), "\xf5", "\xf6"};
  return k;
}
// Length of the item starting at s[p], or 0 when there is none.
inline size_t ItemLen(const std::string& s, size_t p) {
  if (p >= s.size()) return 0;
  int major = (uint8_t)s[p] >> 5, info = (uint8_t)s[p] & 31;
  size_t n = info < 24 ? 0 : info == 24 ? 1 : info == 25 ? 2 : info == 26 ? 4 : info == 27 ? 8 : 99;
  if (n == 99 || p + 1 + n > s.size()) return 0;
  uint64_t v = info;
  if (n) {
    v = 0;
    for (size_t i = 0; i < n; ++i) v = v << 8 | (uint8_t)s[p + 1 + i];
  }
  size_t len = 1 + n;
  if (major == 2 || major == 3) return v > s.size() - p - len ? 0 : len + v;
  if (major == 4 || major == 5) {
    uint64_t items = major == 5 ? 2 * v : v;
    for (uint64_t i = 0; i < items; ++i) {
      size_t l = ItemLen(s, p + len);
      if (!l) return 0;
      len += l;
    }
  }
  if (major == 6) return 0;
  return len;
}
// Splits an array (4) or map (5) into its encoded items; false when it is not
// one or something follows.
inline bool Split(const std::string& s, int major, std::vector<std::string>* out) {
  out->clear();
  size_t l = ItemLen(s, 0);
  if (!l || l != s.size() || (uint8_t)s[0] >> 5 != major) return false;
  int info = (uint8_t)s[0] & 31;
  size_t p = 1 + (info < 24 ? 0 : 1 << (info - 24));
  while (p < s.size()) {
    size_t n = ItemLen(s, p);
    out->push_back(s.substr(p, n));
    p += n;
  }
  return true;
}
inline bool ReadMap(const std::string& s, std::map<std::string, std::string>* out) {
  std::vector<std::string> v;
  out->clear();
  if (!Split(s, 5, &v)) return false;
  for (size_t i = 0; i + 1 < v.size(); i += 2) {
    if (!out->emplace(v[i], v[i + 1]).second) return false;
  }
  return true;
}
// Contents of a byte string item.
inline bool ReadBytes(const std::string& s, std::string* out) {
  size_t l = ItemLen(s, 0);
  if (!l || l != s.size() || (uint8_t)s[0] >> 5 != 2) return false;
  int info = (uint8_t)s[0] & 31;
  *out = s.substr(1 + (info < 24 ? 0 : 1 << (info - 24)));
  return true;
}
}  // namespace mc::cbor
#endif
