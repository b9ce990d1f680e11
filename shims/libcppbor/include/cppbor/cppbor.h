// Stand-in for libcppbor: definite-length CBOR items, encoder and parser.
#ifndef VERIF_SHIM_CPPBOR_H_
#define VERIF_SHIM_CPPBOR_H_
#include <cstdint>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "absl/strings/string_view.h"
namespace cppbor {
enum MajorType : uint8_t {
  UINT = 0 << 5,
  NINT = 1 << 5,
  BSTR = 2 << 5,
  TSTR = 3 << 5,
  ARRAY = 4 << 5,
  MAP = 5 << 5,
  SEMANTIC = 6 << 5,
  SIMPLE = 7 << 5,
};
enum SimpleType { BOOLEAN, NULL_T };
class Int;
class Uint;
class Nint;
class Bstr;
class Tstr;
class Array;
class Map;
class Simple;
class Bool;
class SemanticTag;

inline void EncodeHeader(uint8_t type, uint64_t v, std::string* out) {
  if (v < 24) {
    out->push_back(static_cast<char>(type | v));
    return;
  }
  int n = v <= 0xff ? 0 : v <= 0xffff ? 1 : v <= 0xffffffffull ? 2 : 3;
  out->push_back(static_cast<char>(type | (24 + n)));
  for (int i = (1 << n) - 1; i >= 0; --i) {
    out->push_back(static_cast<char>((v >> (8 * i)) & 0xff));
  }
}

class Item {
 public:
  virtual ~Item() = default;
  virtual MajorType type() const = 0;
  virtual Int* asInt() { return nullptr; }
  const Int* asInt() const { return const_cast<Item*>(this)->asInt(); }
  virtual Uint* asUint() { return nullptr; }
  virtual Nint* asNint() { return nullptr; }
  virtual Bstr* asBstr() { return nullptr; }
  const Bstr* asBstr() const { return const_cast<Item*>(this)->asBstr(); }
  virtual Tstr* asTstr() { return nullptr; }
  const Tstr* asTstr() const { return const_cast<Item*>(this)->asTstr(); }
  virtual Array* asArray() { return nullptr; }
  const Array* asArray() const { return const_cast<Item*>(this)->asArray(); }
  virtual Map* asMap() { return nullptr; }
  const Map* asMap() const { return const_cast<Item*>(this)->asMap(); }
  virtual Simple* asSimple() { return nullptr; }
  virtual void AppendTo(std::string* out) const = 0;
  virtual std::unique_ptr<Item> clone() const = 0;
  virtual bool operator==(const Item& o) const {
    return toString() == o.toString();
  }
  bool operator!=(const Item& o) const { return !(*this == o); }
  std::vector<uint8_t> encode() const {
    std::string s = toString();
    return std::vector<uint8_t>(s.begin(), s.end());
  }
  std::string toString() const {
    std::string s;
    AppendTo(&s);
    return s;
  }
  size_t encodedSize() const { return toString().size(); }
};

class Int : public Item {
 public:
  virtual int64_t value() const = 0;
  Int* asInt() override { return this; }
};
class Uint : public Int {
 public:
  explicit Uint(uint64_t v) : v_(v) {}
  MajorType type() const override { return UINT; }
  int64_t value() const override { return static_cast<int64_t>(v_); }
  uint64_t unsignedValue() const { return v_; }
  Uint* asUint() override { return this; }
  void AppendTo(std::string* out) const override { EncodeHeader(UINT, v_, out); }
  std::unique_ptr<Item> clone() const override {
    return std::make_unique<Uint>(v_);
  }

 private:
  uint64_t v_;
};
class Nint : public Int {
 public:
  explicit Nint(int64_t v) : v_(v) {}
  MajorType type() const override { return NINT; }
  int64_t value() const override { return v_; }
  Nint* asNint() override { return this; }
  void AppendTo(std::string* out) const override {
    EncodeHeader(NINT, static_cast<uint64_t>(-1 - v_), out);
  }
  std::unique_ptr<Item> clone() const override {
    return std::make_unique<Nint>(v_);
  }

 private:
  int64_t v_;
};
class Bstr : public Item {
 public:
  Bstr() = default;
  explicit Bstr(std::vector<uint8_t> v) : v_(std::move(v)) {}
  explicit Bstr(const std::string& v) : v_(v.begin(), v.end()) {}
  explicit Bstr(absl::string_view v) : v_(v.begin(), v.end()) {}
  explicit Bstr(const char* v) : Bstr(absl::string_view(v)) {}
  explicit Bstr(const std::pair<const uint8_t*, size_t>& b)
      : v_(b.first, b.first + b.second) {}
  template <typename It, typename = typename std::iterator_traits<It>::value_type>
  Bstr(It b, It e) : v_(b, e) {}
  MajorType type() const override { return BSTR; }
  const std::vector<uint8_t>& value() const { return v_; }
  std::vector<uint8_t>&& moveValue() { return std::move(v_); }
  Bstr* asBstr() override { return this; }
  void AppendTo(std::string* out) const override {
    EncodeHeader(BSTR, v_.size(), out);
    out->append(v_.begin(), v_.end());
  }
  std::unique_ptr<Item> clone() const override {
    return std::make_unique<Bstr>(v_);
  }

 private:
  std::vector<uint8_t> v_;
};
class Tstr : public Item {
 public:
  explicit Tstr(std::string v) : v_(std::move(v)) {}
  MajorType type() const override { return TSTR; }
  const std::string& value() const { return v_; }
  Tstr* asTstr() override { return this; }
  void AppendTo(std::string* out) const override {
    EncodeHeader(TSTR, v_.size(), out);
    out->append(v_);
  }
  std::unique_ptr<Item> clone() const override {
    return std::make_unique<Tstr>(v_);
  }

 private:
  std::string v_;
};
class Simple : public Item {
 public:
  MajorType type() const override { return SIMPLE; }
  Simple* asSimple() override { return this; }
};
class Bool : public Simple {
 public:
  explicit Bool(bool v) : v_(v) {}
  bool value() const { return v_; }
  void AppendTo(std::string* out) const override {
    EncodeHeader(SIMPLE, v_ ? 21 : 20, out);
  }
  std::unique_ptr<Item> clone() const override {
    return std::make_unique<Bool>(v_);
  }

 private:
  bool v_;
};
class Null : public Simple {
 public:
  void AppendTo(std::string* out) const override { EncodeHeader(SIMPLE, 22, out); }
  std::unique_ptr<Item> clone() const override { return std::make_unique<Null>(); }
};

namespace details {
template <typename T, typename = void>
struct Maker;
inline std::unique_ptr<Item> Make(std::unique_ptr<Item> i) { return i; }
template <typename T>
std::unique_ptr<Item> Make(T&& v) {
  using D = std::decay_t<T>;
  if constexpr (std::is_base_of_v<Item, D>) {
    return std::make_unique<D>(std::forward<T>(v));
  } else if constexpr (std::is_same_v<D, bool>) {
    return std::make_unique<Bool>(v);
  } else if constexpr (std::is_enum_v<D>) {
    return Make(static_cast<int64_t>(v));
  } else if constexpr (std::is_integral_v<D>) {
    if constexpr (std::is_signed_v<D>) {
      if (v < 0) return std::make_unique<Nint>(v);
    }
    return std::make_unique<Uint>(v);
  } else if constexpr (std::is_same_v<D, std::vector<uint8_t>>) {
    return std::make_unique<Bstr>(std::forward<T>(v));
  } else if constexpr (std::is_same_v<D, absl::string_view>) {
    return std::make_unique<Tstr>(std::string(v));
  } else if constexpr (std::is_convertible_v<T, std::string>) {
    return std::make_unique<Tstr>(std::string(std::forward<T>(v)));
  } else {
    static_assert(std::is_convertible_v<D, std::unique_ptr<Item>>, "");
    return std::unique_ptr<Item>(std::forward<T>(v));
  }
}
}  // namespace details

class Array : public Item {
 public:
  Array() = default;
  Array(Array&&) = default;
  Array(const Array& o) {
    for (auto& e : o.v_) v_.push_back(e->clone());
  }
  Array& operator=(Array&&) = default;
  template <typename T, typename... Args,
            typename = std::enable_if_t<(sizeof...(Args) > 0) ||
                                        !std::is_same_v<std::decay_t<T>, Array>>>
  explicit Array(T&& a, Args&&... args) {
    v_.push_back(details::Make(std::forward<T>(a)));
    (v_.push_back(details::Make(std::forward<Args>(args))), ...);
  }
  template <typename T>
  Array& add(T&& v) & {
    v_.push_back(details::Make(std::forward<T>(v)));
    return *this;
  }
  template <typename T>
  Array&& add(T&& v) && {
    v_.push_back(details::Make(std::forward<T>(v)));
    return std::move(*this);
  }
  MajorType type() const override { return ARRAY; }
  size_t size() const { return v_.size(); }
  std::unique_ptr<Item>& get(size_t i) { return v_[i]; }
  const std::unique_ptr<Item>& get(size_t i) const { return v_[i]; }
  const std::unique_ptr<Item>& operator[](size_t i) const { return v_[i]; }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  Array* asArray() override { return this; }
  void AppendTo(std::string* out) const override {
    EncodeHeader(ARRAY, v_.size(), out);
    for (auto& e : v_) e->AppendTo(out);
  }
  std::unique_ptr<Item> clone() const override {
    return std::make_unique<Array>(*this);
  }

 private:
  std::vector<std::unique_ptr<Item>> v_;
};
class Map : public Item {
 public:
  using entry_type = std::pair<std::unique_ptr<Item>, std::unique_ptr<Item>>;
  Map() = default;
  Map(Map&&) = default;
  Map(const Map& o) {
    for (auto& e : o.v_) v_.emplace_back(e.first->clone(), e.second->clone());
  }
  Map& operator=(Map&&) = default;
  template <typename K, typename V>
  Map& add(K&& k, V&& v) & {
    v_.emplace_back(details::Make(std::forward<K>(k)),
                    details::Make(std::forward<V>(v)));
    return *this;
  }
  template <typename K, typename V>
  Map&& add(K&& k, V&& v) && {
    v_.emplace_back(details::Make(std::forward<K>(k)),
                    details::Make(std::forward<V>(v)));
    return std::move(*this);
  }
  template <typename K>
  const std::unique_ptr<Item>& get(K key) const {
    static const std::unique_ptr<Item> none;
    std::string k = details::Make(key)->toString();
    for (auto& e : v_) {
      if (e.first->toString() == k) return e.second;
    }
    return none;
  }
  MajorType type() const override { return MAP; }
  size_t size() const { return v_.size(); }
  entry_type& operator[](size_t i) { return v_[i]; }
  const entry_type& operator[](size_t i) const { return v_[i]; }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  Map* asMap() override { return this; }
  void AppendTo(std::string* out) const override {
    EncodeHeader(MAP, v_.size(), out);
    for (auto& e : v_) {
      e.first->AppendTo(out);
      e.second->AppendTo(out);
    }
  }
  std::unique_ptr<Item> clone() const override {
    return std::make_unique<Map>(*this);
  }

 private:
  std::vector<entry_type> v_;
};
}  // namespace cppbor
#endif
