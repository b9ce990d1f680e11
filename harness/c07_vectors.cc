// C07: packed vectors and masks.
#include <map>

#include "common/mc.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/async_abort.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/math.h"
#include "fcp/secagg/shared/secagg_vector.h"
#include "prelude.h"

using namespace fcp::secagg;
namespace {
typedef unsigned __int128 u128;
std::vector<uint64_t> Moduli() {
  std::vector<uint64_t> m;
  for (int k = 1; k <= 62; ++k) {
    uint64_t b = 1ull << k;
    for (uint64_t v : {b - 1, b, b + 1, b / 2 + b / 4 + 1})
      if (v >= 2 && v <= SecAggVector::kMaxModulus) m.push_back(v);
  }
  return m;
}
int Bits(uint64_t m) {
  int w = 0;
  for (uint64_t v = m - 1; v; v >>= 1) ++w;
  return w;
}
// Least significant bit first, no padding between elements.
std::string RefPack(const std::vector<uint64_t>& v, uint64_t m) {
  int w = Bits(m);
  std::string s((v.size() * w + 7) / 8, '\0');
  size_t bit = 0;
  for (uint64_t x : v)
    for (int i = 0; i < w; ++i, ++bit)
      if (x >> i & 1) s[bit / 8] |= (char)(1 << (bit % 8));
  return s;
}
std::vector<uint64_t> Values(int n, uint64_t m, int pattern) {
  std::vector<uint64_t> v(n);
  uint64_t x = 0x123456789abcdefull + pattern;
  for (int i = 0; i < n; ++i) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    switch (pattern) {
      case 0: v[i] = m - 1; break;
      case 1: v[i] = i % 2 ? m - 1 : 0; break;
      case 2: v[i] = i % 2 ? 0 : m - 1; break;
      case 3: v[i] = i == n - 1 ? m - 1 : 0; break;
      case 4: v[i] = (uint64_t)i % m; break;
      default: v[i] = (x >> 1) % m;
    }
  }
  return v;
}
std::string Show(const std::vector<uint64_t>& v) {
  std::string s;
  for (auto x : v) s += std::to_string(x) + " ";
  return s;
}
template <typename F>
bool Refused(F f) {
  try {
    f();
  } catch (const mc_fatal::Fatal&) {
    return true;
  }
  return false;
}
void CheckPacking(mc::Ctx& ctx, const std::vector<uint64_t>& v, uint64_t m) {
  std::string want = RefPack(v, m);
  std::string what = " (modulus " + std::to_string(m) + ", " + std::to_string(v.size()) + " elements)";
  for (bool branchless : {false, true}) {
    SecAggVector p(v, m, branchless);
    ctx.Step();
    ctx.Check(p.GetAsPackedBytes() == want, "packed bytes" + what);
    ctx.Check(p.num_elements() == v.size() && p.modulus() == m && (int)p.bit_width() == Bits(m), "shape" + what);
    ctx.Check(p.GetAsUint64Vector() == v, "unpacked values" + what);
    // From the wire, decoded with either codec.
    for (bool b2 : {false, true}) {
      SecAggVector q(std::string(want), m, v.size(), b2);
      ctx.Check(q.GetAsUint64Vector() == v, "values from the wire" + what);
      ctx.Check(q == p, "equality" + what);
    }
    SecAggVector::Decoder d(p);
    for (size_t i = 0; i < v.size(); ++i) ctx.Check(d.ReadValue() == v[i], "value read one by one" + what);
    SecAggUnpackedVector u(p);
    ctx.Check(std::vector<uint64_t>(u) == v && u.modulus() == m, "unpacked vector" + what);
    SecAggVector moved(std::move(p));
    ctx.Check(moved.GetAsUint64Vector() == v, "moved vector" + what);
    ctx.Check(std::move(moved).TakePackedBytes() == want, "taken bytes" + what);
  }
  SecAggVector::Coder c(m, Bits(m), v.size());
  for (uint64_t x : v) c.WriteValue(x);
  SecAggVector cv = std::move(c).Create();
  ctx.Check(cv.GetAsPackedBytes() == want, "values written one by one" + what);
  ctx.Steps(3);
}
}  // namespace

MC_SCENARIO(packing_shapes, {}) {
  static auto ms = Moduli();
  uint64_t m = ctx.Pick(ms, "modulus");
  int max = ctx.thorough() ? 67 : 19;
  for (int n = 0; n <= max; ++n)
    for (int p = 0; p < 6; ++p) CheckPacking(ctx, Values(n, m, p), m);
  ctx.State("m" + std::to_string(m));
}
// Every vector of small moduli.
MC_SCENARIO(packing_all_small, {}) {
  uint64_t m = 2 + ctx.Choose(ctx.thorough() ? 16 : 8, "modulus");
  int n = ctx.Choose(m <= 4 ? 8 : 5, "length");
  uint64_t total = 1;
  for (int i = 0; i < n; ++i) total *= m;
  for (uint64_t k = 0; k < total; ++k) {
    std::vector<uint64_t> v;
    uint64_t r = k;
    for (int i = 0; i < n; ++i) v.push_back(r % m), r /= m;
    CheckPacking(ctx, v, m);
  }
  ctx.State(std::to_string(m) + "/" + std::to_string(n));
}
MC_SCENARIO(refusals) {
  static auto ms = Moduli();
  uint64_t m = ctx.Pick(ms, "modulus");
  for (int n = 1; n <= 9; ++n) {
    auto v = Values(n, m, 5);
    std::string packed = RefPack(v, m);
    for (bool b : {false, true}) {
      ctx.Check(Refused([&] { SecAggVector x(packed + "x", m, n, b); }), "packed data too long accepted");
      ctx.Check(Refused([&] { SecAggVector x(packed.substr(1), m, n, b); }), "packed data too short accepted");
      for (int i = 0; i < n; ++i) {
        auto w = v;
        w[i] = m;
        ctx.Check(Refused([&] { SecAggVector x(w, m, b); }), "value not below the modulus accepted");
      }
      for (uint64_t bad : {0ull, 1ull, (1ull << 62) + 1, ~0ull}) {
        ctx.Check(Refused([&] { SecAggVector x(std::vector<uint64_t>(n, 0), bad, b); }), "bad modulus accepted");
      }
    }
    ctx.Step();
  }
  ctx.State("r" + std::to_string(m));
}
// Sums, through every interface.
MC_SCENARIO(addition, {}) {
  static auto ms = Moduli();
  uint64_t m = ctx.Pick(ms, "modulus");
  for (int n : {0, 1, 2, 7}) {
    for (int pa = 0; pa < 6; ++pa) {
      for (int pb = 0; pb < 6; ++pb) {
        auto a = Values(n, m, pa), b = Values(n, m, pb);
        if (pb == 5 && n) b[0] = (m - a[0]) % m;
        std::vector<uint64_t> want;
        for (int i = 0; i < n; ++i) want.push_back((uint64_t)(((u128)a[i] + b[i]) % m));
        SecAggVector va(a, m), vb(b, m);
        ctx.Check(AddVectors(va, vb).GetAsUint64Vector() == want, "sum of packed vectors");
        SecAggUnpackedVector u(a, m);
        u.Add(vb);
        ctx.Check(std::vector<uint64_t>(u) == want, "packed added to unpacked");
        SecAggUnpackedVector u2(a, m);
        u2.Add(SecAggUnpackedVector(b, m));
        ctx.Check(std::vector<uint64_t>(u2) == want, "unpacked added to unpacked");
        SecAggVectorMap ma, mb;
        ma.emplace("x", SecAggVector(a, m));
        ma.emplace("y", SecAggVector(b, m));
        mb.emplace("y", SecAggVector(a, m));
        mb.emplace("x", SecAggVector(b, m, true));
        auto s = AddMaps(ma, mb);
        ctx.Check(s->size() == 2 && s->at("x").GetAsUint64Vector() == want && s->at("y").GetAsUint64Vector() == want,
                  "sum of maps");
        SecAggUnpackedVectorMap um(ma), um2(mb);
        auto us = SecAggUnpackedVectorMap::AddMaps(um, um2);
        ctx.Check(us->size() == 2 && std::vector<uint64_t>(us->at("x")) == want && std::vector<uint64_t>(us->at("y")) == want,
                  "sum of unpacked maps");
        SecAggUnpackedVectorMap um3(ma);
        um3.Add(mb);
        um.Add(um2);
        ctx.Check(std::vector<uint64_t>(um.at("x")) == want && std::vector<uint64_t>(um3.at("y")) == want, "added maps");
        ctx.Steps(7);
        for (int i = 0; i < n; ++i) {
          ctx.Eq(AddMod(a[i], b[i], m), want[i], "a + b");
          ctx.Eq(AddModOpt(a[i], b[i], m), want[i], "a + b");
          uint64_t diff = (uint64_t)(((u128)a[i] + m - b[i]) % m);
          ctx.Eq(SubtractMod(a[i], b[i], m), diff, "a - b");
          ctx.Eq(SubtractModOpt(a[i], b[i], m), diff, "a - b");
          ctx.Eq(MultiplyMod64(a[i], b[i], m), (uint64_t)(((u128)a[i] * b[i]) % m), "a * b");
        }
      }
    }
  }
  ctx.State("a" + std::to_string(m));
}

namespace {
AesKey KeyNo(int i) {
  uint8_t b[32];
  for (int j = 0; j < 32; ++j) b[j] = (uint8_t)(i * 37 + j * (i + 1));
  return AesKey(b);
}
typedef std::map<std::string, std::vector<uint64_t>> Plain;
template <typename T>
Plain ToPlain(const T& m);
template <>
Plain ToPlain(const SecAggVectorMap& m) {
  Plain p;
  for (auto& [k, v] : m) p[k] = v.GetAsUint64Vector();
  return p;
}
template <>
Plain ToPlain(const SecAggUnpackedVectorMap& m) {
  Plain p;
  for (auto& [k, v] : m) p[k] = std::vector<uint64_t>(v);
  return p;
}
}  // namespace

// Masks over all small sets of keys.
MC_SCENARIO(masks, {}) {
  static auto ms = Moduli();
  uint64_t m = ctx.Pick(ms, "modulus");
  int len = ctx.Pick(std::vector<int>{0, 1, 5, 1700}, "length");
  std::vector<InputVectorSpecification> specs;
  specs.emplace_back("v", len, m);
  specs.emplace_back("w", 40, 1ull << 40);
  SessionId s{std::string(32, 's')};
  AesCtrPrngFactory f;
  Plain single[3];
  for (int k = 0; k < 3; ++k) {
    single[k] = ToPlain(*MapOfMasks({KeyNo(k)}, {}, specs, s, f));
    ctx.Step();
    for (auto& [n, v] : single[k])
      for (uint64_t x : v) ctx.Check(x < (n == "v" ? m : 1ull << 40), "mask not below the modulus");
    ctx.Check((int)single[k]["v"].size() == len && single[k].size() == 2, "mask shape");
  }
  // 3^3 ways to add, subtract or leave out the keys.
  for (int code = 0; code < 27; ++code) {
    std::vector<AesKey> add, sub;
    Plain want;
    want["v"].resize(len);
    want["w"].resize(40);
    int c = code;
    for (int k = 0; k < 3; ++k, c /= 3) {
      int what = c % 3;
      if (what == 1) add.insert(add.begin(), KeyNo(k));
      if (what == 2) sub.push_back(KeyNo(k));
      for (auto& [n, v] : want) {
        uint64_t mod = n == "v" ? m : 1ull << 40;
        for (size_t i = 0; i < v.size(); ++i) {
          uint64_t x = single[k][n][i];
          if (what == 1) v[i] = (uint64_t)(((u128)v[i] + x) % mod);
          if (what == 2) v[i] = (uint64_t)(((u128)v[i] + mod - x) % mod);
        }
      }
    }
    ctx.Check(ToPlain(*MapOfMasks(add, sub, specs, s, f)) == want, "sum of masks");
    ctx.Check(ToPlain(*MapOfMasksV3(add, sub, specs, s, f)) == want, "sum of masks (V3)");
    ctx.Check(ToPlain(*UnpackedMapOfMasks(add, sub, specs, s, f)) == want, "sum of masks (unpacked)");
    ctx.Steps(3);
  }
  if (len >= 5 && m > (1 << 20)) {
    // Another key, session or name gives another mask.
    SessionId s2{std::string(31, 's') + "t"};
    std::vector<InputVectorSpecification> sp2;
    sp2.emplace_back("v2", len, m);
    ctx.Check(single[0]["v"] != single[1]["v"] && single[1]["v"] != single[2]["v"], "two keys, one mask");
    ctx.Check(ToPlain(*MapOfMasks({KeyNo(0)}, {}, specs, s2, f))["v"] != single[0]["v"], "two sessions, one mask");
    ctx.Check(ToPlain(*MapOfMasks({KeyNo(0)}, {}, sp2, s, f))["v2"] != single[0]["v"], "two names, one mask");
    bool varied = false;
    for (int i = 1; i < len; ++i) varied |= single[0]["v"][i] != single[0]["v"][0];
    ctx.Check(varied, "constant mask");
  }
  std::string msg = "x";
  std::atomic<std::string*> sig{nullptr};
  AsyncAbort ab(&sig);
  ctx.Check(MapOfMasks({KeyNo(0)}, {}, specs, s, f, &ab) != nullptr, "abort signalled by nobody");
  ab.Abort("stop");
  ctx.Check(ab.Signalled() && ab.Message() == "stop", "abort lost");
  ctx.Check(MapOfMasks({KeyNo(0)}, {}, specs, s, f, &ab) == nullptr && MapOfMasksV3({}, {KeyNo(0)}, specs, s, f, &ab) == nullptr &&
                UnpackedMapOfMasks({KeyNo(0)}, {}, specs, s, f, &ab) == nullptr,
            "abort ignored");
  ctx.State("k" + std::to_string(m) + "/" + std::to_string(len));
}

namespace {
// Delivers every 16-bit value in turn, over and over.
class CyclePrng : public SecureBatchPrng {
 public:
  uint8_t Rand8() override {
    uint32_t i = pos_++ % 131072;
    uint16_t v = (uint16_t)((i / 2) * 40503u);
    return i % 2 ? v & 255 : v >> 8;
  }
  uint64_t Rand64() override {
    uint64_t r = 0;
    for (int i = 0; i < 8; ++i) r |= (uint64_t)Rand8() << (8 * i);
    return r;
  }
  size_t GetMaxBufferSize() const override { return 1680; }
  int RandBuffer(uint8_t* b, int n) override {
    for (int i = 0; i < n; ++i) b[i] = Rand8();
    return n;
  }
  uint64_t pos_ = 0;
};
class CycleFactory : public AesPrngFactory {
 public:
  std::unique_ptr<SecurePrng> MakePrng(const AesKey&) const override { return std::make_unique<CyclePrng>(); }
  bool SupportsBatchMode() const override { return true; }
};
}  // namespace
// With generator output spread evenly, so are the masks: no residue of a
// modulus that is not a power of two is preferred.
MC_SCENARIO(uniform_masks, {}) {
  uint64_t m = ctx.Pick(std::vector<uint64_t>{2, 3, 5, 6, 7, 10, 16, 17, 48, 100, 129, 200, 255, 256, 257, 1000, 1025, 4097}, "modulus");
  bool sub = ctx.Flip("subtract");
  int len = 8 * 65536;
  std::vector<InputVectorSpecification> specs;
  specs.emplace_back("v", len, m);
  CycleFactory f;
  std::vector<AesKey> k = {KeyNo(0)}, none;
  auto masks = UnpackedMapOfMasks(sub ? none : k, sub ? k : none, specs, SessionId{std::string(32, 's')}, f);
  ctx.Step();
  std::vector<int> count(m);
  for (uint64_t x : masks->at("v")) ++count.at(x);
  int mn = len, mx = 0;
  for (int c : count) mn = std::min(mn, c), mx = std::max(mx, c);
  // Less than one cycle's worth of difference after several cycles.
  double per_cycle = 2.0 * 65536 / m;
  ctx.Check(mx - mn <= per_cycle * 0.6 + 3, "residues occur between " + std::to_string(mn) + " and " + std::to_string(mx) + " times");
  ctx.State("u" + std::to_string(m) + std::to_string(sub));
}
static int init = (mc::Rule("~240 moduli around every power of two up to 2^62 x lengths 0-19 (67) x 6 value patterns x both codecs; all "
                            "vectors of moduli 2-9 (17) up to length 4-7; all 27 ways to add/subtract/omit 3 keys."),
                   0);
