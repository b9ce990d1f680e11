// C06: any threshold-sized set of shares rebuilds the secret, fewer never do.
#include <cstring>

#include "common/mc.h"
#include "common/rand.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"

using fcp::secagg::ShamirSecretSharing;
using fcp::secagg::ShamirShare;

namespace {
constexpr uint64_t P = 2147483659ull;
uint64_t Pow(uint64_t b, uint64_t e) {
  uint64_t r = 1;
  for (b %= P; e; e >>= 1, b = b * b % P)
    if (e & 1) r = r * b % P;
  return r;
}
uint64_t Inv(uint64_t a) { return Pow(a, P - 2); }
uint64_t Word(const std::string& s, int i) {
  uint64_t v = 0;
  for (int k = 0; k < 4; ++k) v = v << 8 | (uint8_t)s[4 * i + k];
  return v;
}
// Value at 0 of the polynomial through the given shares.
uint64_t At0(const std::vector<ShamirShare>& s, const std::vector<int>& idx, int word) {
  uint64_t r = 0;
  for (int a : idx) {
    uint64_t c = Word(s[a].data, word);
    for (int b : idx) {
      if (a == b) continue;
      uint64_t xb = b + 1, xa = a + 1;
      c = c % P * xb % P * Inv((xb + P - xa) % P) % P;
    }
    r = (r + c) % P;
  }
  return r;
}

std::vector<std::string> Secrets(bool thorough) {
  std::vector<std::string> v;
  for (int len : {1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 62}) {
    for (int pat = 0; pat < 8; ++pat) {
      std::string s(len, 0);
      for (int i = 0; i < len; ++i) {
        switch (pat) {
          case 0: s[i] = 0; break;
          case 1: s[i] = (char)0xff; break;
          case 2: s[i] = i == 0 ? 0x80 : 0; break;
          case 3: s[i] = i == len - 1 ? 1 : 0; break;
          case 4: s[i] = i % 2 ? 0x55 : 0xaa; break;
          case 5: s[i] = (char)(i * 37 + 11); break;
          case 6: s[i] = (char)(0xff - i); break;
          case 7: s[i] = i == 0 ? 0 : 0xff; break;
        }
      }
      v.push_back(s);
    }
  }
  for (int bit = 0; bit < 256; bit += thorough ? 1 : 3) {
    std::string s(32, 0);
    s[bit / 8] = 1 << (bit % 8);
    v.push_back(s);
  }
  return v;
}

void CheckSubsets(mc::Ctx& ctx, ShamirSecretSharing& rec, int t, int n,
                  const std::vector<ShamirShare>& shares, const std::string& secret) {
  for (unsigned mask = 0; mask < (1u << n); ++mask) {
    std::vector<ShamirShare> sub(n);
    std::vector<int> idx;
    for (int i = 0; i < n; ++i) {
      if (mask >> i & 1) {
        sub[i] = shares[i];
        idx.push_back(i);
      }
    }
    auto r = rec.Reconstruct(t, sub, secret.size());
    ctx.Step();
    if ((int)idx.size() >= t) {
      if (!r.ok() || *r != secret) {
        ctx.Fail("t=" + std::to_string(t) + " n=" + std::to_string(n) + " subset mask " +
                 std::to_string(mask) + " secret " + mc::Hex(secret) + " gave " +
                 (r.ok() ? mc::Hex(*r) : "error"));
      }
    } else if (r.ok()) {
      ctx.Fail("t=" + std::to_string(t) + ": " + std::to_string(idx.size()) +
               " shares were accepted");
    }
    ctx.Eval();
  }
}
}  // namespace

// All subsets of shares of every (count, threshold), for the patterned secrets.
MC_SCENARIO(subsets, {}) {
  int n = 2 + ctx.Choose(ctx.thorough() ? 8 : 6, "shares");
  int t = 2 + ctx.Choose(n - 1, "threshold");
  static auto secrets = Secrets(ctx.thorough());
  int k = ctx.Choose((int)secrets.size(), "secret");
  const std::string& secret = secrets[k];
  mc::SeedRand(1000 * n + 100 * t + k);
  ShamirSecretSharing sh, rec;
  auto shares = sh.Share(t, n, secret);
  ctx.Eq((int)shares.size(), n, "number of shares");
  CheckSubsets(ctx, rec, t, n, shares, secret);
  // Fewer than the threshold do not determine it: interpolation through any
  // t-1 shares must not hit the true value in every word.
  if (t > 2 || true) {
    int words = shares[0].data.size() / 4;
    std::vector<int> all;
    for (int i = 0; i < t; ++i) all.push_back(i);
    for (unsigned mask = 0; mask < (1u << n); ++mask) {
      if (__builtin_popcount(mask) != t - 1) continue;
      std::vector<int> idx;
      for (int i = 0; i < n; ++i)
        if (mask >> i & 1) idx.push_back(i);
      for (int w = 0; w < words; ++w) {
        ctx.Check(At0(shares, idx, w) != At0(shares, all, w),
                  "fewer shares than the threshold give the secret away");
      }
    }
  }
  ctx.State(std::to_string(n) + "/" + std::to_string(t) + "/" + mc::Hex(secret));
  ctx.Outcome("reconstructed");
}

// The random polynomial is chosen so that the interpolation sums take extreme
// values: for a pair of shares, the second product is any residue near 2^31.
MC_SCENARIO(extreme_coefficients, {}) {
  int a = ctx.Choose(3, "first share");
  int b = a + 1 + ctx.Choose(3, "second share");
  int ds = ctx.Choose(26, "secret offset");
  int k = ctx.Choose(26, "product offset");
  uint64_t s = 0x7fffffffull - ds;
  // c * y_b must be 2^31 + 10 - k, c the Lagrange coefficient of share b.
  uint64_t xa = a + 1, xb = b + 1;
  uint64_t lb = xa * Inv((xa + P - xb) % P) % P;
  uint64_t want = (0x80000000ull + 10 - k) % P;
  uint64_t yb = want * Inv(lb) % P;
  uint64_t coeff = (yb + P - s) % P * Inv(xb) % P;
  uint32_t c32 = (uint32_t)coeff;
  mc::g_rand_source = [c32](uint8_t* p, size_t n) {
    if (n != 4) return false;
    memcpy(p, &c32, 4);
    return true;
  };
  std::string secret(4, 0);
  for (int i = 0; i < 4; ++i) secret[i] = (char)(s >> (8 * (3 - i)));
  int n = 4 + (b > 3 ? b - 3 : 0);
  ShamirSecretSharing sh, rec;
  auto shares = sh.Share(2, n, secret);
  mc::g_rand_source = nullptr;
  CheckSubsets(ctx, rec, 2, n, shares, secret);
  ctx.State(std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(s) + "," +
            std::to_string(want));
  ctx.Outcome("reconstructed");
}

// One object reused for different subsets, thresholds and lengths (it caches).
MC_SCENARIO(reuse, {}) {
  struct Q { int t, n; unsigned mask; int len; };
  static const std::vector<Q> qs = {{2, 3, 3, 4},   {2, 3, 5, 4},  {2, 3, 6, 32}, {3, 4, 7, 4},
                                    {3, 4, 14, 32}, {3, 4, 15, 9}, {2, 4, 12, 4}, {4, 5, 30, 32},
                                    {2, 3, 1, 4},   {3, 4, 9, 32}};
  ShamirSecretSharing s;
  int depth = ctx.thorough() ? 4 : 3;
  std::string st;
  for (int d = 0; d < depth; ++d) {
    int qi = ctx.Choose((int)qs.size(), "query");
    const Q& q = qs[qi];
    mc::SeedRand(qi * 31 + d);
    std::string secret;
    for (int i = 0; i < q.len; ++i) secret += (char)(i * 91 + qi * 5 + d);
    auto shares = s.Share(q.t, q.n, secret);
    int have = 0;
    for (int i = 0; i < q.n; ++i) {
      if (q.mask >> i & 1) ++have;
      else shares[i].data.clear();
    }
    auto r = s.Reconstruct(q.t, shares, q.len);
    ctx.Step("query " + std::to_string(qi));
    if (have >= q.t) ctx.Check(r.ok() && *r == secret, "wrong secret on a reused object");
    else ctx.Check(!r.ok(), "too few shares accepted");
    st += std::to_string(qi) + ",";
    ctx.State(st);
  }
}

static int init = (mc::Rule("Secrets: 8 byte patterns for 13 lengths plus single-bit 32-byte secrets; "
                            "every share subset; adversarial polynomial coefficients."),
                   0);
