// C34 (random tokens and digests).
#include "common/mc.h"
#include "common/rand.h"
#include "absl/hash/hash.h"
#include "absl/strings/cord.h"
#include "absl/log/absl_log.h"
#include "fcp/base/digest.h"
#include "fcp/base/random_token.h"

#include <cstring>

using fcp::RandomToken;
namespace {
// FIPS 180-4, written out.
std::string Sha256(const std::string& in) {
  static const uint32_t k[64] = {
      0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be,
      0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa,
      0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85,
      0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3,
      0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f,
      0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  std::string m = in + '\x80';
  while (m.size() % 64 != 56) m += '\0';
  for (int i = 7; i >= 0; --i) m += char(uint64_t(in.size()) * 8 >> (8 * i));
  auto ror = [](uint32_t x, int n) { return x >> n | x << (32 - n); };
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64];
    for (int i = 0; i < 16; ++i)
      w[i] = uint8_t(m[o + 4 * i]) << 24 | uint8_t(m[o + 4 * i + 1]) << 16 | uint8_t(m[o + 4 * i + 2]) << 8 | uint8_t(m[o + 4 * i + 3]);
    for (int i = 16; i < 64; ++i)
      w[i] = w[i - 16] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] +
             (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ w[i - 2] >> 10);
    uint32_t v[8];
    memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; ++i) {
      uint32_t t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
      uint32_t t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; --j) v[j] = v[j - 1];
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  std::string out;
  for (uint32_t x : h)
    for (int i = 3; i >= 0; --i) out += char(x >> (8 * i));
  return out;
}
std::string Data(int n, int seed) {
  std::string s;
  for (int i = 0; i < n; ++i) s += char(i * 31 + seed * 97 + (i >> 3));
  return s;
}
}  // namespace

MC_SCENARIO(digests, {}) {
  static const std::vector<int> kLong = {1000, 4000, 4083, 4096, 5000, 8192, 16384, 40000, 65535, 65536, 70000, 200000};
  int n = ctx.Choose((ctx.thorough() ? 700 : 300) + kLong.size(), "length");
  if (n < (int)kLong.size()) n = kLong[n]; else n -= kLong.size();
  int seed = ctx.Choose(2, "bytes");
  std::string d = seed ? Data(n, 3) : std::string(n, '\0');
  std::string want = mc::Hex(Sha256(d));
  std::unique_ptr<char[]> exact(new char[n + 1]);
  memcpy(exact.get(), d.data(), n);
  ctx.Eq(mc::Hex(fcp::ComputeSHA256(absl::string_view(exact.get(), n))), want, "digest of a string");
  ctx.Eq(mc::Hex(fcp::ComputeSHA256(absl::Cord(d))), want, "digest of a cord");
  // Cords of several pieces, none merged.
  int piece = 1 + n / 3;
  absl::Cord c;
  for (int at = 0; at < n; at += piece) {
    auto* p = new std::string(d.substr(at, piece));
    c.Append(absl::MakeCordFromExternal(*p, [p](absl::string_view) { delete p; }));
  }
  ctx.Eq(mc::Hex(fcp::ComputeSHA256(c)), want, "digest of a cord in pieces");
  ctx.Steps(3);
}
MC_SCENARIO(cord_cuts, {}) {
  // Every way to cut a short message in three.
  int n = ctx.Choose(ctx.thorough() ? 80 : 70, "length");
  std::string d = Data(n, 1), want = mc::Hex(Sha256(d));
  for (int i = 0; i <= n; ++i)
    for (int j = i; j <= n; ++j) {
      absl::Cord c;
      for (auto s : {d.substr(0, i), d.substr(i, j - i), d.substr(j)}) {
        auto* p = new std::string(s);
        c.Append(absl::MakeCordFromExternal(*p, [p](absl::string_view) { delete p; }));
      }
      ctx.Eq(mc::Hex(fcp::ComputeSHA256(c)), want, "digest");
      ctx.Step();
    }
}
MC_SCENARIO(tokens, {}) {
  // The random source is scripted: every byte it gives must be in the token.
  int byte = ctx.Choose(17, "byte");
  int value = ctx.Choose(256, "value");
  std::string raw = Data(16, 9);
  if (byte < 16) raw[byte] = char(value);
  else raw = std::string(16, char(value));
  size_t given = 0;
  mc::g_rand_source = [&](uint8_t* b, size_t n) {
    for (size_t i = 0; i < n; ++i) b[i] = raw[(given + i) % 16];
    given += n;
    return true;
  };
  RandomToken t = RandomToken::Generate();
  mc::g_rand_source = nullptr;
  ctx.Eq(given, size_t{16}, "random bytes taken");
  ctx.Eq(mc::Hex(t.ToString()), mc::Hex(raw), "token bytes");
  auto bytes = t.ToBytes();
  ctx.Eq(mc::Hex(std::string(bytes.data(), bytes.size())), mc::Hex(raw), "token bytes as array");
  std::string hex;
  for (unsigned char c : raw) {
    char b[3];
    snprintf(b, 3, "%02x", c);
    hex += b;
  }
  ctx.Eq(t.ToPrintableString(), hex, "printable form");
  std::unique_ptr<char[]> exact(new char[16]);
  memcpy(exact.get(), raw.data(), 16);
  RandomToken back = RandomToken::FromBytes(absl::Span<const char>(exact.get(), 16));
  ctx.Check(back == t && !(back != t), "token read back differs");
  ctx.Check(absl::Hash<RandomToken>()(back) == absl::Hash<RandomToken>()(t), "equal tokens hash differently");
  for (int i = 0; i < 16; ++i)
    for (int bit = 0; bit < 8; ++bit) {
      std::string o = raw;
      o[i] ^= 1 << bit;
      RandomToken other = RandomToken::FromBytes(absl::Span<const char>(o.data(), o.size()));
      ctx.Check(other != t && !(other == t), "different tokens compare equal");
    }
  ctx.Steps(130);
}
MC_SCENARIO(token_sizes, {}) {
  mc_fatal::g_throw_on_fatal = true;
  int n = ctx.Choose(40, "length");
  std::string raw(n, 'x');
  bool died = false;
  try {
    (void)RandomToken::FromBytes(absl::Span<const char>(raw.data(), raw.size()));
  } catch (const mc_fatal::Fatal&) {
    died = true;
  }
  ctx.Eq(died, n != 16, "refused");
}
MC_SCENARIO(no_randomness, {}) {
  // Without randomness there is no token.
  mc_fatal::g_throw_on_fatal = true;
  mc::g_rand_fails = true;
  bool died = false;
  try {
    (void)RandomToken::Generate();
  } catch (const mc_fatal::Fatal&) {
    died = true;
  }
  mc::g_rand_fails = false;
  ctx.Check(died, "a token was made without randomness");
}
MC_SCENARIO(generated_tokens_differ, {}) {
  // Two tokens made one after the other carry different random bytes.
  uint8_t next = 0;
  mc::g_rand_source = [&](uint8_t* b, size_t n) {
    for (size_t i = 0; i < n; ++i) b[i] = next++;
    return true;
  };
  std::vector<RandomToken> v;
  int n = 2 + ctx.Choose(14, "count");
  for (int i = 0; i < n; ++i) v.push_back(RandomToken::Generate());
  mc::g_rand_source = nullptr;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) ctx.Eq(v[i] == v[j], i == j, "equality of tokens");
}
static int init = (mc::Rule("digests of every length up to the bound as string, cord and cord in pieces against SHA-256 written out from its definition; every "
                            "value of every random byte through a token and back, and every single-bit neighbour"), 0);
