// C09: SecAgg cryptography.
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>

#include "common/mc.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"

using namespace fcp::secagg;
namespace {
// Key pairs computed here, with private keys at the edges and in the middle.
struct TestKeys {
  static constexpr int kNum = 8;
  std::string priv[kNum], pub[kNum], unc[kNum];
  TestKeys() {
    EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1);
    const BIGNUM* order = EC_GROUP_get0_order(g);
    for (int i = 0; i < kNum; ++i) {
      BIGNUM* d = BN_new();
      if (i == 0) BN_set_word(d, 1);
      if (i == 1) BN_set_word(d, 2);
      if (i == 2) BN_copy(d, order), BN_sub_word(d, 5);
      if (i >= 3) {
        uint8_t b[32];
        for (int j = 0; j < 32; ++j) b[j] = (uint8_t)(j < i - 3 ? 0 : 17 * i + 29 * j * i);
        BN_bin2bn(b, 32, d);
        BN_mod(d, d, order, ctx_);
      }
      EC_POINT* p = EC_POINT_new(g);
      EC_POINT_mul(g, p, d, nullptr, nullptr, ctx_);
      uint8_t out[65];
      BN_bn2binpad(d, out, 32);
      priv[i].assign((char*)out, 32);
      EC_POINT_point2oct(g, p, POINT_CONVERSION_COMPRESSED, out, 33, ctx_);
      pub[i].assign((char*)out, 33);
      EC_POINT_point2oct(g, p, POINT_CONVERSION_UNCOMPRESSED, out, 65, ctx_);
      unc[i].assign((char*)out, 65);
    }
  }
  BN_CTX* ctx_ = BN_CTX_new();
  EcdhPrivateKey GetPrivateKey(int i) { return EcdhPrivateKey(reinterpret_cast<const uint8_t*>(priv[i].data())); }
  EcdhPublicKey GetPublicKey(int i) { return EcdhPublicKey(reinterpret_cast<const uint8_t*>(pub[i].data())); }
  EcdhPublicKey GetUncompressedPublicKey(int i) {
    return EcdhPublicKey(reinterpret_cast<const uint8_t*>(unc[i].data()), EcdhPublicKey::kUncompressed);
  }
};
TestKeys& Keys() {
  static auto* k = new TestKeys();
  return *k;
}
class RawKey : public EcdhPublicKey {
 public:
  static EcdhPublicKey Of(const std::string& s) {
    EcdhPublicKey k;
    static_cast<Key&>(k) = Key(reinterpret_cast<const uint8_t*>(s.data()), (int)s.size());
    return k;
  }
};
AesKey KeyNo(int i) {
  uint8_t b[32];
  for (int j = 0; j < 32; ++j) b[j] = (uint8_t)(i * 37 + j * (i + 1));
  return AesKey(b);
}
}  // namespace

MC_SCENARIO(agreement, {}) {
  const int n = TestKeys::kNum;
  int i = ctx.Choose(n + 2, "first"), j = ctx.Choose(n + 2, "second");
  auto make = [&](int k) {
    return k < n ? EcdhKeyAgreement::CreateFromKeypair(Keys().GetPrivateKey(k), Keys().GetPublicKey(k))
                 : EcdhKeyAgreement::CreateFromRandomKeys();
  };
  auto a = make(i), b = make(j);
  ctx.Check(a.ok() && b.ok(), "valid key pair refused");
  auto sa = (*a)->ComputeSharedSecret((*b)->PublicKey()), sb = (*b)->ComputeSharedSecret((*a)->PublicKey());
  ctx.Steps(2);
  ctx.Check(sa.ok() && sb.ok(), "no shared secret");
  ctx.Check(sa->AsString() == sb->AsString() && sa->size() == 32, "the parties disagree");
  if (i < n) {
    ctx.Check((*a)->PublicKey() == Keys().GetPublicKey(i) && (*a)->PrivateKey() == Keys().GetPrivateKey(i), "keys changed");
    auto p = EcdhKeyAgreement::CreateFromPrivateKey(Keys().GetPrivateKey(i));
    ctx.Check(p.ok(), "private key refused");
    ctx.Check((*p)->ComputeSharedSecret((*b)->PublicKey())->AsString() == sa->AsString(), "private key alone disagrees");
    auto u = EcdhKeyAgreement::CreateFromKeypair(Keys().GetPrivateKey(i), Keys().GetUncompressedPublicKey(i));
    ctx.Check(u.ok() && (*u)->PublicKey() == Keys().GetPublicKey(i), "uncompressed public key");
    ctx.Check((*b)->ComputeSharedSecret(Keys().GetUncompressedPublicKey(i))->AsString() == sb->AsString(), "uncompressed key disagrees");
    if (j < n && i != j)
      ctx.Check(!EcdhKeyAgreement::CreateFromKeypair(Keys().GetPrivateKey(i), Keys().GetPublicKey(j)).ok(), "mismatched pair accepted");
  }
  // A third party gets something else.
  int k = (i + 1) % n == j ? (i + 2) % n : (i + 1) % n;
  if (i != j && k != i && k != j) {
    auto c = make(k);
    ctx.Check((*c)->ComputeSharedSecret((*a)->PublicKey())->AsString() != sa->AsString(), "a third party shares the secret");
  }
  ctx.State(std::to_string(i) + "/" + std::to_string(j));
}
MC_SCENARIO(bad_public_keys, {}) {
  int i = ctx.Choose(2, "key");
  bool unc = ctx.Flip("uncompressed");
  std::string k = unc ? Keys().GetUncompressedPublicKey(i).AsString() : Keys().GetPublicKey(i).AsString();
  auto me = EcdhKeyAgreement::CreateFromKeypair(Keys().GetPrivateKey(3), Keys().GetPublicKey(3));
  std::string right = (*me)->ComputeSharedSecret(RawKey::Of(k))->AsString();
  int pos = ctx.Choose((int)k.size() + 1, "position");
  if (pos == (int)k.size()) {
    for (int len = 0; len <= 70; ++len) {
      if (len == (int)k.size()) continue;
      std::string s = len <= (int)k.size() ? k.substr(0, len) : k + std::string(len - k.size(), '\0');
      auto r = (*me)->ComputeSharedSecret(RawKey::Of(s));
      ctx.Step();
      ctx.Check(!r.ok(), "key of length " + std::to_string(len) + " accepted");
      ctx.Check(!EcdhKeyAgreement::CreateFromKeypair(Keys().GetPrivateKey(i), RawKey::Of(s)).ok(), "key pair accepted");
    }
  } else {
    for (int b = 0; b < 256; ++b) {
      std::string s = k;
      if (s[pos] == (char)b) continue;
      s[pos] = (char)b;
      auto r = (*me)->ComputeSharedSecret(RawKey::Of(s));
      ctx.Step();
      if (unc) ctx.Check(!r.ok(), "a point off the curve was accepted");
      // A compressed key may happen to name another point; the other of the two
      // points with this x has the same secret.
      if (r.ok() && pos > 0) ctx.Check(r->AsString() != right, "another key gives the same secret");
      if (pos == 0 && !unc) ctx.Eq(r.ok(), b == 2 || b == 3, "key format byte accepted");
      ctx.Check(!EcdhKeyAgreement::CreateFromKeypair(Keys().GetPrivateKey(i), RawKey::Of(s)).ok(), "mismatched pair accepted");
    }
  }
  ctx.State(std::to_string(i) + std::to_string(unc) + "/" + std::to_string(pos));
}
MC_SCENARIO(encryption, {}) {
  int len = ctx.Choose(ctx.thorough() ? 70 : 36, "length");
  if (len > 30) len = len == 31 ? 100 : len == 32 ? 255 : len == 33 ? 1000 : len == 34 ? 4096 : len == 35 ? 70000 : len;
  int k = ctx.Choose(3, "key");
  std::string pt;
  for (int i = 0; i < len; ++i) pt += (char)(i * 7 + k);
  AesGcmEncryption e;
  std::string c = e.Encrypt(KeyNo(k), pt), c2 = e.Encrypt(KeyNo(k), pt);
  ctx.Steps(2);
  ctx.Check(c != c2, "the same ciphertext twice");
  auto r = e.Decrypt(KeyNo(k), c);
  ctx.Check(r.ok() && *r == pt, "decryption");
  ctx.Check(e.Decrypt(KeyNo(k), c2).value() == pt, "decryption");
  ctx.Check(!e.Decrypt(KeyNo(k + 1), c).ok(), "another key opens it");
  size_t limit = std::min<size_t>(c.size(), 120);
  for (size_t n = 0; n < limit; ++n) {
    ctx.Check(!e.Decrypt(KeyNo(k), c.substr(0, n)).ok(), "truncated ciphertext opened");
    ctx.Check(!e.Decrypt(KeyNo(k), c.substr(c.size() - n)).ok(), "tail opened");
    ctx.Steps(2);
  }
  ctx.Check(!e.Decrypt(KeyNo(k), c + '\0').ok() && !e.Decrypt(KeyNo(k), '\0' + c).ok(), "extended ciphertext opened");
  for (size_t i = 0; i < limit; ++i) {
    for (int x = 1; x < 256; x = len < 20 ? x + 1 : x * 2) {
      std::string d = c;
      size_t p = i % 2 ? c.size() - 1 - i / 2 : i / 2;
      d[p] ^= (char)x;
      ctx.Check(!e.Decrypt(KeyNo(k), d).ok(), "changed ciphertext opened");
      ctx.Step();
    }
  }
  ctx.State(std::to_string(len) + "/" + std::to_string(k));
}
MC_SCENARIO(generator, {}) {
  int k = ctx.Choose(4, "key");
  AesCtrPrngFactory f;
  const int total = 1680 * 4;
  std::vector<uint8_t> bytes, words, buf;
  auto a = f.MakePrng(KeyNo(k));
  for (int i = 0; i < total; ++i) bytes.push_back(a->Rand8());
  auto b = f.MakePrng(KeyNo(k));
  while ((int)words.size() < total) {
    uint64_t w = b->Rand64();
    for (int i = 0; i < 8; ++i) words.push_back(w >> (8 * i));
  }
  auto c = f.MakePrng(KeyNo(k));
  auto* bp = static_cast<SecureBatchPrng*>(c.get());
  static const std::vector<int> sizes = {16, 32, 160, 1680, 1664, 5000};
  int s = ctx.Choose((int)sizes.size(), "buffer size");
  while ((int)buf.size() < total) {
    std::vector<uint8_t> x(sizes[s]);
    int n = bp->RandBuffer(x.data(), sizes[s]);
    ctx.Check(n == std::min<int>(sizes[s], (int)bp->GetMaxBufferSize()), "number of bytes");
    buf.insert(buf.end(), x.begin(), x.begin() + n);
    ctx.Step();
  }
  buf.resize(total);
  words.resize(total);
  ctx.Check(bytes == words, "bytes and words differ");
  ctx.Check(bytes == buf, "bytes and buffers differ");
  // No block of the stream appears twice.
  std::set<std::string> seen;
  for (int i = 0; i + 16 <= total; i += 16)
    ctx.Check(seen.insert(std::string(bytes.begin() + i, bytes.begin() + i + 16)).second, "the stream repeats");
  auto d = f.MakePrng(KeyNo(k + 1));
  bool same = true;
  for (int i = 0; i < 32; ++i) same &= d->Rand8() == bytes[i];
  ctx.Check(!same, "two keys give one stream");
  // Mixed requests.
  auto m = f.MakePrng(KeyNo(k));
  for (int i = 0; i < 1500;) {
    if (i % 3 == 0) {
      ctx.Eq((int)m->Rand8(), (int)bytes[i], "byte");
      i += 1;
    } else {
      uint64_t w = m->Rand64(), want = 0;
      for (int j = 0; j < 8; ++j) want |= (uint64_t)bytes[i + j] << (8 * j);
      ctx.Eq(w, want, "word");
      i += 8;
    }
  }
  ctx.Step();
  ctx.State(std::to_string(k) + "/" + std::to_string(s));
}
static int init = (mc::Rule("All pairs of 8 fixed and 2 fresh keys; all lengths and all single-byte changes of public keys; all "
                            "single-byte changes, truncations and extensions of ciphertexts; all generator request sizes."),
                   0);
