// C35: sealed messages and signatures. C47's nonces are in c47_nonces.cc.
#include "absl/status/status.h"
#include "common/mc.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "openssl/hpke.h"

using namespace fcp::confidential_compute;
namespace ci = fcp::confidential_compute::crypto_internal;
namespace {
absl::StatusOr<std::string> NoSign(absl::string_view) { return std::string("unsigned"); }
google::protobuf::Struct Cfg(int i) {
  google::protobuf::Struct s;
  if (i) (*s.mutable_fields())["name"].set_string_value("value");
  return s;
}
// A recipient; the key pairs are generated once per process.
struct Recipient {
  MessageDecryptor d;
  std::string cwt;
  explicit Recipient(int cfg) : d(Cfg(cfg)), cwt(*d.GetPublicKey(NoSign, -7)) {}
};
Recipient& R(int i) {
  static Recipient* r[3] = {new Recipient(0), new Recipient(1), new Recipient(0)};
  return *r[i];
}
// Somebody in the middle with a key pair of their own.
struct Middle {
  bssl::ScopedEVP_HPKE_KEY key;
  std::string cwt, pub;
  Middle() {
    EVP_HPKE_KEY_generate(key.get(), EVP_hpke_x25519_hkdf_sha256());
    pub.resize(EVP_HPKE_MAX_PUBLIC_KEY_LENGTH);
    size_t n = 0;
    EVP_HPKE_KEY_public_key(key.get(), (uint8_t*)pub.data(), &n, pub.size());
    pub.resize(n);
    cwt = *Cwt(pub).Encode();
  }
  static OkpCwt Cwt(const std::string& x) {
    OkpCwt c;
    c.public_key = OkpKey{"", ci::kHpkeBaseX25519Sha256Aes128Gcm, ci::kX25519, x};
    return c;
  }
};
Middle& Mid() {
  static Middle* m = new Middle();
  return *m;
}
std::string PublicX(int i) { return OkpCwt::Decode(R(i).cwt)->public_key->x; }
std::string Text(int n) {
  std::string s(n, '\0');
  for (int i = 0; i < n; ++i) s[i] = (char)(i * 37 + 11);
  return s;
}
const std::vector<int> kSizes = {0, 1, 2, 15, 16, 17, 31, 32, 33, 100, 1000, 65537};
const std::vector<std::string>& Aads() {
  static const std::vector<std::string> a = {"", "associated", std::string(1, '\0'), Text(300)};
  return a;
}
struct Sealed {
  std::string ct, ct_aad, key, key_aad, enc;
};
absl::StatusOr<std::string> Open(const MessageDecryptor& d, const Sealed& s) {
  // Exactly sized copies: reading past an end is caught.
  auto heap = [](const std::string& v) {
    std::unique_ptr<char[]> b(new char[v.size()]);
    memcpy(b.get(), v.data(), v.size());
    return b;
  };
  auto a = heap(s.ct), b = heap(s.ct_aad), c = heap(s.key), e = heap(s.key_aad), f = heap(s.enc);
  return d.Decrypt({a.get(), s.ct.size()}, {b.get(), s.ct_aad.size()}, {c.get(), s.key.size()}, {e.get(), s.key_aad.size()},
                   {f.get(), s.enc.size()});
}
void Refused(mc::Ctx& ctx, const MessageDecryptor& d, const Sealed& s, const std::string& what) {
  auto r = Open(d, s);
  ctx.Step();
  ctx.Check(!r.ok(), "decrypted although " + what);
}
Sealed Seal(mc::Ctx& ctx, const std::string& text, const std::string& cwt, const std::string& aad) {
  MessageEncryptor e;
  auto r = e.Encrypt(text, cwt, aad);
  ctx.Step();
  ctx.Check(r.ok(), "not encrypted: " + r.status().ToString());
  return {r->ciphertext, aad, r->encrypted_symmetric_key, aad, r->encapped_key};
}
// The key of a message sealed for the one in the middle, wrapped anew.
Sealed Rewrap(mc::Ctx& ctx, const Sealed& s, int to, const std::string& aad) {
  auto k = ci::UnwrapSymmetricKey(Mid().key.get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), s.key, s.enc, s.key_aad);
  ctx.Check(k.ok(), "key not unwrapped: " + k.status().ToString());
  auto w = ci::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), *k, PublicX(to), aad);
  ctx.Check(w.ok(), "key not wrapped: " + w.status().ToString());
  ctx.Steps(2);
  return {s.ct, s.ct_aad, w->encrypted_symmetric_key, aad, w->encapped_key};
}
}  // namespace

MC_SCENARIO(round_trip, {}) {
  const std::string text = Text(ctx.Pick(kSizes, "size"));
  const std::string aad = ctx.Pick(Aads(), "associated data");
  int to = ctx.Choose(2, "recipient");
  bool rewrap = ctx.Flip("rewrapped");
  Sealed s;
  if (rewrap) {
    s = Rewrap(ctx, Seal(ctx, text, Mid().cwt, aad), to, ctx.Pick(Aads(), "associated data of the key"));
  } else {
    s = Seal(ctx, text, R(to).cwt, aad);
  }
  auto p = Open(R(to).d, s);
  ctx.Step();
  ctx.Check(p.ok(), "not decrypted: " + p.status().ToString());
  ctx.Check(*p == text, "the message changed");
  ctx.Check(text.size() < 16 || s.ct.find(text.substr(0, 16)) == std::string::npos, "the text shows in the ciphertext");
  Refused(ctx, R(1 - to).d, s, "it is the wrong recipient");
  // Other associated data for the message or for its key.
  for (const std::string& a : Aads()) {
    Sealed t = s;
    if (a != s.ct_aad) {
      t.ct_aad = a;
      Refused(ctx, R(to).d, t, "the message's associated data differ");
    }
    t = s;
    if (a != s.key_aad) {
      t.key_aad = a;
      Refused(ctx, R(to).d, t, "the key's associated data differ");
    }
  }
}
// Parts of different messages do not fit together.
MC_SCENARIO(mixed, {}) {
  const std::string aad = ctx.Pick(Aads(), "associated data");
  bool same_text = ctx.Flip("same text");
  int other = ctx.Choose(2, "where the other one comes from");
  Sealed a = Seal(ctx, "message one", R(0).cwt, aad);
  Sealed b = other == 0 ? Seal(ctx, same_text ? "message one" : "message two", R(0).cwt, aad)
                        : Rewrap(ctx, Seal(ctx, same_text ? "message one" : "message two", Mid().cwt, aad), 0, aad);
  ctx.Check(a.ct != b.ct && a.key != b.key && a.enc != b.enc, "two messages share key material");
  int mix = ctx.Choose(8, "parts of the other");
  Sealed m = a;
  if (mix & 1) m.ct = b.ct;
  if (mix & 2) m.key = b.key;
  if (mix & 4) m.enc = b.enc;
  auto p = Open(R(0).d, m);
  ctx.Step();
  if (mix == 0 || mix == 7) {
    ctx.Check(p.ok() && *p == (mix && !same_text ? "message two" : "message one"), "not decrypted");
  } else {
    ctx.Check(!p.ok(), "decrypted from parts of two messages");
  }
}
// Every change of a byte, every truncation, one byte more.
MC_SCENARIO(damage, {}) {
  const std::string text = Text(ctx.Choose(2, "size") * 20);
  const std::string aad = "aad";
  bool rewrapped = ctx.Flip("rewrapped");
  Sealed s = rewrapped ? Rewrap(ctx, Seal(ctx, text, Mid().cwt, aad), 0, "other") : Seal(ctx, text, R(0).cwt, aad);
  int part = ctx.Choose(5, "part");
  auto at = [&](Sealed& x) -> std::string& { return part == 0 ? x.ct : part == 1 ? x.ct_aad : part == 2 ? x.key : part == 3 ? x.key_aad : x.enc; };
  static const char* const names[] = {"the ciphertext", "the message's associated data", "the wrapped key", "the key's associated data", "the encapsulated key"};
  int pos = ctx.Choose((int)at(s).size() + 1, "position");
  const std::string what = std::string(names[part]) + " was ";
  if (pos == (int)at(s).size()) {
    for (char c : {'\0', '\x01', '\xff'}) {
      Sealed t = s;
      at(t) += c;
      Refused(ctx, R(0).d, t, what + "extended");
    }
    Sealed t = s;
    at(t) += at(s);
    Refused(ctx, R(0).d, t, what + "doubled");
    return;
  }
  Sealed t = s;
  at(t).resize(pos);
  Refused(ctx, R(0).d, t, what + "truncated to " + std::to_string(pos));
  t = s;
  at(t).erase(0, pos + 1);
  Refused(ctx, R(0).d, t, what + "cut at the front");
  for (int b = 1; b < 256; ++b) {
    t = s;
    at(t)[pos] ^= (char)b;
    Refused(ctx, R(0).d, t, what + "changed at " + std::to_string(pos));
  }
}
// What the wrapped key holds: only a proper key opens the message.
MC_SCENARIO(wrapped_key, {}) {
  const std::string aad = "aad";
  Sealed s = Seal(ctx, "message", Mid().cwt, aad);
  auto k = ci::UnwrapSymmetricKey(Mid().key.get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), s.key, s.enc, s.key_aad);
  ctx.Check(k.ok(), "not unwrapped");
  auto key = SymmetricKey::Decode(*k);
  ctx.Check(key.ok() && key->algorithm == ci::kAeadAes128GcmSivFixedNonce && key->k.size() == 16, "the wrapped key is not an AES-128-GCM-SIV key");
  bool good = false;
  std::string put;
  switch (ctx.Choose(7, "what is wrapped")) {
    case 0:
      put = *k;
      good = true;
      break;
    case 1:
      put = k->substr(0, ctx.Choose((int)k->size(), "truncated to"));
      break;
    case 2: {
      auto alg = ctx.Pick(std::vector<std::optional<int64_t>>{std::nullopt, 0, 1, -65537, -65539, 65538}, "algorithm");
      put = *SymmetricKey{alg, key->k}.Encode();
      break;
    }
    case 3: {
      int n = ctx.Choose(65, "key size");
      std::string kk = key->k;
      kk.resize(n, 'x');
      good = n == 16;
      put = *SymmetricKey{key->algorithm, kk}.Encode();
      break;
    }
    case 4:
      put = *OkpKey{"", -65538, 4, key->k}.Encode();
      break;
    case 5: {
      SymmetricKey o = *key;
      o.k[ctx.Choose(16, "byte")] ^= (char)(1 << ctx.Choose(8, "bit"));
      put = *o.Encode();
      break;
    }
    default:
      put = key->k;
  }
  auto w = ci::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), put, PublicX(0), aad);
  ctx.Check(w.ok(), "not wrapped");
  s.key = w->encrypted_symmetric_key;
  s.enc = w->encapped_key;
  auto p = Open(R(0).d, s);
  ctx.Step();
  ctx.Check(p.ok() == good, good ? "not decrypted" : "decrypted with something else as key");
  if (good) ctx.Eq(*p, "message", "message");
}
// Keys that cannot be used to encrypt.
MC_SCENARIO(public_keys, {}) {
  OkpCwt c = Middle::Cwt(PublicX(0));
  c.algorithm = ctx.Pick(std::vector<std::optional<int64_t>>{std::nullopt, -7}, "token algorithm");
  c.signature = ctx.Flip("signed") ? "sig" : "";
  bool usable = true;
  std::string enc;
  switch (ctx.Choose(7, "what")) {
    case 0:
      break;
    case 1:
      c.public_key->algorithm = ctx.Pick(std::vector<std::optional<int64_t>>{std::nullopt, 0, -7, -65536, -65538, 65537}, "algorithm");
      usable = false;
      break;
    case 2:
      c.public_key->curve = ctx.Pick(std::vector<std::optional<int64_t>>{std::nullopt, 0, 1, 3, 5, 6, -4}, "curve");
      usable = false;
      break;
    case 3:
      c.public_key.reset();
      usable = false;
      break;
    case 4: {
      int n = ctx.Choose(70, "key size");
      usable = n == 32;
      c.public_key->x.resize(n, 'x');
      break;
    }
    case 5: {
      // Points of small order.
      std::string x(32, '\0');
      if (ctx.Flip("one")) x[0] = 1;
      c.public_key->x = x;
      usable = false;
      break;
    }
    default:
      c.public_key->key_id = "some id";
  }
  enc = *c.Encode();
  MessageEncryptor e;
  auto r = e.Encrypt("message", enc, "aad");
  ctx.Step();
  ctx.Check(r.ok() == usable, usable ? "usable key refused" : "unusable key accepted");
  if (usable) {
    auto p = Open(R(0).d, {r->ciphertext, "aad", r->encrypted_symmetric_key, "aad", r->encapped_key});
    ctx.Check(p.ok() && *p == "message", "not decrypted");
  }
}
MC_SCENARIO(damaged_tokens, {}) {
  const std::string& t = R(0).cwt;
  int pos = ctx.Choose((int)t.size(), "position");
  const std::string x = PublicX(0);
  MessageEncryptor e;
  ctx.Check(!e.Encrypt("message", t.substr(0, pos), "aad").ok(), "truncated token accepted");
  for (int b = 1; b < 256; ++b) {
    std::string d = t;
    d[pos] ^= (char)b;
    auto r = e.Encrypt("message", d, "aad");
    ctx.Step();
    if (!r.ok()) continue;
    auto c = OkpCwt::Decode(d);
    ctx.Check(c.ok() && c->public_key && c->public_key->algorithm == -65537 && c->public_key->curve == 4, "unusable token accepted");
    auto p = Open(R(0).d, {r->ciphertext, "aad", r->encrypted_symmetric_key, "aad", r->encapped_key});
    bool same = c->public_key->x == x;
    // The topmost bit of the key does not take part in the key agreement, but
    // it does in what the wrapped key is bound to.
    ctx.Check(p.ok() == same, same ? "not decrypted" : "sealed for another key, decrypted all the same");
  }
}
// The public key token: what is handed to the signer, what comes out.
MC_SCENARIO(public_key_token, {}) {
  int cfg = ctx.Choose(2, "config");
  MessageDecryptor d(Cfg(cfg));
  int64_t alg = ctx.Pick(std::vector<int64_t>{-7, 0, -65537, 1ll << 40}, "algorithm");
  int how = ctx.Choose(3, "signer");
  auto signer = EcdsaP256R1Signer::Create();
  std::string x;
  for (int round = 0; round < 2; ++round) {
    int calls = 0;
    std::string given;
    auto r = d.GetPublicKey(
        [&](absl::string_view s) -> absl::StatusOr<std::string> {
          ++calls;
          given = std::string(s);
          if (how == 1) return absl::UnavailableError("no signature");
          if (how == 2) return std::string();
          return signer.Sign(s);
        },
        alg);
    ctx.Step();
    ctx.Check(calls == 1, "the signer was asked " + std::to_string(calls) + " times");
    if (how == 1) {
      ctx.Check(!r.ok() && r.status().code() == absl::StatusCode::kUnavailable, "the signer's failure was lost");
      continue;
    }
    ctx.Check(r.ok(), "no public key");
    auto c = OkpCwt::Decode(*r);
    ctx.Check(c.ok() && c->public_key.has_value(), "the public key is not a token");
    ctx.Check(c->algorithm == alg, "signature algorithm");
    ctx.Eq(c->config_properties.SerializeAsString(), Cfg(cfg).SerializeAsString(), "config");
    ctx.Check(c->public_key->algorithm == -65537 && c->public_key->curve == 4 && c->public_key->x.size() == 32, "public key parameters");
    ctx.Check(round == 0 || x == c->public_key->x, "the key changed");
    x = c->public_key->x;
    auto st = OkpCwt::GetSigStructureForVerifying(*r, "");
    ctx.Check(st.ok() && *st == given, "what was signed is not what is verified");
    if (how == 0) {
      auto v = EcdsaP256R1SignatureVerifier::Create(signer.GetPublicKey());
      ctx.Check(v.ok() && v->Verify(*st, c->signature).ok(), "the token's signature does not verify");
    } else {
      ctx.Eq(c->signature, "", "signature");
    }
    Sealed s = Seal(ctx, "text", *r, "a");
    auto p = Open(d, s);
    ctx.Check(p.ok() && *p == "text", "not decrypted");
  }
}
// Signatures.
MC_SCENARIO(signatures, {}) {
  static EcdsaP256R1Signer* s[2] = {new EcdsaP256R1Signer(EcdsaP256R1Signer::Create()), new EcdsaP256R1Signer(EcdsaP256R1Signer::Create())};
  const std::string data = Text(ctx.Pick(std::vector<int>{0, 1, 40, 64, 1000}, "size"));
  auto v0 = EcdsaP256R1SignatureVerifier::Create(s[0]->GetPublicKey());
  auto v1 = EcdsaP256R1SignatureVerifier::Create(s[1]->GetPublicKey());
  ctx.Check(v0.ok() && v1.ok(), "own public key refused");
  std::string sig = s[0]->Sign(data);
  ctx.Check(sig.size() == 64, "signature size");
  ctx.Check(v0->Verify(data, sig).ok(), "own signature refused");
  ctx.Check(!v1->Verify(data, sig).ok(), "signature of another key accepted");
  ctx.Check(!v0->Verify(data, s[1]->Sign(data)).ok(), "signature by another key accepted");
  ctx.Check(!v0->Verify(data + "x", sig).ok() && (data.empty() || !v0->Verify(data.substr(1), sig).ok()), "signature of other data accepted");
  ctx.Steps(5);
  int pos = ctx.Choose(66, "position");
  auto refused = [&](const std::string& d, const std::string& g, const char* what) {
    std::unique_ptr<char[]> b(new char[g.size()]);
    memcpy(b.get(), g.data(), g.size());
    ctx.Step();
    ctx.Check(!v0->Verify(d, {b.get(), g.size()}).ok(), std::string("accepted although ") + what);
  };
  if (pos == 64) {
    refused(data, sig + '\0', "the signature was extended");
    refused(data, std::string(1, '\0') + sig, "the signature was extended in front");
    refused(data, sig + sig, "the signature was doubled");
    refused(data, std::string(64, '\0'), "the signature is zero");
    refused(data, sig.substr(32) + sig.substr(0, 32), "the halves were exchanged");
  } else if (pos == 65) {
    for (size_t i = 0; i < data.size(); ++i) {
      for (int bit : {0, 7}) {
        std::string d = data;
        d[i] ^= (char)(1 << bit);
        refused(d, sig, "the data changed");
      }
    }
  } else {
    refused(data, sig.substr(0, pos), "the signature was truncated");
    for (int b = 1; b < 256; ++b) {
      std::string g = sig;
      g[pos] ^= (char)b;
      refused(data, g, "the signature changed");
    }
  }
}
MC_SCENARIO(signature_keys, {}) {
  static EcdsaP256R1Signer* s = new EcdsaP256R1Signer(EcdsaP256R1Signer::Create());
  const std::string k = s->GetPublicKey();
  ctx.Check(k.size() == 65 && k[0] == 4, "public key format");
  int pos = ctx.Choose(66, "position");
  auto bad = [&](const std::string& d) {
    std::unique_ptr<char[]> b(new char[d.size()]);
    memcpy(b.get(), d.data(), d.size());
    auto v = EcdsaP256R1SignatureVerifier::Create({b.get(), d.size()});
    ctx.Step();
    if (v.ok()) ctx.Check(!v->Verify("data", s->Sign("data")).ok(), "verified with another key");
    return !v.ok();
  };
  if (pos == 65) {
    ctx.Check(bad(k + '\0') && bad("") && bad(std::string(65, '\0')), "malformed key accepted");
    return;
  }
  ctx.Check(bad(k.substr(0, pos)), "truncated key accepted");
  for (int b = 1; b < 256; ++b) {
    std::string d = k;
    d[pos] ^= (char)b;
    ctx.Check(bad(d), "a point off the curve accepted");
  }
}
static int init = (mc::Rule("a sealed message opens for its recipient with the same associated data and for nothing else; a signature verifies for its key and data and for nothing else"),
                   mc::Assumption("BoringSSL's primitives are trusted; the CBOR library is replaced by a stand-in with the same interface"), 0);
