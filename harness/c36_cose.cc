// C36: COSE keys and web tokens.
#include "absl/status/status.h"
#include "common/cbor.h"
#include "common/mc.h"
#include "fcp/confidentialcompute/cose.h"

using namespace fcp::confidential_compute;
namespace cb = mc::cbor;
using mc::cbor::A;
using mc::cbor::B;
using mc::cbor::I;
using mc::cbor::M;
using mc::cbor::T;
namespace {
using Entries = std::vector<std::pair<std::string, std::string>>;
using OptInt = std::optional<int64_t>;

std::string S(const OptInt& v) { return v ? std::to_string(*v) : "-"; }
std::string S(const std::optional<absl::Time>& t) {
  return t ? std::to_string(absl::ToUnixNanos(*t)) : "-";
}
std::string Show(const OkpKey& k) {
  return "kid=" + mc::Hex(k.key_id) + " alg=" + S(k.algorithm) + " crv=" + S(k.curve) + " x=" + mc::Hex(k.x);
}
std::string Show(const SymmetricKey& k) { return "alg=" + S(k.algorithm) + " k=" + mc::Hex(k.k); }
std::string Show(const OkpCwt& c) {
  return "alg=" + S(c.algorithm) + " iat=" + S(c.issued_at) + " exp=" + S(c.expiration_time) + " key=" +
         (c.public_key ? Show(*c.public_key) : "-") + " cfg=" + mc::Hex(c.config_properties.SerializeAsString()) +
         " sig=" + mc::Hex(c.signature);
}
template <typename F>
auto Exact(const std::string& data, F f) {
  // An exactly sized heap copy: reading past the end is caught.
  std::unique_ptr<char[]> buf(new char[data.size()]);
  memcpy(buf.get(), data.data(), data.size());
  return f(absl::string_view(buf.get(), data.size()));
}
template <typename T>
absl::StatusOr<T> Decode(const std::string& data) {
  return Exact(data, [](absl::string_view v) { return T::Decode(v); });
}
absl::StatusOr<std::string> ToVerify(const std::string& data, const std::string& aad) {
  return Exact(data, [&](absl::string_view v) { return OkpCwt::GetSigStructureForVerifying(v, aad); });
}
template <typename T>
void Judge(mc::Ctx& ctx, const std::string& data, const T* want, const char* what) {
  auto r = Decode<T>(data);
  ctx.Step();
  ctx.Check(r.ok() == (want != nullptr), std::string(what) + (want ? " rejected: " : " accepted: ") + mc::Hex(data));
  if (!r.ok()) {
    ctx.Check(r.status().code() == absl::StatusCode::kInvalidArgument, std::string(what) + ": wrong error code");
  } else {
    ctx.Eq(Show(*r), Show(*want), what);
  }
}

const std::vector<int64_t> kInts = {0,      1,         -1,         23,        24,        -24,       -25,      255,       256,       -256,
                                    -257,   65535,     65536,      -65537,    0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll,
                                    INT64_MAX, INT64_MIN, -0x80000000ll, -0x100000000ll, -0x100000001ll};
std::vector<OptInt> OptInts(bool all) {
  std::vector<OptInt> r = {std::nullopt};
  for (int64_t v : kInts) {
    if (all || v == 0 || v == -65537 || v == INT64_MIN || v == 24) r.push_back(v);
  }
  return r;
}
const std::vector<std::string> kStrs = {"", "k", std::string("\0\xff", 2), std::string(23, 'a'), std::string(24, 'b'), std::string(255, 'c'),
                                        std::string(256, '\x80')};
google::protobuf::Struct Cfg(int i) {
  google::protobuf::Struct s;
  if (i == 1) (*s.mutable_fields())["a"].set_number_value(1.5);
  if (i == 2) (*(*s.mutable_fields())[""].mutable_struct_value()->mutable_fields())["x"].set_string_value(std::string(300, 'v'));
  if (i == 3) (*s.mutable_fields())["n"].set_null_value(google::protobuf::NULL_VALUE);
  return s;
}
OkpKey Key(int i) {
  if (i == 0) return {};
  if (i == 1) return {"key-id", -65537, 4, std::string(32, 'x')};
  return {"", 24, std::nullopt, std::string("\0", 1)};
}
}  // namespace

// Encoding and decoding keys.
MC_SCENARIO(key_round_trip, {}) {
  if (ctx.Flip("symmetric")) {
    SymmetricKey k{ctx.Pick(OptInts(true), "alg"), ctx.Flip("long") ? std::string(65536, 'd') : ctx.Pick(kStrs, "k")};
    auto e = k.Encode();
    ctx.Check(e.ok(), "key not encoded");
    std::map<std::string, std::string> m, want = {{I(1), I(4)}};
    if (k.algorithm) want[I(3)] = I(*k.algorithm);
    if (!k.k.empty()) want[I(-1)] = B(k.k);
    ctx.Check(cb::ReadMap(*e, &m) && m == want, "symmetric key encoded as " + mc::Hex(*e));
    Judge(ctx, *e, &k, "symmetric key");
    Judge<OkpKey>(ctx, *e, nullptr, "symmetric key as public key");
  } else {
    OkpKey k;
    int wide = ctx.Choose(2, "which field takes all values");
    k.key_id = ctx.Pick(kStrs, "kid");
    k.algorithm = ctx.Pick(OptInts(wide == 0), "alg");
    k.curve = ctx.Pick(OptInts(wide == 1), "crv");
    k.x = ctx.Pick(kStrs, "x");
    auto e = k.Encode();
    ctx.Check(e.ok(), "key not encoded");
    std::map<std::string, std::string> m, want = {{I(1), I(1)}};
    if (!k.key_id.empty()) want[I(2)] = B(k.key_id);
    if (k.algorithm) want[I(3)] = I(*k.algorithm);
    if (k.curve) want[I(-1)] = I(*k.curve);
    if (!k.x.empty()) want[I(-2)] = B(k.x);
    ctx.Check(cb::ReadMap(*e, &m) && m == want, "public key encoded as " + mc::Hex(e->substr(0, 200)));
    Judge(ctx, *e, &k, "public key");
    Judge<SymmetricKey>(ctx, *e, nullptr, "public key as symmetric key");
  }
}
// Decoding maps written by others: any order, additional entries, values of
// the wrong kind.
MC_SCENARIO(key_entries, {}) {
  bool sym = ctx.Flip("symmetric");
  bool bad = false;
  Entries e;
  OkpKey o;
  SymmetricKey s;
  const auto& kinds = cb::Kinds();
  auto is_int = [](const std::string& v) { return (uint8_t)v[0] >> 5 < 2; };
  // kty
  int kty = ctx.Choose(6 + 3, "kty");
  const std::vector<std::string> ktys = {I(1), I(4), I(0), I(2), I(-1), B("\x01"), T("OKP"), A({I(1)}), ""};
  if (!ktys[kty].empty()) e.push_back({I(1), ktys[kty]});
  if (kty != (sym ? 1 : 0)) bad = true;
  auto entry = [&](int64_t key, bool wants_int, const char* name) -> std::string {
    int c = ctx.Choose(2 + (int)kinds.size(), name);
    if (c == 0) return "";
    if (c == 1) {
      e.push_back({I(key), wants_int ? I(-70000) : B(std::string("\0val", 4))});
      return "v";
    }
    const std::string& k = kinds[c - 2];
    e.push_back({I(key), k});
    bool fits = wants_int ? is_int(k) : (uint8_t)k[0] >> 5 == 2;
    if (!fits) {
      bad = true;
      return "";
    }
    return k;
  };
  auto to_int = [&](const std::string& v) -> OptInt {
    if (v.empty()) return std::nullopt;
    if (v == "v") return -70000;
    return v == I(7) ? 7 : -3;
  };
  auto to_str = [&](const std::string& v) -> std::string {
    std::string out;
    if (v.empty()) return "";
    if (v == "v") return std::string("\0val", 4);
    cb::ReadBytes(v, &out);
    return out;
  };
  if (sym) {
    s.algorithm = to_int(entry(3, true, "alg"));
    s.k = to_str(entry(-1, false, "k"));
    // Parameters that mean nothing for this kind of key.
    if (ctx.Flip("kid")) e.push_back({I(2), ctx.Pick(kinds, "kid value")});
  } else {
    o.key_id = to_str(entry(2, false, "kid"));
    if (!bad) o.algorithm = to_int(entry(3, true, "alg"));
    if (!bad) o.curve = to_int(entry(-1, true, "crv"));
    if (!bad) o.x = to_str(entry(-2, false, "x"));
  }
  // Unknown entries.
  int extra = ctx.Choose(5, "additional entry");
  if (extra == 1) e.insert(e.begin(), {T("alg"), I(9)});
  if (extra == 2) e.push_back({I(4), A({I(1)})});
  if (extra == 3) e.insert(e.begin(), {B("\x03"), B("zz")});
  if (extra == 4) e.push_back({A({I(1)}), M({})});
  if (ctx.Flip("reversed")) std::reverse(e.begin(), e.end());
  std::string data = M(e);
  int tail = ctx.Choose(3, "after it");
  if (tail == 1) data += std::string(1, '\0');
  if (tail == 2) data += M(e);
  if (tail) bad = true;
  if (sym) {
    Judge(ctx, data, bad ? nullptr : &s, "symmetric key");
  } else {
    Judge(ctx, data, bad ? nullptr : &o, "public key");
  }
}
MC_SCENARIO(not_a_key, {}) {
  const std::string& d = ctx.Pick(cb::Kinds(), "item");
  bool empty_input = ctx.Flip("nothing at all");
  Judge<OkpKey>(ctx, empty_input ? "" : d == M({{I(1), I(1)}}) ? M({}) : d, nullptr, "public key");
  Judge<SymmetricKey>(ctx, empty_input ? "" : d, nullptr, "symmetric key");
  Judge<OkpCwt>(ctx, empty_input ? "" : d, nullptr, "web token");
  ctx.Check(!ToVerify(empty_input ? "" : d, "").ok(), "signature structure of something else");
}
// Tokens: round trip, layout and signature structure.
MC_SCENARIO(token_round_trip, {}) {
  OkpCwt c;
  c.algorithm = ctx.Pick(OptInts(false), "alg");
  const std::vector<std::optional<absl::Time>> times = {std::nullopt,
                                                        absl::FromUnixSeconds(0),
                                                        absl::FromUnixSeconds(-1),
                                                        absl::FromUnixSeconds(1700000000),
                                                        absl::FromUnixSeconds(1ll << 33),
                                                        absl::FromUnixMillis(1500),
                                                        absl::FromUnixMillis(-1500)};
  c.issued_at = ctx.Pick(times, "issued at");
  c.expiration_time = ctx.Pick(times, "expires");
  int key = ctx.Choose(4, "key");
  if (key) c.public_key = Key(key - 1);
  c.config_properties = Cfg(ctx.Choose(4, "config"));
  c.signature = ctx.Pick(std::vector<std::string>{"", "sig", std::string(64, '\xff'), std::string(300, 's')}, "signature");
  const std::string aad = ctx.Pick(std::vector<std::string>{"", "aad", std::string(30, '\0')}, "aad");
  auto e = c.Encode();
  ctx.Check(e.ok(), "token not encoded");
  // Whole seconds are what a token can carry.
  auto secs = [](const std::optional<absl::Time>& t) -> OptInt {
    if (!t) return std::nullopt;
    int64_t ms = absl::ToUnixMillis(*t);
    return ms >= 0 ? ms / 1000 : -((-ms + 999) / 1000);
  };
  OptInt iat = secs(c.issued_at), exp = secs(c.expiration_time);
  // Layout.
  std::vector<std::string> parts;
  std::string prot, payload, sig;
  std::map<std::string, std::string> m, want;
  ctx.Check(cb::Split(*e, 4, &parts) && parts.size() == 4, "token is not an array of four");
  ctx.Check(cb::ReadBytes(parts[0], &prot) && cb::ReadBytes(parts[2], &payload) && cb::ReadBytes(parts[3], &sig), "token parts");
  ctx.Eq(mc::Hex(parts[1]), mc::Hex(M({})), "unprotected header");
  ctx.Eq(mc::Hex(sig), mc::Hex(c.signature), "signature");
  if (c.algorithm) want[I(1)] = I(*c.algorithm);
  ctx.Check(cb::ReadMap(prot, &m) && m == want, "protected header is " + mc::Hex(prot));
  want.clear();
  if (exp) want[I(4)] = I(*exp);
  if (iat) want[I(6)] = I(*iat);
  if (c.public_key) want[I(-65537)] = B(*c.public_key->Encode());
  if (!c.config_properties.fields().empty()) want[I(-65538)] = B(c.config_properties.SerializeAsString());
  ctx.Check(cb::ReadMap(payload, &m) && m == want, "payload is " + mc::Hex(payload));
  // Decoding.
  OkpCwt back = c;
  if (iat) back.issued_at = absl::FromUnixSeconds(*iat);
  if (exp) back.expiration_time = absl::FromUnixSeconds(*exp);
  Judge(ctx, *e, &back, "token");
  // Signing and verifying agree, whatever the signature is.
  std::string st = A({T("Signature1"), B(prot), B(aad), B(payload)});
  auto sign = c.BuildSigStructureForSigning(aad);
  auto verify = ToVerify(*e, aad);
  ctx.Step();
  ctx.Check(sign.ok() && verify.ok(), "no signature structure");
  ctx.Eq(mc::Hex(*sign), mc::Hex(st), "structure to sign");
  ctx.Eq(mc::Hex(*verify), mc::Hex(st), "structure to verify");
}
// Tokens written by others.
MC_SCENARIO(token_parts, {}) {
  // 0 = as expected, 1.. = another kind in its place
  const auto& kinds = cb::Kinds();
  auto is_bytes = [](const std::string& v) { return (uint8_t)v[0] >> 5 == 2; };
  int64_t alg = -7;
  const std::string prot_sig = M({{I(1), I(-9)}});
  std::string prot = B(M({{I(1), I(alg)}}));
  std::string unprot = M({}), payload = B(M({{I(6), I(1000)}})), last = B("signature");
  OkpCwt want;
  want.algorithm = alg;
  want.issued_at = absl::FromUnixSeconds(1000);
  want.signature = "signature";
  bool bad = false, structure_bad = false, structure_known = true;
  std::string st_prot2;
  bool many = ctx.Flip("COSE_Sign");
  int where = ctx.Choose(7, "what is different");
  if (where == 1) {
    prot = ctx.Pick(kinds, "protected header");
    bad = !is_bytes(prot) || prot == B("b") || prot == B("");
    structure_bad = !is_bytes(prot);
    // With COSE_Sign the algorithm of the signature counts; the outer header
    // only has to be a byte string.
    if (many && is_bytes(prot)) bad = false;
  } else if (where == 2) {
    unprot = ctx.Pick(kinds, "unprotected header");
    bad = (uint8_t)unprot[0] >> 5 != 5;
    if (bad) structure_known = false;
  } else if (where == 3) {
    payload = ctx.Pick(kinds, "payload");
    bad = true;  // none of the byte strings holds a map
    structure_bad = !is_bytes(payload);
  } else if (where == 4) {
    int n = ctx.Choose(4, "number of parts");
    bad = structure_bad = true;
    std::vector<std::string> v = {prot, unprot, payload, last, B("more")};
    v.resize(n == 3 ? 5 : n + 1);
    if (n == 3 || n < 3) {
      std::string data = A(v);
      Judge<OkpCwt>(ctx, data, nullptr, "token");
      ctx.Check(!ToVerify(data, "").ok(), "signature structure of an array of " + std::to_string(v.size()));
      return;
    }
  }
  if (many) {
    std::string sp = B(prot_sig), su = M({}), ss = B("first");
    want.algorithm = -9;
    want.signature = "first";
    st_prot2 = sp;
    int d = ctx.Choose(6, "first signature");
    std::string sig = A({sp, su, ss});
    bool shape = true;  // the first signature is usable
    bool verifiable = true;
    if (d == 1) {
      sp = ctx.Pick(kinds, "its protected header");
      st_prot2 = sp;
      shape = false;  // none of the byte strings holds a map
      verifiable = is_bytes(sp);
    }
    if (d == 2) su = ctx.Pick(kinds, "its unprotected header");
    if (d == 3) {
      ss = ctx.Pick(kinds, "its signature");
      shape = is_bytes(ss);
      if (!shape) structure_known = false;
      if (shape) cb::ReadBytes(ss, &want.signature);
    }
    sig = A({sp, su, ss});
    if (d == 4) {
      int n = ctx.Choose(4, "its parts");
      std::vector<std::string> v = {sp, su, ss, B("more")};
      v.resize(n == 3 ? 4 : n);
      sig = A(v);
      shape = verifiable = false;
    }
    if (d == 5) {
      sig = ctx.Pick(kinds, "instead");
      shape = verifiable = false;
    }
    std::string second = A({B(M({{I(1), I(55)}})), M({}), B("second")});
    int n = ctx.Choose(4, "signatures");
    if (n == 0) {
      last = A({});
      shape = verifiable = false;
    } else if (n == 1) {
      last = A({sig});
    } else if (n == 2) {
      last = A({sig, second});
    } else {
      last = A({sig, I(3)});  // only the first one is looked at
    }
    if (!shape) bad = true;
    if (!verifiable) structure_bad = true;
  } else if (where == 5) {
    last = ctx.Pick(kinds, "signature");
    bad = !is_bytes(last);
    if (bad) structure_known = false;
    if (last == A({}) || last == A({I(1)})) {
      structure_known = true;
      structure_bad = true;
    }
    if (!bad) cb::ReadBytes(last, &want.signature);
  }
  std::string data = A({prot, unprot, payload, last});
  if (where == 6) {
    data += '\0';
    bad = structure_bad = true;
    structure_known = true;
  }
  Judge(ctx, data, bad ? nullptr : &want, "token");
  const std::string aad = "aad";
  auto v = ToVerify(data, aad);
  if (!structure_known) return;
  ctx.Check(v.ok() == !structure_bad, std::string("signature structure ") + (v.ok() ? "made from " : "refused for ") + mc::Hex(data));
  if (v.ok()) {
    ctx.Eq(mc::Hex(*v), mc::Hex(many ? A({T("Signature"), prot, st_prot2, B(aad), payload}) : A({T("Signature1"), prot, B(aad), payload})),
           "structure to verify");
  }
}
// Claims of every kind, in any order, among unknown ones.
MC_SCENARIO(token_claims, {}) {
  const auto& kinds = cb::Kinds();
  bool bad = false;
  OkpCwt want;
  Entries hdr, claims;
  auto is_int = [](const std::string& v) { return (uint8_t)v[0] >> 5 < 2; };
  auto number = [&](const char* name, Entries* to, int64_t id) -> OptInt {
    int c = ctx.Choose(2 + (int)kinds.size(), name);
    if (c == 0) return std::nullopt;
    if (c == 1) {
      to->push_back({I(id), I(123456789)});
      return 123456789;
    }
    to->push_back({I(id), kinds[c - 2]});
    if (!is_int(kinds[c - 2])) bad = true;
    return kinds[c - 2] == I(7) ? 7 : -3;
  };
  want.algorithm = number("alg", &hdr, 1);
  OptInt exp = bad ? std::nullopt : number("exp", &claims, 4);
  OptInt iat = bad ? std::nullopt : number("iat", &claims, 6);
  if (exp) want.expiration_time = absl::FromUnixSeconds(*exp);
  if (iat) want.issued_at = absl::FromUnixSeconds(*iat);
  if (!bad) {
    int k = ctx.Choose(3 + (int)kinds.size(), "public key");
    bool oak = k && ctx.Flip("under the other name");
    const std::string id = oak ? I(-4670552) : I(-65537);
    if (k == 1) {
      want.public_key = Key(1);
      claims.push_back({id, B(*Key(1).Encode())});
    } else if (k == 2) {
      claims.push_back({id, B(*SymmetricKey{1, "k"}.Encode())});
      bad = true;
    } else if (k > 2) {
      claims.push_back({id, kinds[k - 3]});
      bad = true;
    }
  }
  if (!bad) {
    int k = ctx.Choose(3 + (int)kinds.size(), "config");
    if (k == 1) {
      want.config_properties = Cfg(1);
      claims.push_back({I(-65538), B(Cfg(1).SerializeAsString())});
    } else if (k == 2) {
      claims.push_back({I(-65538), B("\x0a\x05zz")});
      bad = true;
    } else if (k > 2) {
      claims.push_back({I(-65538), kinds[k - 3]});
      if (kinds[k - 3] != B("")) bad = true;
    }
  }
  int extra = ctx.Choose(4, "additional entry");
  if (extra == 1) claims.insert(claims.begin(), {I(1), T("issuer")}), hdr.insert(hdr.begin(), {I(4), B("kid")});
  if (extra == 2) claims.push_back({T("exp"), T("x")}), hdr.push_back({T("alg"), T("ES256")});
  if (extra == 3) claims.insert(claims.begin(), {B("z"), A({})}), hdr.push_back({B("alg"), I(2)});
  if (ctx.Flip("reversed")) std::reverse(claims.begin(), claims.end());
  want.signature = "s";
  std::string h = M(hdr), p = M(claims);
  int tail = ctx.Choose(5, "inner damage");
  if (tail == 1) h += '\0';
  if (tail == 2) p += '\0';
  if (tail == 3) h = A({});
  if (tail == 4) p = A({});
  if (tail) bad = true;
  Judge(ctx, A({B(h), M({}), B(p), B("s")}), bad ? nullptr : &want, "token");
}
// Every truncation and every change of one byte.
MC_SCENARIO(damage, {}) {
  OkpCwt c;
  c.algorithm = -7;
  c.issued_at = absl::FromUnixSeconds(1700000000);
  c.expiration_time = absl::FromUnixSeconds(1700000600);
  c.public_key = Key(1);
  c.config_properties = Cfg(1);
  c.signature = std::string(64, 's');
  int what = ctx.Choose(4, "what");
  std::string prot, payload;
  std::vector<std::string> parts;
  cb::Split(*c.Encode(), 4, &parts);
  std::string data = what == 0   ? *Key(1).Encode()
                     : what == 1 ? *SymmetricKey{-65538, "0123456789abcdef"}.Encode()
                     : what == 2 ? *c.Encode()
                                 : A({parts[0], M({}), parts[2], A({A({parts[0], M({}), B("one")}), A({parts[0], M({}), B("two")})})});
  int pos = ctx.Choose((int)data.size(), "position");
  int how = ctx.Choose(2, "how");
  auto run = [&](const std::string& d) {
    ctx.Step();
    if (what == 0) {
      auto r = Decode<OkpKey>(d);
      if (r.ok()) Judge(ctx, *r->Encode(), &*r, "decoded key");
    } else if (what == 1) {
      auto r = Decode<SymmetricKey>(d);
      if (r.ok()) Judge(ctx, *r->Encode(), &*r, "decoded key");
    } else {
      auto r = Decode<OkpCwt>(d);
      // A configuration with nothing but unknown fields is not encoded.
      if (r.ok() && r->config_properties.fields().empty()) r->config_properties.Clear();
      if (r.ok()) Judge(ctx, *r->Encode(), &*r, "decoded token");
      return ToVerify(d, "aad");
    }
    return absl::StatusOr<std::string>(absl::UnknownError(""));
  };
  if (how == 0) {
    std::string d = data.substr(0, pos);
    run(d);
    bool ok = what == 0 ? Decode<OkpKey>(d).ok() : what == 1 ? Decode<SymmetricKey>(d).ok() : Decode<OkpCwt>(d).ok();
    ctx.Check(!ok, "truncated data accepted");
    ctx.Check(what < 2 || !ToVerify(d, "").ok(), "signature structure of truncated data");
    return;
  }
  size_t protected_end = 1 + parts[0].size();
  size_t payload_begin = protected_end + 1, payload_end = payload_begin + parts[2].size();
  for (int b = 1; b < 256; ++b) {
    std::string d = data;
    d[pos] = (char)(d[pos] ^ b);
    auto v = run(d);
    if (what < 2 || !v.ok()) continue;
    auto orig = ToVerify(data, "aad");
    size_t p = pos;
    // Signed bytes cannot change without the structure changing.
    bool signed_part = (p >= 1 && p < protected_end) || (p >= payload_begin && p < payload_end);
    if (signed_part) ctx.Check(*v != *orig, "the structure to verify does not cover byte " + std::to_string(pos));
    // The signature itself is not part of it.
    if (what == 2 && p >= payload_end + 2) ctx.Eq(mc::Hex(*v), mc::Hex(*orig), "structure with another signature");
  }
}
static int init = (mc::Rule("keys and tokens decode to the fields encoded, are laid out as the standards say and have the signature structure the standards say; "
                            "anything else is an error"),
                   mc::Assumption("the CBOR library is replaced by a stand-in with the same interface (the library itself is not installed)"), 0);
