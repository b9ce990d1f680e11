// C47: the nonces of a session's blobs.
#include <set>

#include "absl/status/status.h"
#include "common/mc.h"
#include "common/rand.h"
#include "fcp/confidentialcompute/crypto.h"

using namespace fcp::confidential_compute;
using fcp::confidentialcompute::BlobMetadata;
namespace {
BlobMetadata Sealed(const std::string& nonce) {
  BlobMetadata m;
  m.mutable_hpke_plus_aead_data()->mutable_rewrapped_symmetric_key_associated_data()->set_nonce(nonce);
  return m;
}
}  // namespace
// All orders in which blobs with right, old, future, foreign and damaged
// nonces and plain blobs are presented.
MC_SCENARIO(histories, {}) {
  NonceChecker checker, other;
  std::string session = checker.GetSessionNonce();
  ctx.Check(session.size() == 16, "session nonce has " + std::to_string(session.size()) + " bytes");
  ctx.Check(session != other.GetSessionNonce(), "two sessions have the same nonce");
  NonceGenerator gen(session), foreign(other.GetSessionNonce());
  std::vector<std::string> n, f;
  int depth = ctx.thorough() ? 5 : 4;
  std::set<std::string> seen;
  for (int i = 0; i < depth + 2; ++i) {
    auto a = gen.GetNextBlobNonce(), b = foreign.GetNextBlobNonce();
    ctx.Check(a.ok() && b.ok(), "no nonce");
    ctx.Check(seen.insert(*a).second && seen.insert(*b).second, "a nonce repeats");
    ctx.Check(a->compare(0, 16, session) == 0, "nonce does not belong to the session");
    n.push_back(*a);
    f.push_back(*b);
  }
  size_t next = 0;
  for (int i = 0; i < depth; ++i) {
    int what = ctx.Choose(12, "blob");
    BlobMetadata m;
    bool ok = false, moves = false;
    std::string cur = n[next];
    switch (what) {
      case 0: m = Sealed(cur); ok = moves = true; break;
      case 1: if (next == 0) ctx.Prune(); m = Sealed(n[next - 1]); break;
      case 2: m = Sealed(n[next + 1]); break;
      case 3: if (next < 2) ctx.Prune(); m = Sealed(n[0]); break;
      case 4: m = Sealed(f[next]); break;
      case 5: m = Sealed(cur.substr(0, cur.size() - 1)); break;
      case 6: m = Sealed(cur + '\0'); break;
      case 7: cur[ctx.Choose((int)cur.size(), "byte")] ^= (char)(1 << ctx.Choose(8, "bit")); m = Sealed(cur); break;
      case 8: m = Sealed(""); break;
      case 9: m.mutable_hpke_plus_aead_data(); break;  // not rewrapped
      case 10: break;                                  // says nothing at all
      case 11: m.mutable_unencrypted(); ok = true; break;
    }
    if (what == 7) {
      for (auto& x : n) if (x == cur) ctx.Prune();  // the change gave another nonce of the session
    }
    absl::Status s = checker.CheckBlobNonce(m);
    ctx.Step();
    ctx.Check(s.ok() == ok, ok ? "blob refused: " + s.ToString() : "blob " + std::to_string(what) + " accepted");
    ctx.Check(ok || s.code() == absl::StatusCode::kPermissionDenied, "wrong error code");
    if (moves) ++next;
    ctx.Eq(mc::Hex(checker.GetSessionNonce()), mc::Hex(session), "session nonce");
    if (what == 7 && i < depth - 1) {
      // The next one is still wanted; no need to go on from every bit.
      ctx.Check(checker.CheckBlobNonce(Sealed(n[next])).ok(), "the right nonce refused after a damaged one");
      return;
    }
  }
}
// Long runs: the counter's bytes carry over.
MC_SCENARIO(long_run, {}) {
  int size = ctx.Choose(4, "session nonce size");
  const std::string given[] = {std::string(16, 'n'), "", std::string(1, '\xff'), std::string(40, '\0')};
  NonceChecker checker;
  NonceGenerator gen(checker.GetSessionNonce()), any(given[size]);
  std::string prev;
  int64_t count = ctx.thorough() ? 17000000 : 200000;
  std::set<std::string> seen;
  BlobMetadata m = Sealed("");
  auto* nonce = m.mutable_hpke_plus_aead_data()->mutable_rewrapped_symmetric_key_associated_data()->mutable_nonce();
  for (int64_t i = 0; i < count; ++i) {
    auto a = any.GetNextBlobNonce();
    ctx.Check(a.ok() && a->size() == given[size].size() + 4 && a->compare(0, given[size].size(), given[size]) == 0, "nonce layout");
    if (size == 0) {
      auto g = gen.GetNextBlobNonce();
      ctx.Check(g.ok(), "no nonce");
      *nonce = *g;
      if (i < 200000) ctx.Check(seen.insert(*g).second, "a nonce repeats");
      ctx.Check(checker.CheckBlobNonce(m).ok(), "nonce " + std::to_string(i) + " refused");
      ctx.Check(!checker.CheckBlobNonce(m).ok(), "nonce " + std::to_string(i) + " accepted twice");
    } else if (i >= 70000) {
      break;
    }
  }
  ctx.Steps(count);
}
// The session nonce is all random bytes.
MC_SCENARIO(session_nonce, {}) {
  int byte = ctx.Choose(16, "byte");
  std::string stream;
  for (int i = 0; i < 64; ++i) stream += (char)(i * 5 + 1);
  if (ctx.Flip("zeros")) stream = std::string(64, '\0');
  stream[byte] = (char)ctx.Choose(256, "value");
  size_t used = 0;
  mc::g_rand_source = [&](uint8_t* p, size_t n) {
    if (used + n > stream.size()) return false;
    memcpy(p, stream.data() + used, n);
    used += n;
    return true;
  };
  NonceChecker c;
  mc::g_rand_source = nullptr;
  ctx.Step();
  ctx.Eq(mc::Hex(c.GetSessionNonce()), mc::Hex(stream.substr(0, 16)), "session nonce");
}
static int init = (mc::Rule("exactly the next nonce of the session is accepted, once; plain blobs pass and change nothing"),
                   mc::Assumption("a run is bounded: the end of the 32-bit counter is not reached"), 0);
