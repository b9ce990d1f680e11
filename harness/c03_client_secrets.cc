// C03: what one client tells a server that may send anything.
#include <set>

#include "common/secagg_peer.h"

using namespace mcs;
namespace {
enum Peer { kAlive, kDead1, kDead2, kDead3 };
void OnlyAbort(mc::Ctx& ctx, Lone& l, const char* why) {
  ctx.Step(why);
  ctx.Check(l.client->IsAborted(), std::string("the client goes on after ") + why);
  ctx.Eq((int)l.out.size(), 1, std::string("messages sent after ") + why);
  ctx.Check(l.out[0].has_abort(), std::string("the client answers ") + why);
  ctx.Outcome(std::string("abort: ") + why);
}
// Requests that do not belong here change nothing.
void Unwanted(mc::Ctx& ctx, Lone& l, const std::vector<S2C>& ms) {
  std::string before = l.client->State();
  for (auto& m : ms) {
    auto r = l.client->ReceiveMessage(m);
    ctx.Check(!r.ok(), "an unexpected request was accepted");
    ctx.Check(l.out.empty(), "an unexpected request was answered");
    ctx.Check(l.client->State() == before, "an unexpected request had an effect");
    ctx.Step();
  }
}
void Run(mc::Ctx& ctx, int n, int min, int specs, int max_ids) {
  int self = ctx.Choose(n, "position");
  int max = n + 1;
  Lone l(n, min, self, specs, max);
  int when = ctx.Choose(4, "when the input is set");
  if (when == 0) (void)l.SetInput();
  std::vector<int> state(n, kAlive);
  Unwanted(ctx, l, {l.ShareKeys(), l.MaskedInput(), l.Unmasking({})});
  ctx.Check(l.client->Start().ok(), "start failed");
  ctx.Check(l.out.size() == 1 && l.out[0].has_advertise_keys(), "no keys advertised");
  l.Learn(l.out[0]);
  ctx.Check(l.own_enc != l.own_noise, "one key pair for both purposes");
  l.out.clear();
  if (when == 1) (void)l.SetInput();
  Unwanted(ctx, l, {l.MaskedInput(), l.Unmasking({})});

  // Round 1.
  S2C m = l.ShareKeys();
  auto* sk = m.mutable_share_keys_request();
  bool bad = false;
  for (int i = 0; i < n; ++i) {
    auto* k = sk->mutable_pairs_of_public_keys(i);
    if (i == self) {
      switch (ctx.Choose(4, "own keys", 1)) {
        case 1:  // somebody else's
          k->set_enc_pk(l.enc[i]->PublicKey().AsString());
          bad = true;
          break;
        case 2:
          k->Clear();
          bad = true;
          break;
        case 3:  // twice
          *sk->mutable_pairs_of_public_keys((i + 1) % n) = *k;
          bad = true;
          break;
      }
      continue;
    }
    if (k->enc_pk() == l.own_enc && k->noise_pk() == l.own_noise) continue;
    switch (ctx.Choose(8, "keys of a peer", 1)) {
      case 1: k->Clear(); state[i] = kDead1; break;
      case 2: k->clear_enc_pk(); state[i] = kDead1; break;
      case 3: k->clear_noise_pk(); state[i] = kDead1; break;
      case 4: k->set_enc_pk(std::string(33, '\xff')); bad = true; break;
      case 5: k->set_noise_pk(std::string(33, '\0')); bad = true; break;
      case 6: k->set_enc_pk(k->enc_pk().substr(1)); bad = true; break;
      case 7: k->set_noise_pk(k->noise_pk() + "x"); bad = true; break;
    }
  }
  int total = n;
  switch (ctx.Choose(6, "size of the group", 1)) {
    case 1:
      while (sk->pairs_of_public_keys_size() >= min) sk->mutable_pairs_of_public_keys()->RemoveLast();
      bad = true;
      break;
    case 2:
      while (sk->pairs_of_public_keys_size() <= max) sk->add_pairs_of_public_keys();
      bad = true;
      break;
    case 3:
      sk->clear_pairs_of_public_keys();
      bad = true;
      break;
    case 4:
      // One more, that is gone already.
      sk->add_pairs_of_public_keys();
      total = n + 1;
      state.push_back(kDead1);
      break;
    case 5: sk->set_session_id(ctx.Pick(std::vector<std::string>{"", std::string(31, 'x'), std::string(33, 'x')}, "session id")); bad = true; break;
  }
  int alive = 0;
  for (int i = 0; i < total; ++i) alive += state[i] == kAlive;
  if (alive < min) bad = true;
  auto r = l.client->ReceiveMessage(m);
  ctx.Check(r.ok(), "request refused");
  ctx.Eq(*r, !bad, "going on");
  if (bad) return OnlyAbort(ctx, l, "bad keys");
  ctx.Check(l.out.size() == 1 && l.out[0].has_share_keys_response(), "no shares sent");
  auto resp = l.out[0].share_keys_response();
  l.out.clear();
  ctx.Eq(resp.encrypted_key_shares_size(), total, "shares");
  std::vector<ShamirShare> prf(total), noise(total);
  int have = 0;
  for (int i = 0; i < total; ++i) {
    auto& e = resp.encrypted_key_shares(i);
    ctx.Eq(e.empty(), i == self || state[i] != kAlive, "share for " + std::to_string(i) + " missing");
    if (e.empty()) continue;
    auto d = AesGcmEncryption().Decrypt(l.EncKey(i), e);
    ctx.Check(d.ok(), "share not readable by its receiver");
    for (int j = 0; j < n; ++j)
      if (j != i && j != self) ctx.Check(!AesGcmEncryption().Decrypt(l.EncKey(j), e).ok(), "share readable by another client");
    PairOfKeyShares p;
    ctx.Check(p.ParseFromString(*d), "share not readable");
    prf[i].data = p.prf_sk_share();
    noise[i].data = p.noise_sk_share();
    ++have;
  }
  // Any `min` peers can recover the keys, and they are the right ones.
  std::unique_ptr<AesKey> self_key;
  if (have >= min) {
    ShamirSecretSharing sh;
    self_key = std::make_unique<AesKey>(AesKey::CreateFromShares(prf, min).value());
    auto sk2 = sh.Reconstruct(min, noise, EcdhPrivateKey::kSize).value();
    auto ka = EcdhKeyAgreement::CreateFromPrivateKey(EcdhPrivateKey(reinterpret_cast<const uint8_t*>(sk2.data())));
    ctx.Check(ka.ok(), "the shares are not of a private key");
    for (int i = 0; i < n; ++i)
      if (i != self) ctx.Check((*ka)->ComputeSharedSecret(l.noise[i]->PublicKey()).value() == l.NoiseKey(i), "the shares are not of the announced key");
    ctx.Check(std::string((const char*)self_key->data(), self_key->size()) != sk2, "one secret for both purposes");
  }
  if (when == 2) (void)l.SetInput();
  Unwanted(ctx, l, {l.ShareKeys(), l.Unmasking({})});

  // Round 2.
  m = l.MaskedInput();
  auto* mi = m.mutable_masked_input_request();
  while (mi->encrypted_key_shares_size() < total) mi->add_encrypted_key_shares("");
  bad = false;
  for (int i = 0; i < total; ++i) {
    if (i == self) continue;
    if (state[i] == kDead1) mi->set_encrypted_key_shares(i, "");
    int what = ctx.Choose(state[i] == kAlive ? 6 : 2, "shares from a peer", 1);
    if (what == 0) continue;
    if (state[i] == kDead1) {
      mi->set_encrypted_key_shares(i, "x");
      bad = true;
      continue;
    }
    switch (what) {
      case 1: mi->set_encrypted_key_shares(i, ""); state[i] = kDead2; break;
      case 2: mi->set_encrypted_key_shares(i, "garbage"); bad = true; break;
      case 3: {
        auto s = mi->encrypted_key_shares(i);
        s[s.size() / 2] ^= 0x10;
        mi->set_encrypted_key_shares(i, s);
        bad = true;
        break;
      }
      case 4: mi->set_encrypted_key_shares(i, l.Encrypted((i + 1) % n == self ? (i + 2) % n : (i + 1) % n, "x")); bad = true; break;
      case 5: mi->set_encrypted_key_shares(i, l.Encrypted(i, "\xff\xff\xff")); bad = true; break;
    }
  }
  switch (ctx.Choose(3, "number of shares", 1)) {
    case 1: mi->mutable_encrypted_key_shares()->RemoveLast(); bad = true; break;
    case 2: mi->add_encrypted_key_shares(""); bad = true; break;
  }
  alive = 0;
  for (int i = 0; i < total; ++i) alive += state[i] == kAlive;
  if (alive < min) bad = true;
  r = l.client->ReceiveMessage(m);
  ctx.Check(r.ok(), "request refused");
  ctx.Eq(*r, !bad, "going on");
  if (bad) return OnlyAbort(ctx, l, "bad shares");
  if (when == 3) {
    ctx.Check(l.out.empty(), "something was sent without an input");
    Unwanted(ctx, l, {l.ShareKeys(), l.MaskedInput(), l.Unmasking({})});
    ctx.Check(l.SetInput().ok(), "input refused");
  }
  ctx.Check(l.out.size() == 1 && l.out[0].has_masked_input_response(), "no masked input");
  auto mr = l.out[0].masked_input_response();
  l.out.clear();
  if (self_key) {
    std::vector<AesKey> add = {*self_key}, sub;
    for (int i = 0; i < n; ++i)
      if (i != self && state[i] == kAlive) (i < self ? add : sub).push_back(l.NoiseKey(i));
    auto mask = MapOfMasks(add, sub, l.specs, SessionId{std::string(32, 's')}, AesCtrPrngFactory());
    Plain want = ToPlain(*mask);
    AddTo(&want, l.input, l.specs);
    ctx.Eq((int)mr.vectors().size(), (int)l.specs.size(), "vectors");
    for (auto& s : l.specs) {
      ctx.Check(mr.vectors().count(s.name()) == 1, "no vector " + s.name());
      SecAggVector v(mr.vectors().at(s.name()).encoded_vector(), s.modulus(), s.length());
      ctx.Check(v.GetAsUint64Vector() == want[s.name()], "the masked input of " + s.name() + " is not input + self mask + pairwise masks of the living");
    }
  }
  Unwanted(ctx, l, {l.ShareKeys(), l.MaskedInput()});

  // Round 3: the request names any ids, in the numbering of the protocol (from 1).
  int count = ctx.Choose(max_ids + 1, "number of dropped");
  std::vector<uint32_t> ids;
  std::set<uint32_t> seen;
  bad = false;
  for (int k = 0; k < count; ++k) {
    int c = ctx.Choose(total + 3, "dropped");
    uint32_t id = c == total + 2 ? 0x80000001u : c;
    ids.push_back(id);
    if (id < 1 || id > (uint32_t)total || (int)id - 1 == self || !seen.insert(id).second || state[id - 1] != kAlive) {
      bad = true;
      continue;
    }
  }
  if (!bad)
    for (auto id : ids) state[id - 1] = kDead3;
  alive = 0;
  for (int i = 0; i < total; ++i) alive += state[i] == kAlive;
  if (alive < min) bad = true;
  r = l.client->ReceiveMessage(l.Unmasking(ids));
  ctx.Check(r.ok() && !*r, "the session goes on after round 3");
  if (bad) return OnlyAbort(ctx, l, "bad list of dropped clients");
  ctx.Check(l.client->IsCompletedSuccessfully(), "not completed");
  ctx.Check(l.out.size() == 1 && l.out[0].has_unmasking_response(), "no unmasking response");
  auto u = l.out[0].unmasking_response();
  l.out.clear();
  ctx.Eq(u.noise_or_prf_key_shares_size(), total, "shares revealed");
  for (int i = 0; i < total; ++i) {
    auto& s = u.noise_or_prf_key_shares(i);
    std::string p = " of peer " + std::to_string(i);
    if (state[i] == kAlive) {
      ctx.Check(s.has_prf_sk_share(), "no self mask share" + p);
      if (i != self) ctx.Check(s.prf_sk_share() == l.shares[i].prf_sk_share(), "wrong self mask share" + p);
      else if (self_key) {
        auto all = prf;
        all[self].data = s.prf_sk_share();
        // The own share belongs to the same secret.
        for (int j = 0; j < total && have >= min; ++j)
          if (j != self && !all[j].data.empty()) {
            all[j].data.clear();
            break;
          }
        auto k = AesKey::CreateFromShares(all, min);
        ctx.Check(k.ok() && *k == *self_key, "wrong own share");
      }
    } else if (state[i] == kDead3) {
      ctx.Check(s.has_noise_sk_share() && s.noise_sk_share() == l.shares[i].noise_sk_share(), "wrong pairwise share" + p);
    } else {
      ctx.Check(s.oneof_shares_case() == NoiseOrPrfKeyShare::ONEOF_SHARES_NOT_SET, "a share revealed" + p);
    }
  }
  Unwanted(ctx, l, {l.ShareKeys(), l.MaskedInput(), l.Unmasking({}), l.Unmasking({1, 2})});
  std::string st = std::to_string(self) + std::to_string(when);
  for (int x : state) st += 'a' + x;
  ctx.State(st);
  ctx.Outcome("completed");
}
}  // namespace

MC_SCENARIO(three, {.bound = 1, .bound_thorough = 2}) { Run(ctx, 3, 2, 0, 2); }
MC_SCENARIO(four, {.bound = 2, .bound_thorough = 2}) { Run(ctx, 4, 2, 1, ctx.thorough() ? 3 : 1); }
MC_SCENARIO(four_all_lists, {.bound = 0, .bound_thorough = 1}) { Run(ctx, 4, 2, 2, 3); }
MC_SCENARIO(high_threshold, {.bound = 1, .bound_thorough = 2}) { Run(ctx, 4, 3, 0, ctx.thorough() ? 2 : 1); }
static int init = (mc::Rule("A server that deviates from the protocol in up to two places (keys, shares, numbers, repeated and early requests), "
                            "names any list of dropped clients of up to three ids, for every position of the client and time of the input."),
                   0);
