// C05: one client sends a bad message.
#include "common/secagg.h"

using namespace mcs;
namespace {
typedef ClientToServerWrapperMessage C2S;
const C2S::MessageContentCase kKind[4] = {C2S::kAdvertiseKeys, C2S::kShareKeysResponse, C2S::kMaskedInputResponse,
                                          C2S::kUnmaskingResponse};
std::string Bytes(int n, char c) { return std::string(n, c); }
// How bad a message is.
enum Kind {
  kShape,    // recognisably wrong: the others complete with the exact sum
  kContent,  // looks right: the session may fail, but in an orderly way
};
struct Bad {
  Kind kind;
  std::string name;
  C2S m;
};
std::string Resize(std::string s, int n) {
  s.resize(n, 'q');
  return s;
}
// All bad variants of a good message of that round.
std::vector<Bad> Variants(int round, const C2S& good, bool thorough) {
  std::vector<Bad> v;
  auto add = [&](Kind k, std::string name) -> C2S& {
    v.push_back({k, name, good});
    return v.back().m;
  };
  add(kShape, "nothing").Clear();
  add(kShape, "abort with a long text").mutable_abort()->set_diagnostic_info(Bytes(100000, 'x'));
  // Messages of the other rounds, empty and with content.
  for (int r = 0; r < 4; ++r) {
    if (r == round) continue;
    C2S e, f;
    switch (r) {
      case 0:
        e.mutable_advertise_keys();
        f.mutable_advertise_keys()->mutable_pair_of_public_keys()->set_enc_pk(Bytes(33, 2));
        f.mutable_advertise_keys()->mutable_pair_of_public_keys()->set_noise_pk(Bytes(33, 2));
        break;
      case 1:
        e.mutable_share_keys_response();
        for (int i = 0; i < 9; ++i) f.mutable_share_keys_response()->add_encrypted_key_shares("x");
        break;
      case 2:
        e.mutable_masked_input_response();
        (*f.mutable_masked_input_response()->mutable_vectors())["a"].set_encoded_vector("x");
        break;
      case 3:
        e.mutable_unmasking_response();
        for (int i = 0; i < 9; ++i) f.mutable_unmasking_response()->add_noise_or_prf_key_shares()->set_prf_sk_share("x");
        break;
    }
    add(kShape, "empty message of round " + std::to_string(r)) = e;
    add(kShape, "message of round " + std::to_string(r)) = f;
  }
  if (round == 0) {
    add(kShape, "no keys").mutable_advertise_keys()->clear_pair_of_public_keys();
    for (int a : {0, 1, 32, 33, 34, 63, 64, 65, 200})
      for (int b : {0, 1, 32, 33, 34, 63, 64, 65, 200})
        for (char c : {'\0', '\2', '\xff'}) {
          if (!thorough && c == 0 && a != b) continue;
          bool shape = a != b || (a != 33 && a < 64);
          auto* k = add(shape ? kShape : kContent, "keys of sizes " + std::to_string(a) + " and " + std::to_string(b))
                        .mutable_advertise_keys()
                        ->mutable_pair_of_public_keys();
          k->set_enc_pk(Bytes(a, c));
          k->set_noise_pk(Bytes(b, c));
        }
    auto* k = add(kContent, "swapped keys").mutable_advertise_keys()->mutable_pair_of_public_keys();
    k->mutable_enc_pk()->swap(*k->mutable_noise_pk());
    for (bool enc : {false, true}) {
      // One good key, and one that is no point of the curve.
      auto* k = add(kContent, "one bad key").mutable_advertise_keys()->mutable_pair_of_public_keys();
      (enc ? k->mutable_enc_pk() : k->mutable_noise_pk())->assign(Bytes(33, '\xff'));
    }
  } else if (round == 1) {
    int n = good.share_keys_response().encrypted_key_shares_size();
    add(kShape, "no shares").mutable_share_keys_response()->clear_encrypted_key_shares();
    add(kShape, "a share too few").mutable_share_keys_response()->mutable_encrypted_key_shares()->RemoveLast();
    add(kShape, "a share too many").mutable_share_keys_response()->add_encrypted_key_shares("x");
    add(kShape, "an empty share too many").mutable_share_keys_response()->add_encrypted_key_shares("");
    for (int i = 0; i < n; ++i) {
      auto& s = good.share_keys_response().encrypted_key_shares(i);
      std::string at = " at " + std::to_string(i);
      if (s.empty()) {
        add(kShape, "unexpected share" + at).mutable_share_keys_response()->set_encrypted_key_shares(i, "x");
        continue;
      }
      add(kShape, "missing share" + at).mutable_share_keys_response()->set_encrypted_key_shares(i, "");
      for (int size : {1, 12, 28, (int)s.size() - 1, (int)s.size() + 1, 5000})
        add(kContent, "share of size " + std::to_string(size) + at).mutable_share_keys_response()->set_encrypted_key_shares(i, Resize(s, size));
      std::string t = s;
      t[t.size() / 2] ^= 1;
      add(kContent, "altered share" + at).mutable_share_keys_response()->set_encrypted_key_shares(i, t);
    }
  } else if (round == 2) {
    add(kShape, "no vectors").mutable_masked_input_response()->clear_vectors();
    std::vector<std::string> names;
    for (auto& [k, x] : good.masked_input_response().vectors()) names.push_back(k);
    for (auto& k : names) {
      std::string of = " of " + k;
      auto& x = good.masked_input_response().vectors().at(k).encoded_vector();
      add(kShape, "no vector" + of).mutable_masked_input_response()->mutable_vectors()->erase(k);
      auto& ren = *add(kShape, "renamed vector" + of).mutable_masked_input_response()->mutable_vectors();
      ren[k + "x"] = ren[k];
      ren.erase(k);
      for (int size : {0, 1, (int)x.size() - 1, (int)x.size() + 1, (int)x.size() + 8, 2 * (int)x.size(), 10000}) {
        if (size == (int)x.size() || size < 0) continue;
        (*add(kShape, "vector of size " + std::to_string(size) + of).mutable_masked_input_response()->mutable_vectors())[k].set_encoded_vector(
            Resize(x, size));
      }
      // Elements that are no residues.
      (*add(kContent, "elements beyond the modulus" + of).mutable_masked_input_response()->mutable_vectors())[k].set_encoded_vector(
          Bytes(x.size(), '\xff'));
      for (size_t i = 0; i < x.size() && i < 12; ++i) {
        std::string t = x;
        t[i] = (char)0xff;
        (*add(kContent, "an element beyond the modulus" + of).mutable_masked_input_response()->mutable_vectors())[k].set_encoded_vector(t);
      }
      (*add(kContent, "zeros" + of).mutable_masked_input_response()->mutable_vectors())[k].set_encoded_vector(Bytes(x.size(), 0));
    }
    (*add(kShape, "one vector more").mutable_masked_input_response()->mutable_vectors())["more"].set_encoded_vector("x");
  } else {
    int n = good.unmasking_response().noise_or_prf_key_shares_size();
    for (int k = 0; k < n; ++k) {
      auto* s = add(kShape, "only " + std::to_string(k) + " shares").mutable_unmasking_response()->mutable_noise_or_prf_key_shares();
      while (s->size() > k) s->RemoveLast();
    }
    auto* more = add(kShape, "a share too many").mutable_unmasking_response();
    more->add_noise_or_prf_key_shares()->set_prf_sk_share(Bytes(36, 1));
    add(kShape, "an empty share too many").mutable_unmasking_response()->add_noise_or_prf_key_shares();
    for (int i = 0; i < n; ++i) {
      auto& s = good.unmasking_response().noise_or_prf_key_shares(i);
      std::string at = " at " + std::to_string(i);
      auto set = [&](Kind k, std::string name) { return add(k, name + at).mutable_unmasking_response()->mutable_noise_or_prf_key_shares(i); };
      if (s.oneof_shares_case() != NoiseOrPrfKeyShare::ONEOF_SHARES_NOT_SET) set(kShape, "missing share")->Clear();
      if (s.oneof_shares_case() != NoiseOrPrfKeyShare::kPrfSkShare) set(kShape, "share of a self mask")->set_prf_sk_share(Bytes(36, 1));
      if (s.oneof_shares_case() != NoiseOrPrfKeyShare::kNoiseSkShare) set(kShape, "share of a pairwise mask")->set_noise_sk_share(Bytes(36, 1));
      for (int size : {0, 1, 3, 4, 8, 16, 19, 20, 21, 32, 35, 36, 37, 40, 44, 4000})
        for (char c : {'q', '\xff'}) {
          if (s.has_prf_sk_share()) {
            std::string t = c == 'q' && (int)s.prf_sk_share().size() >= size ? Resize(s.prf_sk_share(), size) : Bytes(size, c);
            set(kContent, "self mask share of size " + std::to_string(size))->set_prf_sk_share(t);
          }
          if (s.has_noise_sk_share()) {
            std::string t = c == 'q' && (int)s.noise_sk_share().size() >= size ? Resize(s.noise_sk_share(), size) : Bytes(size, c);
            set(kContent, "pairwise mask share of size " + std::to_string(size))->set_noise_sk_share(t);
          }
        }
    }
    // All shares of the wrong size alike.
    for (int size : {0, 1, 4, 20, 35, 37, 40, 72}) {
      auto* m = add(kContent, "all shares of size " + std::to_string(size)).mutable_unmasking_response();
      for (auto& s : *m->mutable_noise_or_prf_key_shares()) {
        if (s.has_prf_sk_share()) s.set_prf_sk_share(Resize(s.prf_sk_share(), size));
        if (s.has_noise_sk_share()) s.set_noise_sk_share(Resize(s.noise_sk_share(), size));
      }
    }
  }
  return v;
}
// Clients: the last never answers, the one before goes after sharing keys, and
// one of the others sends the bad message.
void Run(mc::Ctx& ctx, Options o, bool two) {
  int round = ctx.Choose(4, "round of the bad message");
  int offender = ctx.Choose(o.n - 2, "offender");
  bool first = ctx.Flip("before the others");
  Session s(o);
  std::vector<bool> in(o.n), gone(o.n);
  Kind worst = kShape;
  bool offended = false;
  for (int i = 0; i < o.n - 1; ++i) {
    s.SetInput(i);
    (void)s.clients[i]->Start();
  }
  for (int r = 0; r < 4; ++r) {
    std::vector<int> order;
    for (int i = 0; i < o.n - 1; ++i)
      if (i != offender) order.push_back(i);
    order.insert(first ? order.begin() : order.end(), offender);
    for (int i : order) {
      s.Pump(i);
      if (i == o.n - 2 && r >= 2) continue;  // gone
      if (!s.Has(i, kKind[r])) {
        // A client gave up because of what another one sent.
        if (worst == kShape) ctx.Check(gone[i], "a well-behaved client gave up");
        if (!s.out[i].empty()) (void)s.Deliver(i, s.out[i].front());
        gone[i] = true;
        continue;
      }
      if (gone[i]) continue;
      C2S m = s.out[i].front();
      s.out[i].pop_front();
      if (i == offender && (r == round || (two && offended && r == round + 1))) {
        auto all = Variants(r, m, ctx.thorough());
        auto& bad = all[ctx.Choose((int)all.size(), "bad message")];
        ctx.Note(bad.name);
        offended = true;
        if (bad.kind == kContent) worst = kContent;
        auto st = s.Deliver(i, bad.m);
        ctx.Step(bad.name);
        if (worst == kShape) ctx.Check(st.ok(), "the session ended at " + bad.name);
        if (!st.ok()) {
          ctx.Outcome("session over");
          return;
        }
        ctx.State(std::to_string(r) + bad.name);
      } else {
        auto st = s.Deliver(i, m);
        ctx.Step();
        ctx.Check(worst != kShape || st.ok(), "a good message was refused");
        if (!st.ok()) return;
      }
      auto dead = s.server->AbortedClientIds();
      if (r == 2 && !dead.contains(i)) in[i] = true;
      gone[i] = dead.contains(i);
      ctx.Check(i == offender || !gone[i] || worst != kShape, "a well-behaved client was dropped");
    }
    s.RunTasks();
    if (s.server->IsAborted()) break;
    auto ready = s.server->ReadyForNextRound();
    if (!ready.ok() || !*ready) {
      ctx.Check(worst != kShape, "the server waits for more");
      (void)s.server->Abort();
      break;
    }
    auto st = s.server->ProceedToNextRound();
    ctx.Check(worst != kShape || st.ok(), "the server could not proceed");
    if (!st.ok()) break;
  }
  for (int k = 0; k < 3 && !s.server->IsAborted() && !s.server->IsCompletedSuccessfully(); ++k) {
    s.RunTasks();
    (void)s.server->ProceedToNextRound();
  }
  ctx.Check(s.server->IsAborted() || s.server->IsCompletedSuccessfully(), "the session does not end");
  if (worst == kShape) {
    ctx.Check(s.server->IsCompletedSuccessfully(), "the session was aborted");
    auto res = s.server->Result();
    ctx.Check(res.ok() && ToPlain(**res) == s.Sum(in), "the sum is not that of the accepted inputs");
  } else if (s.server->IsCompletedSuccessfully()) {
    auto res = s.server->Result();
    ctx.Check(res.ok() && *res != nullptr, "no result");
    auto p = ToPlain(**res);
    for (auto& spec : s.specs) {
      ctx.Eq((int)p[spec.name()].size(), spec.length(), "length of " + spec.name());
      for (auto x : p[spec.name()]) ctx.Check(x < spec.modulus(), "a result beyond the modulus");
    }
  }
  ctx.Outcome(std::string(s.server->IsAborted() ? "aborted" : "completed") + (worst == kShape ? " after bad shape" : " after bad content") +
              " in round " + std::to_string(round));
}
}  // namespace

MC_SCENARIO(five_clients) {
  Options o;
  o.n = 5, o.min = 2, o.specs = 1;
  Run(ctx, o, false);
}
MC_SCENARIO(five_clients_background) {
  Options o;
  o.n = 5, o.min = 2, o.specs = ctx.Pick(std::vector<int>{2, 5}, "vectors"), o.async = true;
  Run(ctx, o, false);
}
MC_SCENARIO(other_vectors) {
  Options o;
  o.n = 5, o.min = 2, o.specs = ctx.Pick(std::vector<int>{0, 4, 5}, "vectors");
  Run(ctx, o, false);
}
MC_SCENARIO(offends_twice, {.thorough_only = true}) {
  Options o;
  o.n = 5, o.min = 2, o.specs = 0;
  Run(ctx, o, true);
}
static int init = (mc::Rule("Every bad variant of one client's message in every round (wrong type, parts missing, doubled, of wrong size or kind, "
                            "keys and shares of many sizes, non-residues), with one silent client and one that drops out."),
                   0);
