// One real SecAgg client; the harness plays the server and the other clients.
#ifndef HARNESS_SECAGG_PEER_H_
#define HARNESS_SECAGG_PEER_H_
#include <map>

#include "common/secagg.h"
#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"

namespace mcs {
typedef ClientToServerWrapperMessage C2S;
typedef ServerToClientWrapperMessage S2C;

class Lone {
 public:
  // The client takes position `self` among n.
  Lone(int n, int min, int self, int which, int max = -1, std::atomic<std::string*>* signal = nullptr)
      : n(n), min(min), self(self), specs(Specs(which)), input(Input(specs, 7, 1)) {
    mcq::Quiet();
    client = std::make_unique<SecAggClient>(max < 0 ? n : max, min, specs, std::make_unique<CryptoRandPrng>(), std::make_unique<ToServer>(&out),
                                            std::make_unique<Listener>(&states), std::make_unique<AesCtrPrngFactory>(), signal);
    for (int i = 0; i < n; ++i) {
      enc.push_back(EcdhKeyAgreement::CreateFromRandomKeys().value());
      noise.push_back(EcdhKeyAgreement::CreateFromRandomKeys().value());
    }
    own_enc = enc[self]->PublicKey().AsString();
    own_noise = noise[self]->PublicKey().AsString();
    for (int i = 0; i < n; ++i) {
      shares.emplace_back();
      shares[i].set_noise_sk_share("noise share of " + std::to_string(i) + " for the client");
      shares[i].set_prf_sk_share("self share of " + std::to_string(i) + " for the client");
    }
  }
  // Remembers the keys the client has announced.
  void Learn(const C2S& m) {
    own_enc = m.advertise_keys().pair_of_public_keys().enc_pk();
    own_noise = m.advertise_keys().pair_of_public_keys().noise_pk();
  }
  static AesKey Secret(const EcdhKeyAgreement& a, const std::string& pk) {
    return a.ComputeSharedSecret(EcdhPublicKey(reinterpret_cast<const uint8_t*>(pk.data()))).value();
  }
  AesKey EncKey(int i) { return Secret(*enc[i], own_enc); }
  AesKey NoiseKey(int i) { return Secret(*noise[i], own_noise); }
  S2C ShareKeys() {
    S2C m;
    auto* r = m.mutable_share_keys_request();
    for (int i = 0; i < n; ++i) {
      auto* k = r->add_pairs_of_public_keys();
      k->set_enc_pk(i == self ? own_enc : enc[i]->PublicKey().AsString());
      k->set_noise_pk(i == self ? own_noise : noise[i]->PublicKey().AsString());
    }
    r->set_session_id(std::string(32, 's'));
    return m;
  }
  std::string Encrypted(int i, const std::string& text) { return AesGcmEncryption().Encrypt(EncKey(i), text); }
  S2C MaskedInput() {
    S2C m;
    for (int i = 0; i < n; ++i)
      m.mutable_masked_input_request()->add_encrypted_key_shares(i == self ? "" : Encrypted(i, shares[i].SerializeAsString()));
    return m;
  }
  S2C Unmasking(const std::vector<uint32_t>& dead) {
    S2C m;
    m.mutable_unmasking_request();
    for (auto d : dead) m.mutable_unmasking_request()->add_dead_3_client_ids(d);
    return m;
  }
  static S2C AbortMessage(bool early) {
    S2C m;
    m.mutable_abort()->set_diagnostic_info("x");
    m.mutable_abort()->set_early_success(early);
    return m;
  }
  fcp::Status SetInput() { return client->SetInput(ToMap(input, specs)); }
  int n, min, self;
  std::vector<InputVectorSpecification> specs;
  Plain input;
  std::deque<C2S> out;
  std::vector<int> states;
  std::unique_ptr<SecAggClient> client;
  std::vector<std::unique_ptr<EcdhKeyAgreement>> enc, noise;
  std::string own_enc, own_noise;
  std::vector<PairOfKeyShares> shares;  // what peer i gives to the client
};
}  // namespace mcs
#endif
