#ifndef VERIF_SHIM_OPENSSL_EC_H_
#define VERIF_SHIM_OPENSSL_EC_H_
#include_next <openssl/ec.h>
#include <openssl/nid.h>
// Accessors of newer BoringSSL releases.
static inline const EC_GROUP* EC_group_p256(void) {
  static const EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1);
  return g;
}
static inline const EC_GROUP* EC_group_p384(void) {
  static const EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_secp384r1);
  return g;
}
#endif
