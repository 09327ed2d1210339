// The repository is written against the libsecp256k1 of its submodule, which
// is empty in this sandbox; the installed libsecp256k1 0.2 changed two
// signatures.  These overloads adapt calls, and decide nothing themselves.
#ifndef VERIF_SHIM_SECP256K1_SCHNORRSIG_H
#define VERIF_SHIM_SECP256K1_SCHNORRSIG_H
#include_next <secp256k1_schnorrsig.h>
#ifdef __cplusplus
inline int secp256k1_schnorrsig_sign(const secp256k1_context* ctx,
                                     unsigned char* sig64,
                                     const unsigned char* msg32,
                                     const secp256k1_keypair* keypair,
                                     secp256k1_nonce_function_hardened noncefp,
                                     void* ndata) {
    (void)noncefp;
    return secp256k1_schnorrsig_sign32(ctx,
                                       sig64,
                                       msg32,
                                       keypair,
                                       static_cast<unsigned char*>(ndata));
}
inline int secp256k1_schnorrsig_verify(const secp256k1_context* ctx,
                                       const unsigned char* sig64,
                                       const unsigned char* msg32,
                                       const secp256k1_xonly_pubkey* pubkey) {
    return ::secp256k1_schnorrsig_verify(ctx, sig64, msg32, 32, pubkey);
}
#endif
#endif
