// The repository is written against a libsecp256k1 whose schnorrsig calls have
// no message length and a (noncefp, ndata) pair. Same functions, installed API.
#pragma once
#include_next <secp256k1_schnorrsig.h>
static inline int secp256k1_schnorrsig_sign(const secp256k1_context* ctx,
                                            unsigned char* sig64,
                                            const unsigned char* msg32,
                                            const secp256k1_keypair* kp,
                                            secp256k1_nonce_function_hardened,
                                            void* aux) {
    return secp256k1_schnorrsig_sign32(
        ctx,
        sig64,
        msg32,
        kp,
        static_cast<const unsigned char*>(aux));
}
static inline int
secp256k1_schnorrsig_verify(const secp256k1_context* ctx,
                            const unsigned char* sig64,
                            const unsigned char* msg32,
                            const secp256k1_xonly_pubkey* pk) {
    return secp256k1_schnorrsig_verify(ctx, sig64, msg32, 32, pk);
}
