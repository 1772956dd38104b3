// A library of engine operations written against the public interface, each repeatable on the same or fresh
// objects and deterministic once the simulated random source is seeded. Used by the fault and thread scenarios.
#pragma once
#include "ec.h"
struct OpObj {                 // objects one operation works on; they survive a failed attempt
    EVP_MD_CTX *md = nullptr, *md2 = nullptr; EVP_CIPHER_CTX *ci = nullptr, *ci2 = nullptr;
    EVP_PKEY_CTX *px = nullptr, *px2 = nullptr; EVP_PKEY *k = nullptr, *k2 = nullptr; ASN1_TYPE *ty = nullptr;
    STACK_OF(X509_ATTRIBUTE) *at = nullptr; BIO *bio = nullptr; CMS_ContentInfo *cms = nullptr; PKCS8_PRIV_KEY_INFO *p8 = nullptr; X509_SIG *sig = nullptr;
    unsigned char *der = nullptr; bool reused = false; int setting = 0;
    void release();
    ~OpObj() { release(); }
    OpObj() {}
    OpObj(const OpObj &) = delete;
};
struct OpArgs { uint64_t seed = 1; unsigned v[4] = { 0, 0, 0, 0 }; };
enum { RN_NONE = 0, RN_NEEDS = 1, RN_MASK = 2 };   // randomness: none, the result needs it, only for masking
struct EngOp {
    const char *name;
    int rng;
    bool (*act)(OpObj &, const OpArgs &, Bytes &out);
    int weight;
    bool thread_ok;            // no process-wide effect
};
extern const EngOp eng_ops[];
extern const int n_eng_ops;
// builds (once per process, without faults) what the operation consumes: keys, messages, blobs, certificates
void op_material(int op, const OpArgs &a);
bool op_needs_rng(int op, const OpArgs &a);
int pick_op(uint64_t r, bool rng_only);
// the secrets the operation worked with: keys, nonces, agreed keys and what they were derived from
std::vector<std::pair<std::string, Bytes>> op_secrets(int op, const OpArgs &a, const Bytes &tape, const Bytes &out);
