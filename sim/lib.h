// Helpers shared by the scenarios: thin wrappers over the public EVP interface, keys, reference EC.
#pragma once
#include "core.h"
#include "ref.h"
#include <openssl/evp.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/objects.h>
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <openssl/cms.h>

// the engine's own control numbers, part of its public behaviour
#ifndef EVP_MD_CTRL_SET_KEY
# define EVP_MD_CTRL_KEY_LEN (EVP_MD_CTRL_ALG_CTRL+3)
# define EVP_MD_CTRL_SET_KEY (EVP_MD_CTRL_ALG_CTRL+4)
#endif
#define SIM_PKEY_CTRL_GOST_PARAMSET (EVP_PKEY_ALG_CTRL+1)
#define SIM_PKEY_CTRL_SET_VKO (EVP_PKEY_ALG_CTRL+11)
extern ENGINE *gost_e;               // set by lib_engine()
extern "C" void ENGINE_load_gost(void);
ENGINE *lib_engine();                // engine handle (loaded)

// buffer with a chosen misalignment and ASan-checked ends
struct Buf {
    uint8_t *base; uint8_t *p; size_t n;
    Buf(size_t n_, unsigned mis) : n(n_) {
        base = (uint8_t *)malloc(n_ + mis + (n_ + mis == 0)); p = base + mis;
    }
    Buf(const Bytes &b, unsigned mis) : Buf(b.size(), mis) { if (n) memcpy(p, b.data(), n); }
    ~Buf() { free(base); }
    Buf(const Buf &) = delete;
    Bytes get() const { return Bytes(p, p + n); }
};
inline Bytes sub(const Bytes &b, size_t off, size_t n) { return Bytes(b.begin() + off, b.begin() + off + n); }
inline Bytes cat(const Bytes &a, const Bytes &b) { Bytes c = a; c.insert(c.end(), b.begin(), b.end()); return c; }

// chunk sizes: class-based so that plans stay small; see chunk_len
enum { CH_N = 12 };
size_t chunk_len(uint64_t cls, uint64_t r);
// length of a whole message chosen around the interesting boundaries
size_t msg_len(Rng &r, bool thorough);

// message bytes: kind selects random, all-ones, zeros, carry-prone words, ...
Bytes mkdata(uint64_t seed, uint64_t tag, size_t n, unsigned kind);
enum { DK_N = 6 };
const EVP_MD *eng_md(int nid);
const EVP_CIPHER *eng_cipher(int nid);
struct CipherAlg {
    const char *sn; int block; int ivlen; int kind; bool kuz; int mode; // see lib.cc
};
enum CKind { CK_GOST89, CK_KUZMAGMA };
enum CMode { CM_ECB, CM_CBC, CM_CFB, CM_OFB, CM_CTR, CM_ACPKM, CM_CFB89, CM_CNT89, CM_CBC89 };
extern const CipherAlg cipher_algs[];
extern const int n_cipher_algs;
extern const char *sbox_names[];     // by ref:: number, from S_TEST
// whole-stream reference. mesh: for the gost89 modes 0/1; for ACPKM the section size. padded enc/dec handled by caller
Bytes ref_cipher(const CipherAlg &a, int sbox, long mesh, const Bytes &key, const Bytes &iv, bool enc, const Bytes &in);
