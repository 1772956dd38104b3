// Independent executable reference models of the GOST algorithms.
// Written from the standards (GOST 28147-89, R 34.11-94, R 34.11-2012, R 34.12-2015,
// R 34.13-2015, RFC 4357, RFC 5830, RFC 7836, RFC 8645, RFC 9058, R 1323565.1.*), one-shot, no state.
#pragma once
#include "core.h"
#include <memory>
#include <array>

namespace ref {
enum { S_TEST94 = 0, S_CP94 = 1, S_TEST = 2, S_A = 3, S_B = 4, S_C = 5, S_D = 6, S_Z = 7 };

struct View { const uint8_t *p; size_t n; View(const Bytes &b) : p(b.data()), n(b.size()) {} View(const uint8_t *q, size_t m) : p(q), n(m) {} size_t size() const { return n; } bool empty() const { return !n; } const uint8_t &operator[](size_t i) const { return p[i]; } };
struct Block {                       // a block cipher with a key
    int n;
    virtual void enc(const uint8_t *in, uint8_t *out) const = 0;
    virtual void dec(const uint8_t *in, uint8_t *out) const = 0;
    virtual std::unique_ptr<Block> rekey(const uint8_t *key) const = 0;
    virtual ~Block() {}
};
struct Gost89 : Block {
    uint32_t k[8]; int sb;
    Gost89(int sbox, const uint8_t *key) { n = 8; sb = sbox; setkey(key); }
    void setkey(const uint8_t *key);
    uint32_t f(uint32_t x) const;
    void rounds(const uint8_t *in, uint8_t *out, const int *sched, int nr, bool swap) const;
    void enc(const uint8_t *in, uint8_t *out) const override;
    void dec(const uint8_t *in, uint8_t *out) const override;
    void mac16(uint8_t *s) const;    // 16 rounds, in place
    std::unique_ptr<Block> rekey(const uint8_t *key) const override { return std::unique_ptr<Block>(new Gost89(sb, key)); }
};
struct Magma : Block {
    Gost89 g;
    static Bytes rev(const uint8_t *key);
    explicit Magma(const uint8_t *key) : g(S_Z, rev(key).data()) { n = 8; }
    void enc(const uint8_t *in, uint8_t *out) const override;
    void dec(const uint8_t *in, uint8_t *out) const override;
    std::unique_ptr<Block> rekey(const uint8_t *key) const override { return std::unique_ptr<Block>(new Magma(key)); }
};
struct Kuz : Block {
    uint8_t rk[10][16];
    explicit Kuz(const uint8_t *key);
    void enc(const uint8_t *in, uint8_t *out) const override;
    void dec(const uint8_t *in, uint8_t *out) const override;
    std::unique_ptr<Block> rekey(const uint8_t *key) const override { return std::unique_ptr<Block>(new Kuz(key)); }
};
inline std::unique_ptr<Block> mkblock(bool kuz, const uint8_t *key) {
    if (kuz) return std::unique_ptr<Block>(new Kuz(key));
    return std::unique_ptr<Block>(new Magma(key));
}
// --- GOST 28147-89 modes with CryptoPro key meshing (RFC 4357 2.3.2)
Bytes cfb89(int sb, bool mesh, const Bytes &key, const Bytes &iv, bool enc, const Bytes &in);
Bytes cnt89(int sb, bool mesh, const Bytes &key, const Bytes &iv, const Bytes &in);
Bytes mac89(int sb, bool mesh, const Bytes &key, const View &in);       // 8 bytes (32-bit halves); tag = prefix
// --- generic modes; full blocks only for ecb/cbc
Bytes ecb(const Block &b, bool enc, const Bytes &in);
Bytes cbc(const Block &b, const Bytes &iv, bool enc, const Bytes &in);
Bytes cfb(const Block &b, const Bytes &iv, bool enc, const Bytes &in);
Bytes ofb(const Block &b, const Bytes &iv, const Bytes &in);
// iv: n/2 bytes, counter half zero; section 0 = no re-keying; skip = bytes of keystream discarded
Bytes ctr(const Block &b, const Bytes &iv, const Bytes &in, size_t section = 0);
Bytes cmac(const Block &b, const View &in);
Bytes kuz_acpkm_omac(const Bytes &key, const Bytes &in, size_t section = 4096, size_t tstar = 4096);
// MGM: nonce n bytes; returns ciphertext (or plaintext), tag gets n bytes
Bytes mgm(const Block &b, const Bytes &nonce, const View &aad, bool enc, const Bytes &in, Bytes &tag);
// --- hashes
Bytes streebog(int bits, const View &in);
Bytes gost94(const View &in, int sb = S_CP94);
Bytes hmac(int bits, const Bytes &key, const Bytes &in);
Bytes kdftree(const Bytes &key, const std::string &label, const Bytes &seed, size_t outlen, int r = 1);
Bytes tlstree(bool kuz, const Bytes &key, const uint8_t seq[8]);
// --- key wrapping
Bytes cp_diversify(int sb, const Bytes &kek, const Bytes &ukm);
Bytes cp_wrap(int sb, const Bytes &kek, const Bytes &ukm, const Bytes &cek);  // 44 bytes
Bytes kexp15(bool kuz, const Bytes &cek, const Bytes &kenc, const Bytes &kmac, const Bytes &iv);
// self test against published vectors; returns empty string or what failed
std::string selftest();
}
