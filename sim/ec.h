// Independent reference for the public-key algorithms (GOST R 34.10, VKO, KEG): libcrypto's generic curve
// arithmetic on curves built from published parameters; none of the engine's own point arithmetic.
#pragma once
#include "lib.h"
struct Bn {
    BIGNUM *b;
    Bn() : b(BN_new()) {}
    Bn(unsigned long w) : b(BN_new()) { BN_set_word(b, w); }
    Bn(const Bn &o) : b(BN_dup(o.b)) {}
    Bn &operator=(const Bn &o) { BN_copy(b, o.b); return *this; }
    ~Bn() { BN_clear_free(b); }
    static Bn le(const Bytes &x) { Bn r; BN_lebin2bn(x.data(), x.size(), r.b); return r; }
    static Bn be(const Bytes &x) { Bn r; BN_bin2bn(x.data(), x.size(), r.b); return r; }
    static Bn of(const BIGNUM *x) { Bn r; BN_copy(r.b, x); return r; }
    Bytes tole(int n) const { Bytes o(n); return BN_bn2lebinpad(b, o.data(), n) == n ? o : Bytes(); }
    Bytes tobe(int n) const { Bytes o(n); return BN_bn2binpad(b, o.data(), n) == n ? o : Bytes(); }
    bool zero() const { return BN_is_zero(b); }
    bool operator==(const Bn &o) const { return !BN_cmp(b, o.b); }
    bool operator!=(const Bn &o) const { return BN_cmp(b, o.b); }
    bool operator<(const Bn &o) const { return BN_cmp(b, o.b) < 0; }
};
Bn operator+(const Bn &a, const Bn &b);
Bn operator-(const Bn &a, const Bn &b);
Bn operator*(const Bn &a, const Bn &b);
Bn operator%(const Bn &a, const Bn &b);
Bn modinv(const Bn &a, const Bn &q);
struct Pt { bool inf = true; Bn x, y; };
struct Curve {
    const char *sn; int nid, bits, len, h; EC_GROUP *g; Bn p, q; Pt G;
    Pt mul(const Bn &k, const Pt &P) const;
    Pt mulg(const Bn &k) const;
    Pt add(const Pt &A, const Pt &B) const;
    bool on(const Pt &P) const;
    Bytes pubLE(const Pt &P) const { return cat(P.x.tole(len), P.y.tole(len)); }
};
enum { N_CURVES = 14 };
const Curve &curve(int i);                     // order of ref_curves.h; 10..13 are the 512-bit ones
const Curve *curve_by_nid(int nid);
namespace ref {
Bn ec_e(const Curve &c, const Bytes &dgst);
// signature s||r for nonce k; empty if k is degenerate
Bytes ec_sign(const Curve &c, const Bn &d, const Bytes &dgst, const Bn &k);
bool ec_verify(const Curve &c, const Pt &Q, const Bytes &dgst, const Bytes &sig);
extern std::vector<std::pair<std::string, Bytes>> *trace;   // secrets met on the way, when somebody asks
Bytes vko(const Curve &c, const Bn &d, const Pt &Q, const Bytes &ukm, int md);   // md: 94, 256, 512; empty if degenerate
Bytes keg(const Curve &c, const Bn &d, const Pt &Q, const Bytes &h, bool k512);
std::string ec_selftest();
}
// --- key objects through the public interface
enum { KA_2001 = 0, KA_256 = 1, KA_512 = 2, KA_2001DH = 3 };
int ka_nid(int ka);
struct Key {
    EVP_PKEY *pk = nullptr; int ka = 0; const Curve *cv = nullptr; Bn d; Pt Q; bool priv = false;
    int siglen() const { return ka == KA_512 ? 128 : 64; }
    int dlen() const { return ka == KA_512 ? 64 : 32; }
};
// curve numbers usable with a key algorithm
const std::vector<int> &ka_curves(int ka);
EVP_PKEY *key_gen(int ka, const Curve &cv, bool byname);           // keygen; NULL on failure
EVP_PKEY *key_import(int ka, const Curve &cv, const Bn &d);        // private key from PKCS#8
EVP_PKEY *pub_import(int ka, const Curve &cv, const Pt &Q);        // public key from SubjectPublicKeyInfo
Bytes pub_der(int ka, const Curve &cv, const Bytes &xy_le);
Bytes p8_der(int ka, const Curve &cv, const Bytes &body);              // PKCS#8 around any form of the private part
Bytes priv_der(int ka, const Curve &cv, const Bytes &d_le);
bool key_read(EVP_PKEY *pk, Bn &d, Pt &Q);                         // what the object holds; false if no private part
std::string key_check(EVP_PKEY *pk, const Curve &cv);              // "" if Q = dG and d in range
Bytes der(uint8_t tag, const Bytes &body);
Bytes der_oid(const char *sn);
