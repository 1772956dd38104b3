// C19: keys and parameters in storage: written, damaged, read back, under every format setting and with faults.
#include "../der.h"
#include <openssl/crypto.h>
#include <openssl/pkcs12.h>
namespace {
enum { NK = 4, NF = 6, NFORM = 8 };
enum { F_P8, F_P8PEM, F_P8ENC, F_PUB, F_PUBPEM, F_PAR, F_PARPEM, F_PRIVPEM };
const char *form_names[] = { "PKCS8", "PKCS8 PEM", "encrypted PKCS8", "SPKI", "SPKI PEM", "parameters", "parameters PEM", "private key PEM" };
bool is_priv(int f) { return f == F_P8 || f == F_P8PEM || f == F_P8ENC || f == F_PRIVPEM; }
bool is_par(int f) { return f == F_PAR || f == F_PARPEM; }
const char *PASS = "storage password";
// what a stored or in-memory key is
struct M { int ka = 0; const Curve *cv = nullptr; bool priv = false, pub = false; Bn d; Pt Q; };
struct KObj { EVP_PKEY *pk = nullptr; M m; };
struct File { bool used = false, intact = false; int form = 0; Bytes b; M m; int craft = 0; /* 0 no, 1 valid, 2 must be refused */ const char *what = ""; };
int ka_of(int nid) { for (int k = 0; k < 4; k++) if (ka_nid(k) == nid) return k; return -1; }
int kbits(int ka) { return ka == KA_512 ? 512 : 256; }
bool same_pt(const Pt &a, const Pt &b) { return a.inf == b.inf && (a.inf || (a.x == b.x && a.y == b.y)); }

// ---- an independent reader: 1 definite, 0 malformed or not understood
const ASN1_OBJECT *oid(const Node &n) { static ASN1_OBJECT *o; ASN1_OBJECT_free(o); Bytes e = emit(n); const uint8_t *p = e.data(); o = n.tag == 6 ? d2i_ASN1_OBJECT(NULL, &p, e.size()) : NULL; return o; }
int oid_nid(const Node &n) { const ASN1_OBJECT *o = oid(n); return o ? OBJ_obj2nid(o) : NID_undef; }
bool dec_alg(const Node &n, M &m) {
    if (n.tag != 0x30 || n.kids.size() != 2 || n.kids[1].tag != 0x30 || n.kids[1].kids.empty() || n.kids[1].kids.size() > 3) return false;
    for (auto &k : n.kids[1].kids) if (k.tag != 6 || k.body.empty()) return false;
    m.ka = ka_of(oid_nid(n.kids[0])); m.cv = curve_by_nid(oid_nid(n.kids[1].kids[0]));
    return m.ka >= 0 && m.cv && m.cv->bits == kbits(m.ka);
}
bool fin(M &m) { m.priv = m.pub = true; if (m.d.zero() || !(m.d < m.cv->q)) return false; m.Q = m.cv->mulg(m.d); return true; }
bool unmask(const Bytes &b, M &m) {
    size_t n = m.cv->len; if (b.empty() || b.size() % n) return false;
    m.d = Bn::le(sub(b, 0, n)); for (size_t i = n; i < b.size(); i += n) m.d = m.d * Bn::le(sub(b, i, n)) % m.cv->q;
    return fin(m);
}
bool dec_priv(const Bytes &b, M &m) {
    Node n; if (!parse(b, n) || n.tag != 0x30 || n.kids.size() < 3 || n.kids[0].tag != 2 || n.kids[0].body != Bytes{ 0 } || n.kids[2].tag != 4) return false;
    if (!dec_alg(n.kids[1], m)) return false; const Bytes &v = n.kids[2].body; Node i; size_t len = m.cv->len;
    if (v.size() % len == 0) return unmask(v, m);
    if (!parse(v, i)) return false;
    if (i.tag == 4) { if (i.body.size() != len) return false; m.d = Bn::le(i.body); return fin(m); }
    if (i.tag == 2) { if (i.body.empty() || (i.body[0] & 0x80) || (i.body.size() > 1 && !i.body[0] && !(i.body[1] & 0x80))) return false; m.d = Bn::be(i.body); return fin(m); }
    if (i.tag == 0x30 && i.kids.size() == 2 && i.kids[0].tag == 4 && i.kids[1].tag == 4) return unmask(i.kids[0].body, m);
    return false;
}
bool dec_pub(const Bytes &b, M &m) {
    Node n, i; if (!parse(b, n) || n.tag != 0x30 || n.kids.size() != 2 || n.kids[1].tag != 3 || n.kids[1].body.empty() || n.kids[1].body[0] || !dec_alg(n.kids[0], m)) return false;
    Bytes v(n.kids[1].body.begin() + 1, n.kids[1].body.end()); size_t len = m.cv->len; if (!parse(v, i) || i.tag != 4 || i.body.size() != 2 * len) return false;
    m.Q.inf = false; m.Q.x = Bn::le(sub(i.body, 0, len)); m.Q.y = Bn::le(sub(i.body, len, len)); m.pub = true; m.priv = false;
    return m.Q.x < m.cv->p && m.Q.y < m.cv->p && m.cv->on(m.Q);
}
bool dec_par(const Bytes &b, int ka, M &m) { Node n; if (!parse(b, n)) return false; m.ka = ka; m.cv = curve_by_nid(oid_nid(n)); m.pub = m.priv = false; return m.cv && m.cv->bits == kbits(ka); }
Bytes depem(const Bytes &b, std::string *name = nullptr) {
    BIO *o = BIO_new_mem_buf(b.data(), b.size()); char *n = NULL, *h = NULL; uint8_t *d = NULL; long l = 0; Bytes r;
    if (PEM_read_bio(o, &n, &h, &d, &l) == 1) { r.assign(d, d + l); if (name) *name = n; if (h && *h) r.clear(); }
    OPENSSL_free(n); OPENSSL_free(h); OPENSSL_free(d); BIO_free(o); ERR_clear_error(); return r;
}
// ---- writing and reading through the public interface
Bytes frombio(BIO *o) { char *p; long n = BIO_get_mem_data(o, &p); return Bytes((uint8_t *)p, (uint8_t *)p + (n > 0 ? n : 0)); }
bool write_form(int form, EVP_PKEY *pk, int var, Bytes &out) {
    out.clear(); uint8_t *p = NULL; int n = -1; BIO *o = NULL; bool ok = false; PKCS8_PRIV_KEY_INFO *p8 = NULL;
    switch (form) {
    case F_P8: p8 = EVP_PKEY2PKCS8(pk); n = p8 ? i2d_PKCS8_PRIV_KEY_INFO(p8, &p) : -1; break;
    case F_P8ENC: {
        p8 = EVP_PKEY2PKCS8(pk); uint8_t salt[] = { 1, 2, 3, 4, 5, 6, 7, 8, (uint8_t)var, 9 };
        X509_SIG *s = p8 ? PKCS8_encrypt(-1, var & 1 ? EVP_aes_128_cbc() : eng_cipher(OBJ_sn2nid("gost89")), PASS, strlen(PASS), salt, sizeof salt, 2 + var % 7, p8) : NULL;
        n = s ? i2d_X509_SIG(s, &p) : -1; X509_SIG_free(s); break; }
    case F_PUB: n = i2d_PUBKEY(pk, &p); break;
    case F_PAR: n = i2d_KeyParams(pk, &p); break;
    case F_P8PEM: o = BIO_new(BIO_s_mem()); ok = PEM_write_bio_PKCS8PrivateKey(o, pk, NULL, NULL, 0, NULL, NULL) == 1; break;
    case F_PRIVPEM: o = BIO_new(BIO_s_mem()); ok = PEM_write_bio_PrivateKey(o, pk, NULL, NULL, 0, NULL, NULL) == 1; break;
    case F_PUBPEM: o = BIO_new(BIO_s_mem()); ok = PEM_write_bio_PUBKEY(o, pk) == 1; break;
    case F_PARPEM: o = BIO_new(BIO_s_mem()); ok = PEM_write_bio_Parameters(o, pk) == 1; break;
    }
    if (o) { if (ok) out = frombio(o); BIO_free(o); } else if (n > 0) { out.assign(p, p + n); ok = true; }
    OPENSSL_free(p); PKCS8_PRIV_KEY_INFO_free(p8); return ok;
}
EVP_PKEY *read_form(int form, int ka, const Bytes &b, Bytes *inner = nullptr) {
    const uint8_t *p = b.data(); EVP_PKEY *pk = NULL; PKCS8_PRIV_KEY_INFO *p8 = NULL; BIO *o = NULL;
    switch (form) {
    case F_P8: p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, b.size()); pk = p8 ? EVP_PKCS82PKEY(p8) : NULL; break;
    case F_P8ENC: { X509_SIG *s = d2i_X509_SIG(NULL, &p, b.size()); p8 = s ? PKCS8_decrypt(s, PASS, strlen(PASS)) : NULL; X509_SIG_free(s); pk = p8 ? EVP_PKCS82PKEY(p8) : NULL; break; }
    case F_PUB: pk = d2i_PUBKEY(NULL, &p, b.size()); break;
    case F_PAR: pk = d2i_KeyParams(ka_nid(ka), NULL, &p, b.size()); break;
    case F_P8PEM: case F_PRIVPEM: o = BIO_new_mem_buf(b.data(), b.size()); pk = PEM_read_bio_PrivateKey(o, NULL, NULL, (void *)""); break;
    case F_PUBPEM: o = BIO_new_mem_buf(b.data(), b.size()); pk = PEM_read_bio_PUBKEY(o, NULL, NULL, NULL); break;
    case F_PARPEM: { // libcrypto 3.0's PEM_read_bio_Parameters does not get to an engine's formats: by hand, as it would
        std::string nm; Bytes d = depem(b, &nm); size_t l = nm.size() > 11 && nm.substr(nm.size() - 11) == " PARAMETERS" ? nm.size() - 11 : 0; ENGINE *e = NULL; int id = 0;
        const EVP_PKEY_ASN1_METHOD *a = l ? EVP_PKEY_asn1_find_str(&e, nm.c_str(), l) : NULL; if (a) EVP_PKEY_asn1_get0_info(&id, NULL, NULL, NULL, NULL, a);
        if (e) ENGINE_finish(e); p = d.data(); if (id) pk = d2i_KeyParams(id, NULL, &p, d.size()); break; }
    }
    BIO_free(o);
    if (p8 && inner) { uint8_t *q = NULL; int n = i2d_PKCS8_PRIV_KEY_INFO(p8, &q); if (n > 0) inner->assign(q, q + n); OPENSSL_free(q); }
    PKCS8_PRIV_KEY_INFO_free(p8); return pk;
}
long pbe_iter(const Bytes &b) { // iteration count of a PBES2 container, or -1
    Node n; if (!parse(b, n) || n.kids.size() != 2 || n.kids[0].kids.size() != 2 || n.kids[0].kids[1].kids.size() != 2 || n.kids[0].kids[1].kids[0].kids.size() != 2) return -1;
    auto &k = n.kids[0].kids[1].kids[0].kids[1]; if (k.kids.size() < 2 || k.kids[1].tag != 2 || k.kids[1].body.empty() || k.kids[1].body.size() > 2) return -1;
    long v = 0; for (auto x : k.kids[1].body) v = v << 8 | x; return v > 600 ? -1 : v;
}
// the model of what bytes hold, read independently
bool dec(int form, int ka, const Bytes &b, M &m, const Bytes &inner) {
    switch (form) {
    case F_P8: return dec_priv(b, m); case F_P8ENC: return dec_priv(inner, m);
    case F_P8PEM: case F_PRIVPEM: { std::string n; Bytes d = depem(b, &n); return n == "PRIVATE KEY" && dec_priv(d, m); }
    case F_PUB: return dec_pub(b, m); case F_PUBPEM: { std::string n; Bytes d = depem(b, &n); return n == "PUBLIC KEY" && dec_pub(d, m); }
    case F_PAR: return dec_par(b, ka, m);
    default: { std::string n; Bytes d = depem(b, &n); int k = n == "GOST2001 PARAMETERS" ? KA_2001 : n == "GOST2001 DH PARAMETERS" ? KA_2001DH : -1; return k >= 0 && dec_par(d, k, m); }
    }
}
// the object holds a usable key; returns what it holds
M sound(Ctx &c, EVP_PKEY *pk, const char *what, uint64_t seed, bool sign = true) {
    M m; m.ka = ka_of(EVP_PKEY_base_id(pk)); if (m.ka < 0) c.violate("unsound", "%s: the result is not a GOST key", what);
    const EC_KEY *ec = (const EC_KEY *)EVP_PKEY_get0(pk); const EC_GROUP *g = ec ? EC_KEY_get0_group(ec) : NULL; if (!g) c.violate("unsound", "%s: a key without parameters", what);
    m.cv = curve_by_nid(EC_GROUP_get_curve_name(g)); if (!m.cv) c.violate("unsound", "%s: unknown curve", what);
    if (m.cv->bits != kbits(m.ka) || EVP_PKEY_bits(pk) != m.cv->bits) c.violate("unsound", "%s: a %d-bit key algorithm on %s", what, kbits(m.ka), m.cv->sn);
    m.priv = key_read(pk, m.d, m.Q); m.pub = EC_KEY_get0_public_key(ec) != NULL;
    if (m.pub && !m.cv->on(m.Q)) c.violate("unsound", "%s: public part not on the curve", what);
    if (m.priv) {
        std::string w = key_check(pk, *m.cv); if (!w.empty()) c.violate("unsound", "%s: %s", what, w.c_str());
        if (sign) {
            Bytes d = derive_bytes(seed, 3, m.cv->len), s(2 * m.cv->len); size_t n = s.size(); EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(pk, NULL);
            bool ok = x && EVP_PKEY_sign_init(x) > 0 && EVP_PKEY_sign(x, s.data(), &n, d.data(), d.size()) > 0; EVP_PKEY_CTX_free(x);
            if (!ok || !ref::ec_verify(*m.cv, m.Q, d, s)) c.violate("unsound", "%s: the key does not sign: %s", what, sim::err_text().c_str());
            // libcrypto's own consistency checks come to the same conclusion, and notice a public part that belongs to another key
            EVP_PKEY *t = EVP_PKEY_new(); EC_KEY *e2 = EC_KEY_dup(ec); EC_POINT *P = EC_POINT_new(g);
            EC_POINT_dbl(g, P, EC_KEY_get0_public_key(ec), NULL); EC_KEY_set_public_key(e2, P); EC_POINT_free(P); EVP_PKEY_assign(t, EVP_PKEY_base_id(pk), e2);
            for (int i = 0; i < 2; i++) {
                x = EVP_PKEY_CTX_new(i ? t : pk, NULL); int full = x ? EVP_PKEY_check(x) : -9, pub = x ? EVP_PKEY_public_check(x) : -9; EVP_PKEY_CTX_free(x);
                if (i ? full > 0 : full <= 0 || pub <= 0) c.violate("wrong-check", "%s: EVP_PKEY_check says %d (public: %d) about a key with %s public part: %s", what, full, pub, i ? "another" : "its own", sim::err_text().c_str());
            }
            EVP_PKEY_free(t); sim::err_text(); c.count("checked");
        }
    }
    return m;
}
bool same(const M &a, const M &b) { return a.ka == b.ka && a.cv == b.cv && a.priv == b.priv && a.pub == b.pub && (!a.priv || a.d == b.d) && (!a.pub || same_pt(a.Q, b.Q)); }
std::string show(const M &m) { return strf("%s %s%s%s%s", OBJ_nid2sn(ka_nid(m.ka)), m.cv ? m.cv->sn : "-", m.priv ? " d=" : "", m.priv ? hex(m.d.tobe(66)).c_str() : "", m.pub && !m.Q.inf ? (" x=" + hex(m.Q.x.tobe(66))).c_str() : ""); }
// what a written form must contain, taken apart piece by piece
std::string check_written(int form, const M &m, const Bytes &b, bool wrap, const Bytes &inner) {
    M r; if (!dec(form, m.ka, b, r, inner)) return "does not read as " + std::string(form_names[form]) + ": " + hex(b);
    if (r.ka != m.ka || r.cv != m.cv || (is_priv(form) && r.d != m.d) || (!is_priv(form) && !is_par(form) && !same_pt(r.Q, m.Q))) return "holds " + show(r) + ", not " + show(m);
    if (is_par(form)) return "";
    Node n; Bytes d = form == F_P8ENC ? inner : form == F_P8 || form == F_PUB ? b : depem(b); parse(d, n); const Node &a = is_priv(form) ? n.kids[1] : n.kids[0];
    auto &pk = a.kids[1].kids; if (pk.size() > 2) return "too many parameters";
    int want = m.ka == KA_512 ? NID_id_GostR3411_2012_512 : m.ka == KA_256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_94_CryptoProParamSet;
    if (pk.size() == 2 && oid_nid(pk[1]) != want) return "wrong digest parameters";
    if (pk.size() == 1 && m.ka != KA_256 && m.ka != KA_512) return "digest parameters missing";
    if (is_priv(form)) { Bytes le = m.d.tole(m.cv->len); if (n.kids.size() != 3 || n.kids[2].body != (wrap ? der(4, le) : le)) return strf("private part not stored %s: %s", wrap ? "wrapped" : "raw", hex(n.kids[2].body).c_str()); }
    return "";
}
const char *short_name(const Curve &cv, int ka) {
    static const struct { const char *sn, *s; } t[] = { { "id-GostR3410-2001-TestParamSet", "0" }, { "id-GostR3410-2001-CryptoPro-A-ParamSet", "A" }, { "id-GostR3410-2001-CryptoPro-B-ParamSet", "B" }, { "id-GostR3410-2001-CryptoPro-C-ParamSet", "C" },
        { "id-GostR3410-2001-CryptoPro-XchA-ParamSet", "XA" }, { "id-GostR3410-2001-CryptoPro-XchB-ParamSet", "XB" }, { "id-tc26-gost-3410-2012-256-paramSetA", "TCA" }, { "id-tc26-gost-3410-2012-256-paramSetB", "TCB" }, { "id-tc26-gost-3410-2012-256-paramSetC", "TCC" }, { "id-tc26-gost-3410-2012-256-paramSetD", "TCD" },
        { "id-tc26-gost-3410-2012-512-paramSetA", "A" }, { "id-tc26-gost-3410-2012-512-paramSetB", "B" }, { "id-tc26-gost-3410-2012-512-paramSetC", "C" } };
    (void)ka; for (auto &x : t) if (!strcmp(x.sn, cv.sn)) return x.s; return NULL;
}
Bn pick_d(const Curve &cv, int kind, uint64_t seed) {
    Bytes r = derive_bytes(seed, 5, cv.len + 8); Bn d = Bn::le(r) % (cv.q - Bn(1)) + Bn(1);
    switch (kind) {
    case 0: d = Bn(1); break; case 1: d = Bn(2 + r[0]); break; case 2: d = cv.q - Bn(1); break;
    case 3: { Bytes x(r.begin(), r.begin() + cv.len - 1 - r[40] % 4); x[0] |= 1; d = Bn::le(x); break; }        // leading zero bytes
    case 4: { Bytes x = d.tole(cv.len); const uint8_t pre[][2] = { { 4, 30 }, { 0x30, 30 }, { 2, 30 }, { 4, 0 }, { 0, 0 } }; memcpy(x.data(), pre[r[1] % 5], 2); d = Bn::le(x) % cv.q; if (d.zero()) d = Bn(3); break; }
    }
    return d;
}
Bytes algid_of(int ka, const Curve &cv) { Node n; parse(pub_der(ka, cv, Bytes(2 * cv.len)), n); return emit(n.kids[0]); }
Bytes p8_of(int ka, const Curve &cv, const Bytes &body) { return der(0x30, cat(cat(Bytes{ 2, 1, 0 }, algid_of(ka, cv)), der(4, body))); }
Bn inv(const Bn &a, const Curve &cv) { return modinv(a, cv.q); }
// object identifiers the engine or libcrypto knows, but not as curves of GOST keys
const char *foreign(uint64_t v) {
    static const char *const sn[] = { "prime256v1", "secp384r1", "secp256k1", "id-GostR3411-94", "id-GostR3411-94-CryptoProParamSet", "id-Gost28147-89-CryptoPro-A-ParamSet", "id-tc26-gost-28147-param-Z",
        "md_gost12_256", "gost89", "rsaEncryption", "id-ecPublicKey", "sha256", "commonName", "brainpoolP256r1", "id-GostR3410-94-CryptoPro-A-ParamSet", "id-GostR3410-2001-CryptoPro-A-ParamSet" };
    return sn[v % 16];
}
// private keys in the other forms the engine reads, and malformed ones
void craft(File &f, int kind, const M &m, uint64_t seed) {
    const Curve &cv = *m.cv; int n = cv.len; Bytes le = m.d.tole(n); Bn m1 = Bn::le(derive_bytes(seed, 8, n)) % (cv.q - Bn(1)) + Bn(1), m2 = Bn::le(derive_bytes(seed, 9, n)) % (cv.q - Bn(1)) + Bn(1);
    auto masked = [&](int k) { Bn x = m.d; Bytes t; if (k > 0) { x = x * inv(m1, cv) % cv.q; t = m1.tole(n); } if (k > 1) { x = x * inv(m2, cv) % cv.q; t = cat(t, m2.tole(n)); } return cat(x.tole(n), t); };
    Bytes pub = der(4, cv.pubLE(m.Q)); Bytes be = m.d.tobe(n); while (be.size() > 1 && !be[0] && !(be[1] & 0x80)) be.erase(be.begin()); if (be[0] & 0x80) be.insert(be.begin(), 0);
    const Curve &oc = curve(cv.bits == 256 ? 11 : 1); int wk = cv.bits == 256 ? KA_512 : KA_256; Bytes body; int ok = 1; int ka = m.ka; const Curve *pc = &cv; f.form = F_P8;
    auto flip = [&](Bytes b) { return b; };
    switch (kind) {
    case 0: body = le; f.what = "raw"; break;
    case 1: body = der(4, le); f.what = "octet string"; break;
    case 2: body = der(2, be); if (body.size() % n == 0) body = der(4, le); f.what = "integer"; break;
    case 3: body = masked(1); f.what = "masked once"; break;
    case 4: body = masked(2); f.what = "masked twice"; break;
    case 5: body = der(0x30, cat(der(4, masked(seed % 3)), pub)); if (body.size() % n == 0) body = masked(1); f.what = "masked sequence"; break;
    case 6: body = Bytes(n, 0); ok = 2; f.what = "zero key"; break;
    case 7: body = cv.q.tole(n); ok = 2; f.what = "private key equal to the order"; break;
    case 8: body = Bytes(n, 0xff); ok = 2; f.what = "private key above the order"; break;
    case 9: body = Bytes(); ok = 2; f.what = "empty private key"; break;
    case 10: body = der(4, Bytes()); ok = 2; f.what = "empty octet string"; break;
    case 11: body = der(4, cat(le, Bytes(n == 32 ? 32 : 0, 0))); if (n == 64) body = der(4, sub(le, 0, 32)); ok = 2; f.what = "octet string of the other size"; break;
    case 12: { Bytes x = be; x[0] |= 0x80; body = der(2, x); if (body.size() % n == 0) body = der(4, Bytes(n, 0)); ok = 2; f.what = "negative integer"; break; }
    case 13: body = der(0x30, cat(der(4, Bytes()), pub)); ok = 2; if (body.size() % n == 0) body = Bytes(n, 0); f.what = "empty masked key"; break;
    case 14: body = cat(le, Bytes(n, 0)); ok = 2; f.what = "zero mask"; break;
    case 15: body = der(2, Bytes{ 0 }); ok = 2; f.what = "integer zero"; break;
    case 16: body = cat(le, Bytes{ 1 }); body[0] = 0x7e; ok = 2; f.what = "one byte too many"; break;
    case 17: body = sub(le, 0, n - 1); body[0] = 0x7e; ok = 2; f.what = "one byte too few"; break;
    case 18: pc = &oc; body = der(4, m.d.tole(oc.len < n ? n : oc.len)); ok = 2; f.what = "curve of the other size"; break;
    case 19: ka = wk; body = le; ok = 2; f.what = "algorithm of the other size"; break;
    case 20: f.form = F_PUB; f.b = pub_der(ka, cv, cat(cv.pubLE(m.Q), Bytes{ 0 })); f.craft = 2; f.what = "public key one byte longer"; return;
    case 21: f.form = F_PUB; f.b = pub_der(ka, cv, sub(cv.pubLE(m.Q), 0, 2 * n - 1)); f.craft = 2; f.what = "public key one byte shorter"; return;
    case 22: f.form = F_PUB; f.b = pub_der(ka, cv, Bytes()); f.craft = 2; f.what = "empty public key"; return;
    case 23: { f.form = F_PUB; Bytes x = cv.pubLE(m.Q); x[seed % x.size()] ^= 1; f.b = pub_der(ka, cv, x); f.craft = 2; f.what = "point off the curve"; return; }
    case 24: f.form = F_PUB; f.b = pub_der(ka, oc, oc.pubLE(oc.G)); f.craft = 2; f.what = "public key on a curve of the other size"; return;
    case 25: f.form = F_PUB; f.b = pub_der(ka, cv, Bytes(2 * n, 0)); f.craft = 2; f.what = "all-zero point"; { Pt z; z.inf = false; if (cv.on(z)) f.craft = 0; } return;
    case 26: { f.form = F_PUB; Node t; parse(pub_der(ka, cv, cv.pubLE(m.Q)), t); Node &pr = t.kids[0].kids[1]; pr = Node(); pr.tag = seed & 1 ? 5 : 4; if (!(seed & 1)) pr.body = Bytes{ 1 }; f.b = emit(t); f.craft = 2; f.what = "parameters of the wrong type"; return; }
    case 27: { Node t; parse(p8_of(ka, cv, le), t); t.kids[1].kids[1].kids.clear(); f.b = emit(t); f.craft = 2; f.what = "empty parameters"; return; }
    case 28: { Node t; parse(p8_of(ka, cv, le), t); Node &oid = t.kids[1].kids[1].kids[0]; if (seed % 3) { Node o; parse(der_oid(foreign(seed / 3)), o); oid = o; } else oid.body.back() ^= 0x40; f.b = emit(t); f.craft = curve_by_nid(oid_nid(t.kids[1].kids[1].kids[0])) ? 0 : 2; f.what = "unknown curve"; return; }
    case 29: { Node t; parse(p8_of(ka, cv, le), t); t.kids[1].kids[1].kids.resize(1); f.b = emit(t); f.craft = 1; f.m = m; f.what = "no digest parameters"; return; }
    }
    f.b = p8_of(ka, *pc, flip(body)); f.craft = ok; if (ok == 1) f.m = m;
}
enum { NCRAFT = 30 };
void damage(File &f, int kind, uint64_t pos, uint64_t val, const File &other) {
    Bytes &b = f.b; if (b.empty()) return; size_t n = b.size(); size_t at = pos % n;
    switch (kind) {
    case 0: b.resize(at); break;                                         // lost tail
    case 1: b[at] ^= 1 << val % 8; break;
    case 2: std::fill(b.begin() + at, b.end(), 0); break;                // tail never written
    case 3: { size_t m = 1 + val % 40; for (size_t i = at; i < n && i < at + m; i++) b[i] = 0; break; }
    case 4: if (other.used && !other.b.empty()) { Bytes o = other.b; size_t cut = std::min(at, o.size()); Bytes t(b.begin(), b.begin() + at); t.insert(t.end(), o.begin() + cut, o.end()); b = t; } break; // torn between two files
    case 5: b.insert(b.begin() + at, (uint8_t)val); break;
    case 6: b.erase(b.begin() + at); break;
    case 7: b.push_back((uint8_t)val); break;
    case 8: b[at] = val; break;
    default: { // structure-aware: one leaf of the DER tree
        Node t; if (!parse(b, t)) { b[at] ^= 1 << val % 8; break; } std::vector<Node *> l; leaves(t, l); if (l.empty()) break; Node &x = *l[pos % l.size()];
        switch (val % 7) {
        case 0: x.body.push_back(val >> 8); break; case 1: if (!x.body.empty()) x.body.pop_back(); break; case 2: x.body.clear(); break;
        case 3: if (!x.body.empty()) x.body[(val >> 8) % x.body.size()] ^= 1 << (val >> 4) % 8; break; case 4: x.tag = "\x02\x04\x06\x30\x03\x05\x0c"[(val >> 8) % 7]; break;
        case 5: if (x.tag == 6) { Node o; parse(der_oid((val >> 8) % 3 == 0 ? curve((val >> 9) % N_CURVES).sn : (val >> 8) % 3 == 1 ? OBJ_nid2sn(ka_nid((val >> 9) % 4)) : foreign(val >> 9)), o); x = o; } else std::fill(x.body.begin(), x.body.end(), (uint8_t)((val >> 8) & 1 ? 0xff : 0)); break;
        case 6: x.body = derive_bytes(val, 1, (val >> 8) % 130); break;
        }
        b = emit(t); }
    }
}
std::string bnhex(const Bn &x) { BIO *o = BIO_new(BIO_s_mem()); BN_print(o, x.b); Bytes b = frombio(o); BIO_free(o); return std::string(b.begin(), b.end()); }
std::string print_want(const M &m, int what, int ind) {
    std::string i(ind, ' '), i3(ind + 3, ' '), s;
    if (what == 2) s += i + "Private key: " + (m.priv ? bnhex(m.d) : "<undefined>") + "\n";
    if (what >= 1) s += i + "Public key:\n" + i3 + "X:" + bnhex(m.Q.x) + "\n" + i3 + "Y:" + bnhex(m.Q.y) + "\n";
    return s + i + "Parameter set: " + OBJ_nid2ln(m.cv->nid) + "\n";
}
void gen(Rng &r, Plan &p, bool th) {
    int n = 8 + r.below(th ? 40 : 16); bool faults = r.chance(1, 2); if (r.chance(1, 4)) p.add("secure", { (long long)r.below(3) });
    auto flt = [&] { return faults && r.chance(1, 2) ? (long long)(1 + r.below(3)) : 0; }; auto num = [&] { return (long long)(r.next() >> 40); }; auto pos = [&](int m) { return (long long)r.below(r.chance(1, 2) ? 5 : m); };
    p.add("key", { 0, (long long)r.below(4), (long long)r.below(10), (long long)r.below(4), (long long)r.below(8), num(), 0, 0 });
    for (int i = 0; i < n; i++) {
        long long k = r.below(NK), f = r.below(NF); if (r.chance(1, 2)) k = 0;
        switch (r.below(16)) {
        case 0: case 1: p.add("key", { (long long)r.below(NK), (long long)r.below(4), (long long)r.below(10), (long long)r.below(4), (long long)r.below(8), num(), flt(), pos(60) }); break;
        case 2: p.add("format", { (long long)r.below(4) }); break;
        case 3: case 4: case 5: p.add("write", { k, f, (long long)r.below(NFORM), (long long)r.below(16), flt(), pos(60), 1 + (long long)r.below(3) }); if (r.chance(1, 2)) p.add("read", { f, -1, 0, 0, 1, num() }); break;
        case 6: case 7: p.add("write", { k, f, (long long)r.below(NFORM), (long long)r.below(16), 0, 0, 0 }); /* fallthrough */
        case 8: for (int j = r.below(3); j >= 0; j--) { p.add("damage", { f, (long long)r.below(14), (long long)r.below(400), (long long)r.below(1 << 20), (long long)r.below(NF) }); if (r.chance(2, 3)) p.add("read", { f, (long long)r.below(NK + 3), r.chance(1, 3) ? flt() : 0, pos(60), 1, num() }); } break;
        case 9: case 10: p.add("craft", { k, f, (long long)r.below(NCRAFT), num() }); p.add("read", { f, (long long)r.below(NK + 3), r.chance(1, 3) ? flt() : 0, pos(60), 1, num() }); break;
        case 11: p.add("read", { f, (long long)r.below(NK + 2), flt(), pos(60), 1 + (long long)r.below(3), num() }); break;
        case 12: p.add("compare", { (long long)r.below(NK), (long long)r.below(NK) }); break;
        case 13: p.add("copyparams", { (long long)r.below(NK), (long long)r.below(NK), flt(), (long long)r.below(20) }); break;
        case 14: p.add("print", { k, (long long)r.below(3), (long long)r.below(9), flt(), (long long)r.below(30) }); break;
        case 15: if (r.chance(1, 2)) p.add("restart", {}); else p.add("newkey", { (long long)r.below(NK), (long long)r.below(NK), num(), flt(), pos(60) }); break;
        }
    }
    p.add("restart", {}); for (int f = 0; f < NF; f++) p.add("read", { f, -1, 0, 0, 1, num() });
}
void exec(const Plan &p, Ctx &c) {
    KObj K[NK]; File F[NF]; bool wrap = false; lib_engine(); int secure = 0;
    for (int i = 0; i < N_CURVES; i++) { EVP_PKEY *k = pub_import(i < 10 ? KA_256 : KA_512, curve(i), curve(i).G); if (!k) c.violate("harness", "no public key on %s", curve(i).sn); EVP_PKEY_free(k); }
    { Bytes o; EVP_PKEY *k = key_import(KA_256, curve(1), Bn(7)); write_form(F_P8ENC, k, 0, o); EVP_PKEY_free(k); ERR_clear_error(); }
    for (int k : { 24, 18 }) { M m; m.ka = KA_256; m.cv = &curve(1); m.d = Bn(7); m.Q = m.cv->mulg(m.d); File f; craft(f, k, m, 1); EVP_PKEY_free(read_form(f.form, KA_256, f.b)); ERR_clear_error(); } // libcrypto loads its decoders when a format is refused
    auto put = [&](KObj &k, EVP_PKEY *pk, const M &m) { EVP_PKEY_free(k.pk); k.pk = pk; k.m = m; };
    auto arm = [&](int kind, long long from, long long cnt) { if (kind) { sim::Faults::arm(kind, from, cnt); sim::al.engine_only = true; } };
    auto disarm = [&](int kind) { sim::Faults::disarm(); uint64_t f = kind ? sim::Faults::fired() : 0; if (f) { c.count(sim::al.failed ? "fault.allocation" : "fault.library_call"); c.nontrivial = true; } return f; };
    auto unchanged = [&](KObj &k, const char *w) { M m = sound(c, k.pk, w, 1, false); if (!same(m, k.m)) c.violate("key-changed", "%s changed the key in memory: %s, was %s", w, show(m).c_str(), show(k.m).c_str()); };
    for (auto &o : p.ops) {
        std::string er;
        if (o.k == "secure") { secure = CRYPTO_secure_malloc_init(o.mod(0, 3) == 0 ? 4096 : o.mod(0, 3) == 1 ? 16384 : 1 << 18, 16) > 0; c.count(secure ? "secure_heap" : "no_secure_heap"); if (o.mod(0, 3) == 0) secure = 2;
        } else if (o.k == "key") {
            KObj &k = K[o.mod(0, NK)]; int ka = o.mod(1, 4); auto &cl = ka_curves(ka); const Curve &cv = curve(cl[o.mod(2, cl.size())]); int how = o.mod(3, 4), fk = o.arg(6); uint64_t s = mix64(p.seed, o.arg(5)); c.op("key"); M m; m.ka = ka; m.cv = &cv; m.priv = m.pub = true;
            EVP_PKEY *pk = NULL; const char *sn = short_name(cv, ka); c.mixsig(100 + how * 16 + cl[o.mod(2, cl.size())]); c.mixsig(fk);
            if (how == 3) { m.d = pick_d(cv, o.mod(4, 8), s); m.Q = cv.mulg(m.d); arm(fk, o.arg(7), 1); pk = key_import(ka, cv, m.d); }
            else if (how == 2 && sn && !(ka == KA_512 && !strcmp(sn, "0"))) { EVP_PKEY_CTX *x = EVP_PKEY_CTX_new_id(ka_nid(ka), lib_engine()); arm(fk, o.arg(7), 1); bool ok = EVP_PKEY_keygen_init(x) > 0 && EVP_PKEY_CTX_ctrl_str(x, "paramset", sn) > 0 && EVP_PKEY_keygen(x, &pk) > 0; EVP_PKEY_CTX_free(x); if (!ok) { EVP_PKEY_free(pk); pk = NULL; } }
            else { arm(fk, o.arg(7), 1); pk = key_gen(ka, cv, false); }
            uint64_t f = disarm(fk); er = sim::err_text();
            if (!pk) { if (!f && secure != 2) c.violate("refused", "no key on %s with %s: %s", cv.sn, OBJ_nid2sn(ka_nid(ka)), er.c_str()); c.count("keys_failed"); continue; }
            M g = sound(c, pk, "a new key", s, !f); if (how != 3 && ka == KA_2001DH) m.ka = g.ka; // generation for 2001DH makes 2001 keys
            if (how != 3) m.d = g.d, m.Q = g.Q; if (!same(g, m)) c.violate("wrong-key", "made %s, wanted %s", show(g).c_str(), show(m).c_str()); put(k, pk, m); c.count("keys");
        } else if (o.k == "format") { c.op("format"); int v = o.mod(0, 4); wrap = v < 2; if (ENGINE_ctrl_cmd_string(lib_engine(), "GOST_PK_FORMAT", v < 2 ? "LEGACY_PK_WRAP" : v == 2 ? "" : "RAW", 0) != 1) c.violate("refused", "the format setting was refused"); c.mixsig(200 + wrap);
        } else if (o.k == "write") {
            KObj &k = K[o.mod(0, NK)]; File &f = F[o.mod(1, NF)]; if (!k.pk) continue; int form = o.mod(2, NFORM), fk = o.arg(4), var = o.mod(3, 16); c.op("write"); Bytes out, inner; c.mixsig(300 + form * 64 + k.m.ka * 16 + k.m.priv * 2 + k.m.pub); c.mixsig(fk);
            bool able = is_priv(form) ? k.m.priv : is_par(form) ? k.m.ka == KA_2001 || k.m.ka == KA_2001DH : k.m.pub;
            Bytes w0; write_form(form, k.pk, var, w0); sim::err_text(); sim::track_begin();
            arm(fk, o.arg(5), o.arg(6)); bool ok = write_form(form, k.pk, var, out); uint64_t fi = disarm(fk); er = sim::err_text(); std::string l; size_t live = sim::track_live(&l); sim::track_end();
            if (live) c.violate("leak", "writing %s leaves allocated: %s", form_names[form], l.c_str()); unchanged(k, "writing");
            if (ok && !able) c.violate("wrote-nothing", "%s was written as %s, which it cannot be: %s", show(k.m).c_str(), form_names[form], hex(out).c_str());
            if (!ok && able && !fi && secure != 2) c.violate("refused", "%s cannot be written as %s: %s", show(k.m).c_str(), form_names[form], er.c_str());
            c.count(ok ? "written" : fi ? "write_failed" : "write_refused"); if (!ok) continue;
            if (form == F_P8ENC) { EVP_PKEY *t = read_form(form, k.m.ka, out, &inner); EVP_PKEY_free(t); }
            std::string bad = check_written(form, k.m, out, wrap, inner); if (!bad.empty() && !(secure == 2 && form == F_P8ENC)) c.violate("wrong-bytes", "%s written as %s %s", show(k.m).c_str(), form_names[form], bad.c_str());
            f = File(); f.used = f.intact = true; f.form = form; f.b = out; f.m = k.m; if (!is_priv(form)) f.m.priv = false; if (is_par(form)) f.m.pub = false; f.what = form_names[form];
        } else if (o.k == "damage") {
            File &f = F[o.mod(0, NF)]; if (!f.used) continue; c.op("damage"); Bytes was = f.b; damage(f, o.mod(1, 14), o.arg(2), o.arg(3), F[o.mod(4, NF)]); if (f.b == was) continue; f.intact = false; f.craft = 0; c.count("fault.storage"); c.nontrivial = true; c.mixsig(400 + o.mod(1, 14)); c.mixsig(o.arg(2) % 400);
        } else if (o.k == "craft") {
            KObj &k = K[o.mod(0, NK)]; File &f = F[o.mod(1, NF)]; if (!k.pk || !k.m.priv) continue; c.op("craft"); f = File(); f.used = true; f.m = k.m; craft(f, o.mod(2, NCRAFT), k.m, mix64(p.seed, o.arg(3))); if (f.craft == 1 && f.form == F_PUB) f.m.priv = false; c.count(f.craft == 1 ? "crafted_valid" : f.craft == 2 ? "crafted_bad" : "crafted"); c.nontrivial = true; c.mixsig(500 + o.mod(2, NCRAFT));
        } else if (o.k == "read") {
            File &f = F[o.mod(0, NF)]; if (!f.used) continue; c.op("read"); int fk = o.arg(2); Bytes inner; c.mixsig(600 + f.form * 16 + f.intact * 8 + f.m.ka); c.mixsig(fk);
            if (f.form == F_P8ENC && pbe_iter(f.b) < 0) { c.count("iterations_not_tried"); continue; }
            EVP_PKEY *pk = read_form(f.form, f.m.ka, f.b, &inner); er = sim::err_text();
            if (fk) {   // the same read again, disturbed; nothing may stay behind, and success must mean the same
                sim::track_begin(); arm(fk, o.arg(3), o.arg(4)); EVP_PKEY *q = read_form(f.form, f.m.ka, f.b); uint64_t fi = disarm(fk); sim::err_text();
                if (q && !pk) c.violate("accepted", "%s: refused, then accepted when a call failed", f.what); if (!q && pk && !fi && secure != 2) c.violate("refused", "%s: read once, not twice", f.what);
                if (q) { M a = sound(c, pk, f.what, 1, false), b = sound(c, q, "a disturbed read", 1, false); if (!same(a, b)) c.violate("wrong-key", "reading %s gave %s, disturbed %s", f.what, show(a).c_str(), show(b).c_str()); }
                EVP_PKEY_free(q); std::string l; size_t live = sim::track_live(&l); sim::track_end(); if (live) c.violate("leak", "reading %s leaves allocated: %s", f.what, l.c_str());
            } else { sim::track_begin(); EVP_PKEY *q = read_form(f.form, f.m.ka, f.b); EVP_PKEY_free(q); sim::err_text(); std::string l; size_t live = sim::track_live(&l); sim::track_end(); if (live) c.violate("leak", "reading %s leaves allocated: %s", f.what, l.c_str()); }
            M d; bool definite = dec(f.form, f.m.ka, f.b, d, inner); c.count(f.intact ? pk ? "read_intact" : "read_intact_failed" : pk ? definite ? "read_altered_definite" : "read_altered_lenient" : "altered_refused");
            if (!pk) {
                if ((f.intact || f.craft == 1) && secure != 2) c.violate("refused", "%s (%s) cannot be read back: %s", f.what, show(f.m).c_str(), er.c_str());
                continue;
            }
            M g = sound(c, pk, f.what, mix64(p.seed, o.arg(5)));
            if (f.craft == 2) c.violate("accepted", "a stored key that is no key (%s) was read as %s", f.what, show(g).c_str());
            if ((f.intact || f.craft == 1) && !same(g, f.m)) c.violate("wrong-key", "%s was stored (%s) and reads as %s", show(f.m).c_str(), f.what, show(g).c_str());
            if (definite && !same(g, d)) c.violate("wrong-key", "an altered file holds %s and reads as %s", show(d).c_str(), show(g).c_str());
            if (g.pub || is_par(f.form)) for (int form : { (int)F_P8, (int)F_PUB, (int)F_PAR }) { Bytes b; if ((form == F_P8 && !g.priv) || (form == F_PUB && !g.pub) || (form == F_PAR && (!is_par(f.form)))) continue;
                if (!write_form(form, pk, 0, b)) { if (secure != 2) c.violate("refused", "what was read from %s cannot be written again: %s", f.what, sim::err_text().c_str()); continue; }
                std::string bad = check_written(form, g, b, wrap, Bytes()); if (!bad.empty()) c.violate("wrong-bytes", "what was read from %s and written again %s", f.what, bad.c_str()); }
            int to = o.arg(1); if (to >= 0 && to < NK) put(K[to], pk, g); else EVP_PKEY_free(pk);
        } else if (o.k == "compare") {
            KObj &a = K[o.mod(0, NK)], &b = K[o.mod(1, NK)]; if (!a.pk || !b.pk) continue; c.op("compare"); int r = EVP_PKEY_eq(a.pk, b.pk), q = EVP_PKEY_parameters_eq(a.pk, b.pk); sim::err_text();
            bool par = a.m.cv == b.m.cv, eq = &a == &b || (a.m.ka == b.m.ka && par && a.m.pub && b.m.pub && same_pt(a.m.Q, b.m.Q)); c.mixsig(700 + eq * 2 + par);
            if ((r == 1) != eq) c.violate("compare", "%s and %s compare as %d", show(a.m).c_str(), show(b.m).c_str(), r);
            if (a.m.ka == b.m.ka && (q == 1) != par) c.violate("compare", "the parameters of %s and %s compare as %d", show(a.m).c_str(), show(b.m).c_str(), q);
            if (EVP_PKEY_bits(a.pk) != a.m.cv->bits || EVP_PKEY_size(a.pk) != 2 * a.m.cv->len) c.violate("compare", "%s has %d bits and size %d", show(a.m).c_str(), EVP_PKEY_bits(a.pk), EVP_PKEY_size(a.pk));
        } else if (o.k == "copyparams") {
            KObj &a = K[o.mod(0, NK)], &b = K[o.mod(1, NK)]; if (!b.pk) continue; c.op("copyparams"); int fk = o.arg(2); EVP_PKEY *t = EVP_PKEY_new();
            bool typed = a.pk && EVP_PKEY_set_type(t, ka_nid(a.m.ka)); arm(fk, o.arg(3), 1); bool ok = EVP_PKEY_copy_parameters(t, b.pk) == 1; uint64_t fi = disarm(fk); er = sim::err_text();
            bool can = !typed || a.m.ka == b.m.ka; if (ok && !can) c.violate("accepted", "the parameters of %s were copied to %s", show(b.m).c_str(), show(a.m).c_str()); if (!ok && can && !fi) c.violate("refused", "the parameters of %s cannot be copied: %s", show(b.m).c_str(), er.c_str());
            if (ok) { M g = sound(c, t, "copied parameters", 1, false); if (g.ka != b.m.ka || g.cv != b.m.cv || g.priv || g.pub) c.violate("wrong-key", "the copied parameters of %s are %s", show(b.m).c_str(), show(g).c_str()); }
            EVP_PKEY_free(t); unchanged(b, "copying parameters"); c.mixsig(800 + ok);
        } else if (o.k == "newkey") {   // a key made on the parameters another object carries
            KObj &a = K[o.mod(0, NK)], &b = K[o.mod(1, NK)]; if (!b.pk) continue; c.op("newkey"); int fk = o.arg(3); EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(b.pk, NULL); EVP_PKEY *pk = NULL; arm(fk, o.arg(4), 1); bool ok = x && EVP_PKEY_keygen_init(x) > 0 && EVP_PKEY_keygen(x, &pk) > 0; uint64_t fi = disarm(fk); er = sim::err_text(); EVP_PKEY_CTX_free(x);
            if (!ok) { EVP_PKEY_free(pk); c.count("newkey_refused"); (void)fi; unchanged(b, "a failed key generation"); continue; }
            M g = sound(c, pk, "a key made from parameters", o.arg(2)); if ((g.ka != b.m.ka && b.m.ka != KA_2001DH) || g.cv != b.m.cv) c.violate("wrong-key", "a key made on the parameters of %s is %s", show(b.m).c_str(), show(g).c_str());
            unchanged(b, "making another key"); c.count("newkeys"); put(a, pk, g);
        } else if (o.k == "print") {
            KObj &k = K[o.mod(0, NK)]; if (!k.pk) continue; c.op("print"); int what = o.mod(1, 3), ind = o.mod(2, 9), fk = o.arg(3); BIO *b = BIO_new(BIO_s_mem()); c.mixsig(900 + what * 2 + k.m.priv);
            arm(fk, o.arg(4), 1); int r = what == 2 ? EVP_PKEY_print_private(b, k.pk, ind, NULL) : what == 1 ? EVP_PKEY_print_public(b, k.pk, ind, NULL) : EVP_PKEY_print_params(b, k.pk, ind, NULL); uint64_t fi = disarm(fk); sim::err_text(); Bytes t = frombio(b); BIO_free(b); std::string s(t.begin(), t.end());
            bool can = what == 0 ? k.m.ka == KA_2001 || k.m.ka == KA_2001DH : k.m.pub;
            if (!fi && can && (r <= 0 || s != print_want(k.m, what, ind))) c.violate("print", "%s prints (%d) as \"%s\", not \"%s\"", show(k.m).c_str(), r, s.c_str(), print_want(k.m, what, ind).c_str());
            unchanged(k, "printing");
        } else if (o.k == "restart") { c.op("restart"); for (auto &k : K) { EVP_PKEY_free(k.pk); k = KObj(); } ENGINE_ctrl_cmd_string(lib_engine(), "GOST_PK_FORMAT", "", 0); wrap = false; c.count("restarts"); }
        c.log("%s -> %s", o.k.c_str(), er.c_str());
    }
    for (auto &k : K) EVP_PKEY_free(k.pk);
}

// ---- cipher parameters stored next to a message
struct Msg { bool used = false, intact = false; int alg = 0, sb = 0; Bytes par, key, iv, pt, ct; };
struct PC { const char *sn; int kind; }; // kind 0: iv + S-box, 1: UKM
const PC pcs[] = { { "gost89", 0 }, { "gost89-cnt", 0 }, { "gost89-cnt-12", 0 }, { "gost89-cbc", 0 }, { "magma-ctr-acpkm", 1 }, { "kuznyechik-ctr-acpkm", 1 } };
const CipherAlg &calg(int i) { for (int j = 0; j < n_cipher_algs; j++) if (!strcmp(cipher_algs[j].sn, pcs[i].sn)) return cipher_algs[j]; return cipher_algs[0]; }
int all_sb[] = { ref::S_A, ref::S_B, ref::S_C, ref::S_D, ref::S_TEST, ref::S_Z };
int sb_of(const Node &n) { int nid = oid_nid(n); for (int s : all_sb) if (nid && nid == OBJ_sn2nid(sbox_names[s])) return s; return -1; }
bool dec_cp(int alg, const Bytes &b, Bytes &iv, int &sb) {
    const CipherAlg &a = calg(alg); Node n; sb = ref::S_Z; if (!parse(b, n) || n.tag != 0x30) return false;
    if (pcs[alg].kind == 0) { if (n.kids.size() != 2 || n.kids[0].tag != 4 || (int)n.kids[0].body.size() != a.ivlen || n.kids[1].tag != 6) return false; iv = n.kids[0].body; sb = sb_of(n.kids[1]); return sb >= 0; }
    if (n.kids.size() != 1 || n.kids[0].tag != 4 || n.kids[0].body.size() != (size_t)a.ivlen + 8) return false; iv = sub(n.kids[0].body, 0, a.ivlen); return true;
}
Bytes cref(int alg, int sb, const Bytes &key, const Bytes &iv, bool enc, const Bytes &in) { const CipherAlg &a = calg(alg); return ref_cipher(a, sb, a.mode == CM_ACPKM ? (a.kuz ? 256 * 1024 : 8192) : 1, key, iv, enc, in); }
// well-formed DER of the right shape whose contents cannot be parameters of this cipher: must be refused
bool dec_cp_size(int alg, const Bytes &b, Bytes &) {
    const CipherAlg &a = calg(alg); Node n; if (!parse(b, n) || n.tag != 0x30 || n.kids.empty() || n.kids[0].tag != 4) return false;
    if (pcs[alg].kind == 0) return n.kids.size() == 2 && n.kids[1].tag == 6 && ((int)n.kids[0].body.size() != a.ivlen || sb_of(n.kids[1]) < 0);
    return n.kids.size() == 1 && n.kids[0].body.size() != (size_t)a.ivlen + 8;
}
void gen_cp(Rng &r, Plan &p, bool th) {
    int n = 3 + r.below(th ? 20 : 8); bool faults = r.chance(1, 2); auto num = [&] { return (long long)(r.next() >> 40); };
    for (int i = 0; i < n; i++) {
        long long f = r.below(4); p.add("setting", { (long long)r.below(6) });
        p.add("send", { f, (long long)r.below(6), num(), r.chance(1, 5) ? (long long)r.below(20000) : (long long)r.below(300), faults && r.chance(1, 3) ? 1 + (long long)r.below(3) : 0, (long long)r.below(8) });
        p.add("setting", { (long long)r.below(6) });
        for (int j = r.below(3); j > 0; j--) p.add("damage", { f, (long long)r.below(14), (long long)r.below(60), (long long)r.below(1 << 20), (long long)r.below(4) });
        for (int j = 1 + r.below(2); j > 0; j--) p.add("receive", { r.chance(2, 3) ? f : (long long)r.below(4), faults && r.chance(1, 3) ? 1 + (long long)r.below(3) : 0, (long long)r.below(8), (long long)r.below(3), (long long)r.below(2) });
    }
}
void exec_cp(const Plan &p, Ctx &c) {
    Msg Q[4]; int set = ref::S_Z; EVP_CIPHER_CTX *old[6] = {}; lib_engine();
    auto disarm = [&](int kind) { sim::Faults::disarm(); uint64_t f = kind ? sim::Faults::fired() : 0; if (f) { c.count(sim::al.failed ? "fault.allocation" : "fault.library_call"); c.nontrivial = true; } return f; };
    for (auto &o : p.ops) {
        if (o.k == "setting") { set = all_sb[o.mod(0, 6)]; if (ENGINE_ctrl_cmd_string(lib_engine(), "CRYPT_PARAMS", sbox_names[set], 0) != 1) c.violate("refused", "CRYPT_PARAMS refused"); }
        else if (o.k == "send") {
            Msg &m = Q[o.mod(0, 4)]; int al = o.mod(1, 6), fk = o.arg(4); const CipherAlg &a = calg(al); uint64_t s = mix64(p.seed, o.arg(2)); Msg t; t.alg = al; t.key = derive_bytes(s, 1, 32); t.iv = derive_bytes(s, 2, a.ivlen); t.pt = derive_bytes(s, 3, o.arg(3) % 20000 / a.block * a.block); c.op("send"); c.mixsig(1000 + al * 8 + set); c.mixsig(fk);
            t.sb = a.mode == CM_CFB89 || a.mode == CM_CBC89 ? set : !strcmp(a.sn, "gost89-cnt") ? ref::S_A : ref::S_Z;
            EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); ASN1_TYPE *ty = ASN1_TYPE_new(); Bytes out(t.pt.size() + 32); int l = 0, l2 = 0; uint8_t *q = NULL;
            if (EVP_EncryptInit_ex(x, eng_cipher(OBJ_sn2nid(a.sn)), lib_engine(), t.key.data(), t.iv.data()) != 1) c.violate("refused", "%s does not start", a.sn); EVP_CIPHER_CTX_set_padding(x, 0);
            if (fk) { sim::Faults::arm(fk, o.arg(5), 1); sim::al.engine_only = true; } bool ok = EVP_CIPHER_param_to_asn1(x, ty) > 0; uint64_t f = disarm(fk); std::string er = sim::err_text();
            if (!ok && !f) c.violate("refused", "the parameters of %s cannot be written: %s", a.sn, er.c_str());
            if (ok) {
                int n = i2d_ASN1_TYPE(ty, &q); if (n > 0) t.par.assign(q, q + n); OPENSSL_free(q); Bytes iv; int sb;
                if (!dec_cp(al, t.par, iv, sb) || iv != t.iv || (pcs[al].kind == 0 && sb != t.sb)) c.violate("wrong-bytes", "the parameters of %s with iv %s and S-box %s are %s", a.sn, hex(t.iv).c_str(), sbox_names[t.sb], hex(t.par).c_str());
                ok = EVP_EncryptUpdate(x, out.data(), &l, t.pt.data(), t.pt.size()) == 1 && EVP_EncryptFinal_ex(x, out.data() + l, &l2) == 1; out.resize(l + l2); t.ct = out;
                if (!ok && !t.pt.empty()) c.violate("refused", "%s does not encrypt after its parameters were written", a.sn);
                if (t.ct != cref(al, t.sb, t.key, t.iv, true, t.pt)) c.violate("wrong-data", "%s encrypts wrong after its parameters were written", a.sn);
                t.used = t.intact = true; m = t; c.count("sent");
            }
            ASN1_TYPE_free(ty); EVP_CIPHER_CTX_free(x);
        } else if (o.k == "damage") {
            Msg &m = Q[o.mod(0, 4)]; if (!m.used) continue; c.op("damage"); File f, g; f.used = g.used = true; f.b = m.par; g.b = Q[o.mod(4, 4)].par; damage(f, o.mod(1, 14), o.arg(2), o.arg(3), g); if (f.b == m.par) continue; m.par = f.b; m.intact = false; c.count("fault.storage"); c.nontrivial = true; c.mixsig(1200 + o.mod(1, 14)); c.mixsig(o.arg(2) % 60);
        } else if (o.k == "receive") {
            Msg &m = Q[o.mod(0, 4)]; if (!m.used) continue; const CipherAlg &a = calg(m.alg); int fk = o.arg(1); c.op("receive"); c.mixsig(1300 + m.alg * 2 + m.intact); c.mixsig(fk);
            const uint8_t *q = m.par.data(); ASN1_TYPE *ty = d2i_ASN1_TYPE(NULL, &q, m.par.size()); sim::err_text(); if (!ty) { c.count("altered_refused"); continue; }
            bool re = o.mod(3, 3) == 0 && old[m.alg]; EVP_CIPHER_CTX *x = re ? old[m.alg] : EVP_CIPHER_CTX_new(); if (re) { old[m.alg] = NULL; if (o.mod(4, 2)) EVP_CIPHER_CTX_reset(x); c.count("context_reused"); }
            bool ok = EVP_DecryptInit_ex(x, eng_cipher(OBJ_sn2nid(a.sn)), lib_engine(), NULL, NULL) == 1; if (!ok) c.violate("refused", "%s does not start", a.sn); EVP_CIPHER_CTX_set_padding(x, 0);
            if (fk) { sim::Faults::arm(fk, o.arg(2), 1); sim::al.engine_only = true; } ok = EVP_CIPHER_asn1_to_param(x, ty) > 0; uint64_t f = disarm(fk); std::string er = sim::err_text(); ASN1_TYPE_free(ty);
            Bytes iv; int sb = 0; bool def = dec_cp(m.alg, m.par, iv, sb);
            if (!ok) { if (m.intact && !f) c.violate("refused", "stored parameters of %s cannot be read back: %s", a.sn, er.c_str()); if (def && !f) c.violate("refused", "good parameters of %s are refused: %s", a.sn, er.c_str()); c.count(f ? "read_failed" : "altered_refused"); EVP_CIPHER_CTX_free(x); continue; }
            Bytes out(m.ct.size() + 32); int l = 0, l2 = 0; ok = EVP_DecryptInit_ex(x, NULL, NULL, m.key.data(), NULL) == 1 && EVP_DecryptUpdate(x, out.data(), &l, m.ct.data(), m.ct.size()) == 1 && EVP_DecryptFinal_ex(x, out.data() + l, &l2) == 1; out.resize(l + l2);
            c.count(m.intact ? "read_intact" : def ? "read_altered_definite" : "read_altered_lenient");
            if (m.ct.empty()) ok = true; else if (!ok) c.violate("refused", "%s does not decrypt with stored parameters: %s", a.sn, sim::err_text().c_str());
            if (m.intact && out != m.pt) c.violate("wrong-data", "%s with its stored parameters does not decrypt to what was encrypted", a.sn);
            if (def && out != cref(m.alg, pcs[m.alg].kind == 0 ? sb : (int)ref::S_Z, m.key, iv, false, m.ct)) c.violate("wrong-data", "%s with altered parameters (iv %s, S-box %s) does not decrypt by them", a.sn, hex(iv).c_str(), sbox_names[sb]);
            Bytes bad; if (!def && dec_cp_size(m.alg, m.par, bad)) c.violate("accepted", "%s took parameters %s", a.sn, hex(m.par).c_str());
            if (!old[m.alg]) old[m.alg] = x; else EVP_CIPHER_CTX_free(x);
        }
    }
    for (auto x : old) EVP_CIPHER_CTX_free(x);
}
RegScenario r2({ "C19", "params", 2, gen_cp, exec_cp, true });
RegScenario r1({ "C19", "keys", 5, gen, exec, true });
RegProp p1({ "C19", "fault-injection",
    "A run is a seeded history of making, writing, damaging and reading keys and parameters in every stored form, under changing format settings and with failing allocations and library calls; the key in memory is lost at a restart and only the files remain. Non-trivial: storage was damaged, a crafted file was read, or a fault fired.",
    { "the engine's key and parameter encoders and decoders, libcrypto's PEM, PKCS#8 and PBES2 code" }, { "storage (a byte vector with damage)", "random source", "memory allocator (engine's requests)", "libcrypto calls, when failing" }, { "PBES2 containers whose altered iteration count exceeds 600 are not tried" }, 3000, 100000 });
}
