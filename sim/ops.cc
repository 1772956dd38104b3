#include "ops.h"
#include "transport.h"
#include <functional>
#include <sstream>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/pkcs12.h>
extern "C" int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len, const unsigned char *key, size_t keylen,
    const unsigned char *label, size_t label_len, const unsigned char *seed, size_t seed_len, const size_t representation);
void OpObj::release() {
    EVP_MD_CTX_free(md); EVP_MD_CTX_free(md2); EVP_CIPHER_CTX_free(ci); EVP_CIPHER_CTX_free(ci2);
    EVP_PKEY_CTX_free(px); EVP_PKEY_CTX_free(px2); EVP_PKEY_free(k); EVP_PKEY_free(k2); ASN1_TYPE_free(ty);
    if (at) sk_X509_ATTRIBUTE_pop_free(at, X509_ATTRIBUTE_free);
    if (setting) ENGINE_ctrl(lib_engine(), ENGINE_CMD_BASE + setting - 1, 0, NULL, NULL);
    setting = 0;
    BIO_free_all(bio); CMS_ContentInfo_free(cms); PKCS8_PRIV_KEY_INFO_free(p8); X509_SIG_free(sig); OPENSSL_free(der);
    md = md2 = nullptr; ci = ci2 = nullptr; px = px2 = nullptr; k = k2 = nullptr; ty = nullptr; at = nullptr; bio = nullptr; cms = nullptr; p8 = nullptr; sig = nullptr; der = nullptr; reused = false;
}
namespace {
typedef const OpArgs A;
// drop results of an earlier attempt, keep contexts
void again(OpObj &o) {
    EVP_PKEY_free(o.k); EVP_PKEY_free(o.k2); o.k = o.k2 = nullptr;
    ASN1_TYPE_free(o.ty); o.ty = nullptr;
    if (o.at) sk_X509_ATTRIBUTE_pop_free(o.at, X509_ATTRIBUTE_free);
    o.at = nullptr; BIO_free_all(o.bio); o.bio = nullptr; CMS_ContentInfo_free(o.cms); o.cms = nullptr;
    PKCS8_PRIV_KEY_INFO_free(o.p8); o.p8 = nullptr; X509_SIG_free(o.sig); o.sig = nullptr; OPENSSL_free(o.der); o.der = nullptr;
}
#define T(x) do { if (!(x)) return false; } while (0)
EVP_MD_CTX *md(EVP_MD_CTX *&m) { if (!m) m = EVP_MD_CTX_new(); return m; }
EVP_CIPHER_CTX *ci(EVP_CIPHER_CTX *&m) { if (!m) m = EVP_CIPHER_CTX_new(); return m; }
void put(Bytes &o, const uint8_t *p, size_t n) { o.push_back(n >> 8); o.push_back(n); o.insert(o.end(), p, p + n); }
Bytes dat(A &a, int tag, size_t n) { return derive_bytes(a.seed, 0x0f500000 + tag, n); }
// ---- keys, made once
struct Mat { Key key, peer; EVP_PKEY *pub = nullptr, *peerpub = nullptr; Bytes spki, p8, blob[3], sig[2], params; bool has[3] = { 0, 0, 0 }; X509 *crt = nullptr; Bytes cms_sig, cms_env[4]; };
std::map<int, Mat *> mats_of[16];   // per simulated thread: threads share no objects
void combo(A &a, int &ka, int &cv) { ka = a.v[0] % 4; auto &c = ka_curves(ka); cv = c[a.v[1] % c.size()]; }
// recipients and signers of messages: the algorithms that CMS knows
void combo_cms(A &a, int &ka, int &cv) { ka = a.v[0] % 3; auto &c = ka_curves(ka); cv = c[a.v[1] % c.size()]; }
EVP_PKEY *only_pub(const Key &k) { return pub_import(k.ka, *k.cv, k.Q); }
Mat &mat(int ka, int cv) {
    Mat *&m = mats_of[sim::tid][ka * 64 + cv];
    if (m) return *m;
    m = new Mat(); const Curve &c = curve(cv);
    for (int i = 0; i < 2; i++) {
        Key &k = i ? m->peer : m->key;
        Bn d = Bn::be(derive_bytes(4242, ka * 64 + cv + 1000 * i, c.len)) % c.q;
        k.pk = key_import(ka, c, d); k.ka = ka; k.cv = &c; k.priv = true; if (k.pk) key_read(k.pk, k.d, k.Q);
    }
    m->pub = only_pub(m->key); m->peerpub = only_pub(m->peer);
    m->spki = pub_der(ka, c, c.pubLE(m->key.Q)); m->p8 = priv_der(ka, c, m->key.d.tole(c.len));
    return *m;
}
void mat_blob(Mat &m, int kind) {
    if (m.has[kind]) return; m.has[kind] = true;
    static const int nid[] = { NID_id_Gost28147_89, NID_magma_ctr, NID_kuznyechik_ctr };
    EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(m.pub, NULL); Bytes key = derive_bytes(77, kind, 32); uint8_t o[1024]; size_t l = sizeof o;
    if (EVP_PKEY_encrypt_init(x) == 1 && EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_CIPHER, nid[kind], NULL) > 0 && EVP_PKEY_encrypt(x, o, &l, key.data(), 32) == 1) m.blob[kind].assign(o, o + l);
    EVP_PKEY_CTX_free(x); ERR_clear_error();
}
Bytes op_digest(A &a, int len) { return derive_bytes(a.seed, 0x0f51, len); }
int klen(int ka) { return ka == KA_512 ? 64 : 32; }
void mat_sig(Mat &m, A &) {
    if (!m.sig[0].empty()) return;
    Bytes d = derive_bytes(4243, 1, klen(m.key.ka));
    m.sig[0] = ref::ec_sign(*m.key.cv, m.key.d, d, Bn(12345)); m.sig[1] = m.sig[0]; m.sig[1][5] ^= 1;
}
const EVP_MD *dig(int ka) { return eng_md(ka == KA_512 ? NID_id_GostR3411_2012_512 : ka == KA_256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_94); }
X509 *mat_crt(Mat &m) {
    if (m.crt) return m.crt;
    X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 7);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const uint8_t *)"t", 1, -1, 0); X509_set_issuer_name(x, X509_get_subject_name(x));
    ASN1_TIME_set(X509_getm_notBefore(x), 1600000000); ASN1_TIME_set(X509_getm_notAfter(x), 1900000000);
    X509_set_pubkey(x, m.key.pk); if (!X509_sign(x, m.key.pk, dig(m.key.ka))) { X509_free(x); x = NULL; }
    ERR_clear_error();
    return m.crt = x;
}
const EVP_CIPHER *env_cipher(unsigned i) {
    static const char *n[] = { "gost89", "gost89-cnt-12", "magma-ctr-acpkm", "kuznyechik-ctr-acpkm-omac" };
    return eng_cipher(OBJ_sn2nid(n[i % 4]));
}
Bytes cms_der(CMS_ContentInfo *c) { uint8_t *p = NULL; int n = i2d_CMS_ContentInfo(c, &p); Bytes b; if (n > 0) b.assign(p, p + n); OPENSSL_free(p); return b; }
void mat_cms(Mat &m, int which) {
    if (!mat_crt(m)) return;
    Bytes d = derive_bytes(4244, 1, 150);
    if (which < 0) { if (m.cms_sig.empty()) { BIO *b = BIO_new_mem_buf(d.data(), d.size()); CMS_ContentInfo *c = CMS_sign(m.crt, m.key.pk, NULL, b, CMS_BINARY | CMS_NOATTR); if (c) m.cms_sig = cms_der(c); CMS_ContentInfo_free(c); BIO_free(b); } }
    else if (m.cms_env[which].empty()) {
        STACK_OF(X509) *s = sk_X509_new_null(); sk_X509_push(s, m.crt); BIO *b = BIO_new_mem_buf(d.data(), d.size());
        CMS_ContentInfo *c = CMS_encrypt(s, b, env_cipher(which), CMS_BINARY); if (c) m.cms_env[which] = cms_der(c);
        CMS_ContentInfo_free(c); BIO_free(b); sk_X509_free(s);
    }
    ERR_clear_error();
}
// ---- operations
bool a_digest(OpObj &o, A &a, Bytes &out) {
    static const int n[] = { NID_id_GostR3411_94, NID_id_GostR3411_2012_256, NID_id_GostR3411_2012_512 };
    Bytes d = dat(a, 1, a.v[2] % 400); size_t h = d.size() / 3; uint8_t b[64]; unsigned l;
    T(md(o.md) && md(o.md2) && EVP_DigestInit_ex(o.md, eng_md(n[a.v[0] % 3]), lib_engine()) == 1 && EVP_DigestUpdate(o.md, d.data(), h) == 1);
    T(EVP_MD_CTX_copy_ex(o.md2, o.md) == 1);
    T(EVP_DigestUpdate(o.md2, &d[h] - 0 + 0, d.size() - h) == 1 && EVP_DigestUpdate(o.md, d.data(), h) == 1);
    T(EVP_DigestFinal_ex(o.md2, b, &l) == 1); put(out, b, l);
    T(EVP_DigestFinal_ex(o.md, b, &l) == 1); put(out, b, l);
    return true;
}
bool upd(EVP_CIPHER_CTX *c, Bytes d, size_t pieces, Bytes &acc) {
    size_t off = 0, n = d.size() / (pieces ? pieces : 1) + 1; Bytes b(d.size() + 64); int l;
    while (off < d.size()) { size_t k = std::min(n, d.size() - off); l = 0; T(EVP_CipherUpdate(c, b.data(), &l, &d[off], k) == 1); acc.insert(acc.end(), b.begin(), b.begin() + l); off += k; }
    return true;
}
bool a_cipher(OpObj &o, A &a, Bytes &out) {
    const CipherAlg &g = cipher_algs[a.v[0] % n_cipher_algs]; int enc = a.v[3] & 1; Bytes key = dat(a, 1, 32), iv = dat(a, 2, 16), d = dat(a, 3, 16 * (1 + a.v[2] % 20)), r1, r2; uint8_t b[64]; int l;
    const EVP_CIPHER *c = eng_cipher(OBJ_sn2nid(g.sn));
    T(ci(o.ci) && ci(o.ci2));
    if (o.reused && (a.v[3] & 8)) EVP_CIPHER_CTX_reset(o.ci);
    if (a.v[3] & 2) T(EVP_CipherInit_ex(o.ci, c, lib_engine(), NULL, NULL, enc) == 1 && EVP_CipherInit_ex(o.ci, NULL, NULL, key.data(), iv.data(), enc) == 1);
    else T(EVP_CipherInit_ex(o.ci, c, lib_engine(), key.data(), iv.data(), enc) == 1);
    EVP_CIPHER_CTX_set_padding(o.ci, 0);
    if (g.mode == CM_ACPKM && (a.v[3] & 4)) T(EVP_CIPHER_CTX_ctrl(o.ci, EVP_CTRL_KEY_MESH, 64, NULL) > 0);
    T(upd(o.ci, sub(d, 0, d.size() / 2), 2, r1)); r2 = r1;
    T(EVP_CIPHER_CTX_copy(o.ci2, o.ci) == 1);
    T(upd(o.ci2, sub(d, d.size() / 2, d.size() - d.size() / 2), 3, r2) && EVP_CipherFinal_ex(o.ci2, b, &l) == 1); r2.insert(r2.end(), b, b + l);
    T(upd(o.ci, d, 1, r1)); l = 0;
    T(EVP_CipherFinal_ex(o.ci, b, &l) == 1); r1.insert(r1.end(), b, b + l);
    put(out, r1.data(), r1.size()); put(out, r2.data(), r2.size());
    return true;
}
bool a_mgm(OpObj &o, A &a, Bytes &out) {
    bool kuz = a.v[0] & 1; int n = kuz ? 16 : 8, l; Bytes key = dat(a, 1, 32), iv = dat(a, 2, n), aad = dat(a, 3, a.v[1] % 40), d = dat(a, 4, 1 + a.v[2] % 90), x, y; uint8_t t[16], b[64]; iv[0] &= 0x7f;
    const EVP_CIPHER *c = eng_cipher(OBJ_sn2nid(kuz ? "kuznyechik-mgm" : "magma-mgm"));
    T(ci(o.ci) && EVP_EncryptInit_ex(o.ci, c, lib_engine(), key.data(), iv.data()) == 1);
    T(aad.empty() || EVP_EncryptUpdate(o.ci, NULL, &l, aad.data(), aad.size()) == 1);
    T(upd(o.ci, d, 2, x) && EVP_EncryptFinal_ex(o.ci, b, &l) == 1 && EVP_CIPHER_CTX_ctrl(o.ci, EVP_CTRL_AEAD_GET_TAG, n, t) > 0);
    put(out, x.data(), x.size()); put(out, t, n);
    if (a.v[3] % 3 == 0) t[1] ^= 4;
    T(ci(o.ci2) && EVP_DecryptInit_ex(o.ci2, c, lib_engine(), key.data(), iv.data()) == 1 && EVP_CIPHER_CTX_ctrl(o.ci2, EVP_CTRL_AEAD_SET_TAG, n, t) > 0);
    T(aad.empty() || EVP_DecryptUpdate(o.ci2, NULL, &l, aad.data(), aad.size()) == 1);
    T(upd(o.ci2, x, 3, y) && EVP_DecryptFinal_ex(o.ci2, b, &l) == 1);
    put(out, y.data(), y.size());
    return true;
}
bool a_acpkm_omac(OpObj &o, A &a, Bytes &out) {
    again(o);
    bool kuz = a.v[0] & 1; int l; Bytes key = dat(a, 1, 32), iv = dat(a, 2, 16), d = dat(a, 4, 16 + a.v[2] % 200), x, y; uint8_t b[64];
    const EVP_CIPHER *c = eng_cipher(OBJ_sn2nid(kuz ? "kuznyechik-ctr-acpkm-omac" : "magma-ctr-acpkm-omac"));
    T(ci(o.ci) && EVP_EncryptInit_ex(o.ci, c, lib_engine(), key.data(), iv.data()) == 1);
    o.ty = ASN1_TYPE_new(); o.at = sk_X509_ATTRIBUTE_new_null();
    T(upd(o.ci, d, 2, x)); T(EVP_EncryptFinal_ex(o.ci, b, &l) == 1);
    T(EVP_CIPHER_param_to_asn1(o.ci, o.ty) > 0 && EVP_CIPHER_CTX_ctrl(o.ci, EVP_CTRL_PROCESS_UNPROTECTED, 1, o.at) > 0);
    put(out, x.data(), x.size());
    if (a.v[3] % 3 == 0) x[0] ^= 1;
    if (o.ci2) EVP_CIPHER_CTX_reset(o.ci2);
    T(ci(o.ci2) && EVP_DecryptInit_ex(o.ci2, c, lib_engine(), NULL, NULL) == 1 && EVP_CIPHER_asn1_to_param(o.ci2, o.ty) > 0 && EVP_DecryptInit_ex(o.ci2, NULL, NULL, key.data(), NULL) == 1);
    T(EVP_CIPHER_CTX_ctrl(o.ci2, EVP_CTRL_PROCESS_UNPROTECTED, 0, o.at) > 0);
    T(upd(o.ci2, x, 3, y) && EVP_DecryptFinal_ex(o.ci2, b, &l) == 1);
    put(out, y.data(), y.size());
    return true;
}
bool a_kexp(OpObj &o, A &a, Bytes &out) {
    bool kuz = a.v[0] & 1; Bytes kk = dat(a, 1, 64), iv = dat(a, 2, kuz ? 8 : 4), cek = dat(a, 3, 32), y; uint8_t b[128]; int l = 0;
    Bytes w = ref::kexp15(kuz, cek, sub(kk, 32, 32), sub(kk, 0, 32), iv);
    if (a.v[3] % 4 == 0) w[a.v[1] % w.size()] ^= 1;
    T(ci(o.ci)); EVP_CIPHER_CTX_set_flags(o.ci, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
    T(EVP_DecryptInit_ex(o.ci, eng_cipher(OBJ_sn2nid(kuz ? "kuznyechik-kexp15" : "magma-kexp15")), lib_engine(), kk.data(), iv.data()) == 1);
    T(upd(o.ci, w, 1 + a.v[2] % 3, y) && EVP_DecryptFinal_ex(o.ci, b, &l) == 1); y.insert(y.end(), b, b + std::max(l, 0));
    T(!y.empty()); put(out, y.data(), y.size());
    return true;
}
bool a_tlstree(OpObj &o, A &a, Bytes &out) {
    bool kuz = a.v[0] & 1; Bytes key = dat(a, 1, 32), iv = dat(a, 2, 8), d = dat(a, 3, 1 + a.v[2] % 60); uint8_t s[8] = { 0, 0, 0, 0, (uint8_t)(a.v[1] >> 16), (uint8_t)(a.v[1] >> 8), (uint8_t)a.v[1], 5 };
    T(ci(o.ci)); EVP_CIPHER_CTX_reset(o.ci);
    T(EVP_EncryptInit_ex(o.ci, eng_cipher(OBJ_sn2nid(kuz ? "kuznyechik-ctr" : "magma-ctr")), lib_engine(), key.data(), iv.data()) == 1);
    for (int i = 0; i < 2; i++) { Bytes x; s[7]++; T(EVP_CIPHER_CTX_ctrl(o.ci, EVP_CTRL_TLSTREE, 0, s) > 0 && upd(o.ci, d, 1, x)); put(out, x.data(), x.size()); }
    // the MAC of the same records
    int t = kuz ? NID_grasshopper_mac : NID_magma_mac; uint8_t m[16]; size_t ml = 16;
    again(o); o.k = EVP_PKEY_new_mac_key(t, lib_engine(), key.data(), 32); T(o.k && md(o.md) && md(o.md2)); EVP_MD_CTX_reset(o.md);
    T(EVP_DigestSignInit(o.md, NULL, eng_md(t), lib_engine(), o.k) == 1 && EVP_MD_CTX_copy_ex(o.md2, o.md) == 1);
    T(EVP_MD_CTX_ctrl(o.md2, EVP_MD_CTRL_TLSTREE, 0, s) > 0 && EVP_DigestSignUpdate(o.md2, d.data(), d.size()) == 1 && EVP_DigestSignFinal(o.md2, m, &ml) == 1);
    put(out, m, ml);
    return true;
}
const char *mac_sn[] = { "gost-mac", "gost-mac-12", "magma-mac", "kuznyechik-mac", "kuznyechik-ctr-acpkm-omac" };
bool a_mac(OpObj &o, A &a, Bytes &out) {
    again(o);
    int i = a.v[0] % 5; int nid = OBJ_sn2nid(mac_sn[i]), type = i == 4 ? NID_grasshopper_mac : nid; Bytes key = dat(a, 1, 32), d = dat(a, 2, a.v[2] % 2100); uint8_t t[16]; size_t l = 16;
    int how = a.v[3] % 4;
    if (how == 0) o.k = EVP_PKEY_new_mac_key(type, lib_engine(), key.data(), 32);
    else {
        EVP_PKEY_CTX_free(o.px); o.px = EVP_PKEY_CTX_new_id(type, lib_engine()); T(o.px && EVP_PKEY_keygen_init(o.px) == 1);
        T(EVP_PKEY_CTX_ctrl_str(o.px, how == 1 ? "hexkey" : "key", how == 1 ? hex(key).c_str() : "0123456789abcdefghijklmnopqrstuv") == 1);
        if (how == 3) T(EVP_PKEY_CTX_ctrl_str(o.px, "size", i < 2 ? "6" : "7") == 1);
        T(EVP_PKEY_keygen(o.px, &o.k) == 1);
    }
    T(o.k && md(o.md) && md(o.md2)); EVP_MD_CTX_reset(o.md); size_t h = d.size() / 3;
    T(EVP_DigestSignInit(o.md, NULL, eng_md(nid), lib_engine(), o.k) == 1 && EVP_DigestSignUpdate(o.md, d.data(), h) == 1);
    T(EVP_MD_CTX_copy_ex(o.md2, o.md) == 1 && EVP_DigestSignUpdate(o.md2, d.data() + h, d.size() - h) == 1);
    T(EVP_DigestSignFinal(o.md2, t, &l) == 1); put(out, t, l);
    l = 16; T(EVP_DigestSignFinal(o.md, t, &l) == 1); put(out, t, l);
    return true;
}
bool a_rawmac(OpObj &o, A &a, Bytes &out) {
    int i = a.v[0] % 5; Bytes key = dat(a, 1, 32), d = dat(a, 2, a.v[2] % 2100); uint8_t t[16]; int sz = 1 + a.v[1] % (i < 3 ? 8 : 16);
    T(md(o.md)); EVP_MD_CTX_reset(o.md);
    T(EVP_DigestInit_ex(o.md, eng_md(OBJ_sn2nid(mac_sn[i])), lib_engine()) == 1 && EVP_MD_CTX_ctrl(o.md, EVP_MD_CTRL_SET_KEY, 32, key.data()) == 1);
    if (i == 4 && (a.v[3] & 1)) T(EVP_MD_CTX_ctrl(o.md, EVP_CTRL_KEY_MESH, 64, NULL) > 0);
    T(EVP_DigestUpdate(o.md, d.data(), d.size()) == 1 && EVP_DigestFinalXOF(o.md, t, sz) == 1); put(out, t, sz);
    return true;
}
bool a_hmac(OpObj &o, A &a, Bytes &out) {
    again(o);
    Bytes key = dat(a, 1, 32), d = dat(a, 2, a.v[2] % 300); uint8_t t[64]; size_t l = 64; static const int n[] = { NID_id_GostR3411_94, NID_id_GostR3411_2012_256, NID_id_GostR3411_2012_512 };
    o.k = EVP_PKEY_new_raw_private_key(EVP_PKEY_HMAC, NULL, key.data(), 32); T(o.k && md(o.md)); EVP_MD_CTX_reset(o.md);
    T(EVP_DigestSignInit(o.md, NULL, eng_md(n[a.v[0] % 3]), NULL, o.k) == 1 && EVP_DigestSignUpdate(o.md, d.data(), d.size()) == 1 && EVP_DigestSignFinal(o.md, t, &l) == 1);
    put(out, t, l); return true;
}
bool a_randkey(OpObj &o, A &a, Bytes &out) {
    static const char *n[] = { "gost89", "gost89-cbc", "magma-ctr", "magma-cbc", "kuznyechik-ctr-acpkm", "kuznyechik-cfb", "magma-mgm", "kuznyechik-mgm" }; uint8_t k[64];
    memset(k, 0, sizeof k);
    T(ci(o.ci)); EVP_CIPHER_CTX_reset(o.ci);
    T(EVP_CipherInit_ex(o.ci, eng_cipher(OBJ_sn2nid(n[a.v[0] % 8])), lib_engine(), NULL, NULL, 1) == 1 && EVP_CIPHER_CTX_rand_key(o.ci, k) > 0);
    put(out, k, 32); return true;
}
void keyout(EVP_PKEY *k, Bytes &out) {
    Bn d; Pt Q; bool p = key_read(k, d, Q); const EC_KEY *ec = (const EC_KEY *)EVP_PKEY_get0(k);
    int n = EC_GROUP_get_curve_name(EC_KEY_get0_group(ec)); put(out, (uint8_t *)&n, 4);
    Bytes x = d.tole(64); if (p) put(out, x.data(), 64);
    if (!Q.inf) { x = cat(Q.x.tole(64), Q.y.tole(64)); put(out, x.data(), 128); }
}
bool a_keygen(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo(a, ka, cv); const Curve &c = curve(cv);
    EVP_PKEY_CTX_free(o.px); EVP_PKEY_CTX_free(o.px2); o.px2 = NULL; o.px = EVP_PKEY_CTX_new_id(ka_nid(ka), lib_engine()); T(o.px);
    if (a.v[3] & 1) { // parameters first
        T(EVP_PKEY_paramgen_init(o.px) == 1 && EVP_PKEY_CTX_ctrl(o.px, -1, -1, SIM_PKEY_CTRL_GOST_PARAMSET, c.nid, NULL) > 0 && EVP_PKEY_paramgen(o.px, &o.k2) == 1);
        o.px2 = EVP_PKEY_CTX_new(o.k2, NULL);
        T(o.px2 && EVP_PKEY_keygen_init(o.px2) == 1 && EVP_PKEY_keygen(o.px2, &o.k) == 1);
    } else
        T(EVP_PKEY_keygen_init(o.px) == 1 && EVP_PKEY_CTX_ctrl(o.px, -1, -1, SIM_PKEY_CTRL_GOST_PARAMSET, c.nid, NULL) > 0 && EVP_PKEY_keygen(o.px, &o.k) == 1);
    keyout(o.k, out);
    return true;
}
bool a_sign(OpObj &o, A &a, Bytes &out) {
    int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv); uint8_t s[160]; size_t l = sizeof s; Bytes d = op_digest(a, klen(ka));
    if (a.v[3] & 1) { // digest-and-sign
        again(o); T(md(o.md)); EVP_MD_CTX_reset(o.md);
        T(EVP_DigestSignInit(o.md, NULL, dig(ka), lib_engine(), m.key.pk) == 1 && EVP_DigestSignUpdate(o.md, d.data(), d.size()) == 1 && EVP_DigestSignFinal(o.md, s, &l) == 1);
    } else {
        if (!o.px) o.px = EVP_PKEY_CTX_new(m.key.pk, NULL);
        T(o.px && EVP_PKEY_sign_init(o.px) == 1 && EVP_PKEY_sign(o.px, s, &l, d.data(), d.size()) == 1);
    }
    put(out, s, l); return true;
}
bool a_verify(OpObj &o, A &a, Bytes &out) {
    int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv); Bytes d = derive_bytes(4243, 1, klen(ka)); const Bytes &s = m.sig[a.v[3] % 3 == 0];
    if (!o.px) o.px = EVP_PKEY_CTX_new(m.pub, NULL);
    T(o.px && EVP_PKEY_verify_init(o.px) == 1 && EVP_PKEY_verify(o.px, s.data(), s.size(), d.data(), d.size()) == 1);
    put(out, s.data(), 1); return true;
}
bool a_derive(OpObj &o, A &a, Bytes &out) {
    int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv); int md = a.v[3] % 4; if (md == 3 && ka != KA_256 && ka != KA_512) md = 2; Bytes u = dat(a, 1, md < 2 ? 16 : md == 2 ? 8 : 32); uint8_t s[64]; size_t l = 64;
    if (!o.px) { o.px = EVP_PKEY_CTX_new(m.key.pk, NULL); }
    T(o.px && EVP_PKEY_derive_init(o.px) == 1 && EVP_PKEY_derive_set_peer(o.px, m.peerpub) == 1 && EVP_PKEY_CTX_ctrl(o.px, -1, -1, EVP_PKEY_CTRL_SET_IV, u.size(), u.data()) > 0);
    if (md < 2) T(EVP_PKEY_CTX_ctrl(o.px, -1, EVP_PKEY_OP_DERIVE, SIM_PKEY_CTRL_SET_VKO, md ? NID_id_GostR3411_2012_512 : NID_id_GostR3411_2012_256, NULL) > 0);
    T(EVP_PKEY_derive(o.px, s, &l) == 1); put(out, s, l); return true;
}
bool a_transport(OpObj &o, A &a, Bytes &out) {
    static const int nid[] = { NID_id_Gost28147_89, NID_magma_ctr, NID_kuznyechik_ctr };
    int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv); int kind = ka == KA_256 || ka == KA_512 ? a.v[3] % 3 : 0; Bytes key = dat(a, 1, 32), u = dat(a, 2, kind ? 32 : 8); uint8_t b[1024]; size_t l = sizeof b;
    if (!o.px) o.px = EVP_PKEY_CTX_new(m.pub, NULL);
    T(o.px && EVP_PKEY_encrypt_init(o.px) == 1 && EVP_PKEY_CTX_ctrl(o.px, -1, -1, EVP_PKEY_CTRL_CIPHER, nid[kind], NULL) > 0);
    if (a.v[2] & 1) T(EVP_PKEY_CTX_ctrl(o.px, -1, -1, EVP_PKEY_CTRL_SET_IV, u.size(), u.data()) > 0);
    if ((a.v[2] & 6) == 6 && kind == 0) T(EVP_PKEY_derive_set_peer(o.px, m.peer.pk) == 1);
    if (a.v[2] & 8) { size_t q = 0; T(EVP_PKEY_encrypt(o.px, NULL, &q, key.data(), 32) == 1); }
    l = sizeof b; T(EVP_PKEY_encrypt(o.px, b, &l, key.data(), 32) == 1); put(out, b, l); return true;
}
bool a_untransport(OpObj &o, A &a, Bytes &out) {
    static const int nid[] = { NID_id_Gost28147_89, NID_magma_ctr, NID_kuznyechik_ctr };
    int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv); int kind = ka == KA_256 || ka == KA_512 ? a.v[3] % 3 : 0; Bytes in = m.blob[kind]; uint8_t b[64]; size_t l = sizeof b; memset(b, 0xEE, sizeof b);
    if (a.v[2] % 4 == 0) in[a.v[2] / 4 % in.size()] ^= 1 << a.v[2] % 8;
    if (!o.px) o.px = EVP_PKEY_CTX_new(m.key.pk, NULL);
    T(o.px && EVP_PKEY_decrypt_init(o.px) == 1 && EVP_PKEY_CTX_ctrl(o.px, -1, -1, EVP_PKEY_CTRL_CIPHER, nid[kind], NULL) > 0);
    T(EVP_PKEY_decrypt(o.px, b, &l, in.data(), in.size()) == 1); put(out, b, l); return true;
}
bool a_encode(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv); int n;
    switch (a.v[3] % 5) {
    case 0: n = i2d_PUBKEY(a.v[2] & 1 ? m.key.pk : m.pub, &o.der); T(n > 0); put(out, o.der, n); break;
    case 1: o.p8 = EVP_PKEY2PKCS8(m.key.pk); T(o.p8); n = i2d_PKCS8_PRIV_KEY_INFO(o.p8, &o.der); T(n > 0); put(out, o.der, n); break;
    case 2: n = i2d_KeyParams(m.key.pk, &o.der); T(n > 0); put(out, o.der, n); break;
    case 3: {
        o.bio = BIO_new(BIO_s_mem()); T(o.bio);
        T((a.v[2] % 3 == 0 ? EVP_PKEY_print_private(o.bio, m.key.pk, 2, NULL) : a.v[2] % 3 == 1 ? EVP_PKEY_print_public(o.bio, m.pub, 0, NULL) : EVP_PKEY_print_params(o.bio, m.key.pk, 1, NULL)) > 0);
        char *p; long l = BIO_get_mem_data(o.bio, &p); put(out, (uint8_t *)p, l); break; }
    case 4: { // legacy export of the private key
        n = i2d_PrivateKey(m.key.pk, &o.der); T(n > 0); put(out, o.der, n); break; }
    }
    return true;
}
bool a_decode(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv); const uint8_t *p;
    switch (a.v[3] % 3) {
    case 0: p = m.spki.data(); o.k = d2i_PUBKEY(NULL, &p, m.spki.size()); break;
    case 1: p = m.p8.data(); o.p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, m.p8.size()); T(o.p8); o.k = EVP_PKCS82PKEY(o.p8); break;
    case 2: p = m.params.data(); o.k = d2i_KeyParams(ka_nid(ka), NULL, &p, m.params.size()); break;
    }
    T(o.k); keyout(o.k, out);
    uint8_t s[4] = { (uint8_t)EVP_PKEY_size(o.k), (uint8_t)(EVP_PKEY_bits(o.k) / 8), (uint8_t)EVP_PKEY_missing_parameters(o.k), (uint8_t)EVP_PKEY_parameters_eq(o.k, m.pub) }; put(out, s, 4);
    if (a.v[3] % 3 < 2) { uint8_t e = EVP_PKEY_eq(o.k, m.pub); put(out, &e, 1); }
    return true;
}
bool a_copyparams(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv);
    const uint8_t *p = m.params.data(); o.k = d2i_KeyParams(ka_nid(ka), NULL, &p, m.params.size()); T(o.k);
    o.k2 = EVP_PKEY_new(); T(o.k2 && EVP_PKEY_set_type(o.k2, ka_nid(ka)) == 1);
    T(EVP_PKEY_copy_parameters(o.k2, o.k) == 1); keyout(o.k2, out);
    return true;
}
bool a_cparams(OpObj &o, A &a, Bytes &out) {
    again(o); static const char *nm[] = { "gost89", "gost89-cnt", "gost89-cnt-12", "gost89-cbc", "magma-ctr-acpkm", "kuznyechik-ctr-acpkm", "magma-ctr-acpkm-omac", "kuznyechik-ctr-acpkm-omac" };
    const EVP_CIPHER *c = eng_cipher(OBJ_sn2nid(nm[a.v[0] % 8])); Bytes key = dat(a, 1, 32), iv = dat(a, 2, 16), d = dat(a, 3, 64), x, y;
    T(ci(o.ci) && ci(o.ci2)); EVP_CIPHER_CTX_reset(o.ci); EVP_CIPHER_CTX_reset(o.ci2);
    T(EVP_EncryptInit_ex(o.ci, c, lib_engine(), key.data(), iv.data()) == 1); o.ty = ASN1_TYPE_new(); T(EVP_CIPHER_param_to_asn1(o.ci, o.ty) > 0);
    int n = i2d_ASN1_TYPE(o.ty, &o.der); T(n > 0); put(out, o.der, n);
    T(EVP_DecryptInit_ex(o.ci2, c, lib_engine(), NULL, NULL) == 1 && EVP_CIPHER_asn1_to_param(o.ci2, o.ty) > 0 && EVP_DecryptInit_ex(o.ci2, NULL, NULL, key.data(), NULL) == 1);
    EVP_CIPHER_CTX_set_padding(o.ci, 0); EVP_CIPHER_CTX_set_padding(o.ci2, 0);
    T(upd(o.ci, d, 2, x) && upd(o.ci2, x, 1, y)); put(out, x.data(), x.size()); put(out, y.data(), y.size());
    return true;
}
bool a_kdf(OpObj &, A &a, Bytes &out) {
    uint8_t b[128]; Bytes k = dat(a, 1, 32), l = dat(a, 2, 8), s = dat(a, 3, 8); size_t n = 32 * (1 + a.v[0] % 4);
    T(gost_kdftree2012_256(b, n, k.data(), 32, l.data(), 8, s.data(), 8, 1) > 0); put(out, b, n); return true;
}
bool a_setting(OpObj &o, A &a, Bytes &out) {
    static const char *cmd[] = { "CRYPT_PARAMS", "PBE_PARAMS", "GOST_PK_FORMAT" }, *val[] = { "id-Gost28147-89-CryptoPro-B-ParamSet", "md_gost12_256", "LEGACY_PK_WRAP" }; int i = a.v[0] % 3; o.setting = i + 1;
    T(ENGINE_ctrl_cmd_string(lib_engine(), cmd[i], val[i], 0) == 1); put(out, (uint8_t *)&i, 4); return true;
}
bool a_pbe(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv); static const char *nm[] = { "gost89", "magma-ctr-acpkm", "kuznyechik-ctr-acpkm" }; Bytes salt = dat(a, 1, 8); const uint8_t *p = m.p8.data();
    o.p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, m.p8.size()); T(o.p8);
    const EVP_CIPHER *c = eng_cipher(OBJ_sn2nid(nm[a.v[3] % 3]));
    o.sig = PKCS8_encrypt(-1, c, "pw", 2, salt.data(), 8, 3, o.p8); T(o.sig);
    int n = i2d_X509_SIG(o.sig, &o.der); T(n > 0); put(out, o.der, n);
    PKCS8_PRIV_KEY_INFO_free(o.p8); o.p8 = PKCS8_decrypt(o.sig, "pw", 2); T(o.p8);
    OPENSSL_free(o.der); o.der = NULL; n = i2d_PKCS8_PRIV_KEY_INFO(o.p8, &o.der); T(n > 0); put(out, o.der, n);
    return true;
}
bool a_cms_sign(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo_cms(a, ka, cv); Mat &m = mat(ka, cv); Bytes d = dat(a, 1, 150); T(m.crt);
    o.bio = BIO_new_mem_buf(d.data(), d.size()); o.cms = CMS_sign(m.crt, m.key.pk, NULL, o.bio, CMS_BINARY | CMS_NOATTR); T(o.cms);
    Bytes x = cms_der(o.cms); T(!x.empty()); put(out, x.data(), x.size()); return true;
}
bool a_cms_verify(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo_cms(a, ka, cv); Mat &m = mat(ka, cv); Bytes x = m.cms_sig; T(!x.empty()); if (a.v[3] % 3 == 0) x[x.size() - 3] ^= 1;
    const uint8_t *p = x.data(); o.cms = d2i_CMS_ContentInfo(NULL, &p, x.size()); T(o.cms); o.bio = BIO_new(BIO_s_mem()); T(o.bio);
    T(CMS_verify(o.cms, NULL, NULL, NULL, o.bio, CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY) == 1);
    char *q; long l = BIO_get_mem_data(o.bio, &q); put(out, (uint8_t *)q, l); return true;
}
bool a_cms_encrypt(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo_cms(a, ka, cv); Mat &m = mat(ka, cv); Bytes d = dat(a, 1, 150); T(m.crt);
    STACK_OF(X509) *s = sk_X509_new_null(); sk_X509_push(s, m.crt); o.bio = BIO_new_mem_buf(d.data(), d.size());
    o.cms = CMS_encrypt(s, o.bio, env_cipher(a.v[3]), CMS_BINARY); sk_X509_free(s); T(o.cms);
    Bytes x = cms_der(o.cms); T(!x.empty()); put(out, x.data(), x.size()); return true;
}
bool a_cms_decrypt(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo_cms(a, ka, cv); Mat &m = mat(ka, cv); Bytes x = m.cms_env[a.v[3] % 4]; T(!x.empty());
    const uint8_t *p = x.data(); o.cms = d2i_CMS_ContentInfo(NULL, &p, x.size()); T(o.cms); o.bio = BIO_new(BIO_s_mem()); T(o.bio);
    T(CMS_decrypt(o.cms, m.key.pk, m.crt, NULL, o.bio, CMS_BINARY | CMS_DEBUG_DECRYPT) == 1); // without it libcrypto answers a failed key transport with a random key
    char *q; long l = BIO_get_mem_data(o.bio, &q); T(l == 150); // libcrypto's cipher filter ends the data early, without an error, when an update fails
    put(out, (uint8_t *)q, l); return true;
}
bool a_cert(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo_cms(a, ka, cv); Mat &m = mat(ka, cv); T(m.crt);
    X509 *x = X509_dup(m.crt); bool ok = x && X509_verify(x, m.pub) == 1; EVP_PKEY *k = ok ? X509_get_pubkey(x) : NULL; ok = ok && k && EVP_PKEY_eq(k, m.pub) == 1; EVP_PKEY_free(k); X509_free(x);
    T(ok); put(out, (uint8_t *)"ok", 2); return true;
}
}
// private keys in every form that is read, also ones that are refused
Bytes stored_body(A &a, Mat &m) {
    const Curve &cv = *m.key.cv; int n = cv.len; Bytes le = m.key.d.tole(n), be = m.key.d.tobe(n); Bn k = Bn(3 + a.v[2] % 5), x = m.key.d * modinv(k, cv.q) % cv.q;
    while (be.size() > 1 && !be[0] && !(be[1] & 0x80)) be.erase(be.begin()); if (be[0] & 0x80) be.insert(be.begin(), 0);
    Bytes pub = der(4, cv.pubLE(m.key.Q));
    switch (a.v[3] % 8) {
    case 0: return le;
    case 1: return der(2, be);
    case 2: return cat(x.tole(n), k.tole(n));
    case 3: return der(0x30, cat(der(4, le), pub));
    case 4: return der(0x30, cat(der(4, cat(x.tole(n), k.tole(n))), pub));
    case 5: return der(4, cat(le, Bytes{ 7 }));            // refused: a byte too many
    case 6: return der(0x30, cat(der(4, cat(le, Bytes{ 7 })), pub));
    default: return der(4, le);
    }
}
bool a_stored(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv; combo(a, ka, cv); Mat &m = mat(ka, cv); Bytes x = p8_der(ka, *m.key.cv, stored_body(a, m)); const uint8_t *p = x.data();
    o.p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, x.size()); T(o.p8); o.k = EVP_PKCS82PKEY(o.p8); T(o.k); keyout(o.k, out); return true;
}
bool a_legacy(OpObj &o, A &a, Bytes &out) {
    again(o); int ka, cv, n; combo(a, ka, cv); Mat &m = mat(ka, cv); o.setting = 3;
    T(ENGINE_ctrl_cmd_string(lib_engine(), "GOST_PK_FORMAT", "LEGACY_PK_WRAP", 0) == 1);
    o.p8 = EVP_PKEY2PKCS8(m.key.pk); T(o.p8); n = i2d_PKCS8_PRIV_KEY_INFO(o.p8, &o.der); T(n > 0); put(out, o.der, n); return true;
}
const EngOp eng_ops[] = {
    { "digest", RN_NONE, a_digest, 2, true }, { "cipher", RN_MASK, a_cipher, 4, true }, { "mgm", RN_MASK, a_mgm, 2, true },
    { "acpkm_omac", RN_NEEDS, a_acpkm_omac, 3, true }, { "kexp15", RN_MASK, a_kexp, 2, true }, { "tlstree", RN_MASK, a_tlstree, 2, true },
    { "mac", RN_MASK, a_mac, 4, true }, { "raw_mac", RN_MASK, a_rawmac, 2, true }, { "hmac", RN_NONE, a_hmac, 1, true },
    { "rand_key", RN_NEEDS, a_randkey, 1, true }, { "keygen", RN_NEEDS, a_keygen, 4, true }, { "sign", RN_NEEDS, a_sign, 4, true },
    { "verify", RN_NONE, a_verify, 3, true }, { "derive", RN_NONE, a_derive, 4, true }, { "transport", RN_NEEDS, a_transport, 5, true },
    { "untransport", RN_MASK, a_untransport, 5, true }, { "encode", RN_NONE, a_encode, 4, true }, { "decode", RN_NONE, a_decode, 4, true },
    { "copy_params", RN_NONE, a_copyparams, 1, true }, { "cipher_params", RN_NEEDS, a_cparams, 2, true }, { "kdf", RN_NONE, a_kdf, 1, true },
    { "setting", RN_NONE, a_setting, 1, false }, { "pbe", RN_NEEDS, a_pbe, 2, true }, { "cms_sign", RN_NEEDS, a_cms_sign, 1, true },
    { "cms_verify", RN_NONE, a_cms_verify, 1, true }, { "cms_encrypt", RN_NEEDS, a_cms_encrypt, 2, true }, { "cms_decrypt", RN_MASK, a_cms_decrypt, 2, true },
    { "cert", RN_NONE, a_cert, 1, true }, { "stored", RN_NONE, a_stored, 2, true }, { "legacy_encode", RN_NONE, a_legacy, 1, false },
};
const int n_eng_ops = sizeof eng_ops / sizeof *eng_ops;
void op_material(int op, const OpArgs &a) {
    std::string n = eng_ops[op].name; int ka, cv;
    static bool first = true; if (first) { first = false; curve(0); }
    combo(a, ka, cv);
    if (n == "verify") mat_sig(mat(ka, cv), a);
    else if (n == "untransport") { for (int i = 0; i < (ka == KA_256 || ka == KA_512 ? 3 : 1); i++) mat_blob(mat(ka, cv), i); }
    else if (n == "cms_sign" || n == "cms_encrypt" || n == "cert") { combo_cms(a, ka, cv); mat_crt(mat(ka, cv)); }
    else if (n == "cms_verify") { combo_cms(a, ka, cv); mat_cms(mat(ka, cv), -1); }
    else if (n == "cms_decrypt") { combo_cms(a, ka, cv); mat_cms(mat(ka, cv), a.v[3] % 4); }
    else if (n == "decode" || n == "copy_params") { Mat &m = mat(ka, cv); if (m.params.empty()) { uint8_t *p = NULL; int l = i2d_KeyParams(m.pub, &p); if (l > 0) m.params.assign(p, p + l); OPENSSL_free(p); } }
    else if (n == "sign" || n == "derive" || n == "transport" || n == "encode" || n == "pbe" || n == "stored" || n == "legacy_encode") mat(ka, cv);
    ERR_clear_error();
}
int pick_op(uint64_t r, bool rng_only) {
    int t = 0; for (int i = 0; i < n_eng_ops; i++) if (!rng_only || eng_ops[i].rng) t += eng_ops[i].weight;
    int x = r % t; for (int i = 0; i < n_eng_ops; i++) if (!rng_only || eng_ops[i].rng) { x -= eng_ops[i].weight; if (x < 0) return i; }
    return 0;
}
bool op_needs_rng(int op, const OpArgs &a) {
    if (eng_ops[op].rng != RN_NEEDS) return false;
    // two static keys and given keying material leave nothing to draw
    if (eng_ops[op].act == a_cparams) return a.v[0] % 8 >= 4;
    if (eng_ops[op].act == a_transport) { int ka = a.v[0] % 4, kind = ka == KA_256 || ka == KA_512 ? a.v[3] % 3 : 0; return !(kind == 0 && (a.v[2] & 7) == 7); }
    return true;
}
std::vector<std::pair<std::string, Bytes>> op_secrets(int op, const OpArgs &a, const Bytes &tape, const Bytes &out) {
    std::vector<std::pair<std::string, Bytes>> v; std::string n = eng_ops[op].name; int ka, cv; combo(a, ka, cv);
    auto is = [&](const char *l) { std::istringstream in(l); std::string w; while (in >> w) if (w == n) return true; return false; };
    auto priv = [&](Mat &m) { v.push_back({ "private-key", m.key.d.tole(m.key.cv->len) }); v.push_back({ "private-key", m.peer.d.tole(m.key.cv->len) }); };
    auto drawn = [&](const Curve &c) { return tape.size() < (size_t)c.len ? Bn() : Bn::be(sub(tape, 0, c.len)); };
    auto ukm_of = [&](const Bytes &blob, size_t sz) { Node t; Bytes u; if (!parse(blob, t)) return u; std::vector<Node *> l; leaves(t, l); for (auto q : l) if (q->tag == 4 && q->body.size() == sz) u = q->body; return u; };
    ref::trace = &v;
    if (is("cipher mgm acpkm_omac tlstree mac raw_mac hmac cipher_params kdf")) v.push_back({ "key", dat(a, 1, 32) });
    if (n == "kexp15") { v.push_back({ "key", dat(a, 1, 64) }); v.push_back({ "content-key", dat(a, 3, 32) }); }
    if (n == "mac" && a.v[3] % 4 > 1) { const char *k = "0123456789abcdefghijklmnopqrstuv"; v.push_back({ "key", Bytes(k, k + 32) }); }
    if (n == "kdf" && out.size() > 34) v.push_back({ "derived-key", Bytes(out.begin() + 2, out.end()) });
    if (n == "keygen" && out.size() > 72) v.push_back({ "private-key", Bytes(out.begin() + 8, out.begin() + 8 + curve(cv).len) });
    if (is("sign derive pbe stored legacy_encode") || (is("encode decode") && (n == "encode" || a.v[3] % 3 == 1))) priv(mat(ka, cv));
    if (is("cms_sign cms_decrypt")) { int k2, c2; combo_cms(a, k2, c2); priv(mat(k2, c2)); }
    if (n == "sign") v.push_back({ "nonce", drawn(curve(cv)).tole(curve(cv).len) });
    if (n == "derive") {
        Mat &m = mat(ka, cv); int md = a.v[3] % 4; if (md == 3 && ka != KA_256 && ka != KA_512) md = 2; Bytes u = dat(a, 1, md < 2 ? 16 : md == 2 ? 8 : 32);
        if (out.size() > 17) v.push_back({ "agreed-key", Bytes(out.begin() + 2, out.end()) });
        if (md == 3) ref::keg(*m.key.cv, m.key.d, m.peer.Q, u, ka == KA_512); else ref::vko(*m.key.cv, m.key.d, m.peer.Q, u, md == 1 ? 512 : 256);
    }
    if (is("transport untransport")) {
        bool to = n == "transport"; Mat &m = mat(ka, cv); int kind = ka == KA_256 || ka == KA_512 ? a.v[3] % 3 : 0; Bytes blob = to ? Bytes(out.begin() + std::min<size_t>(2, out.size()), out.end()) : m.blob[kind];
        v.push_back({ "content-key", to ? dat(a, 1, 32) : derive_bytes(77, kind, 32) }); if (!to) priv(m);
        Bytes u = to && (a.v[2] & 1) ? dat(a, 2, kind ? 32 : 8) : ukm_of(blob, kind ? 32 : 8); Bn d = m.key.d; Pt Q = m.key.Q;
        if (to && (a.v[2] & 6) == 6 && !kind) { d = m.peer.d; v.push_back({ "private-key", d.tole(m.key.cv->len) }); }
        else if (to) { d = drawn(*m.key.cv); v.push_back({ "ephemeral-key", d.tole(m.key.cv->len) }); }
        else { // the sender's public key is in the blob
            Node t; bool got = false;
            std::function<void(Node &)> f = [&](Node &x) { if (got) return; if (x.kids.size() == 2 && x.kids[1].tag == 3) { Node y = x; y.tag = 0x30; got = spki_point(m.key, emit(y), Q); } for (auto &k : x.kids) f(k); };
            if (parse(blob, t)) f(t); if (!got) u.clear();
        }
        if (!u.empty()) { if (kind) ref::keg(*m.key.cv, d, Q, u, ka == KA_512); else ref::vko(*m.key.cv, d, Q, u, md_of(ka)); }
    }
    ref::trace = nullptr;
    return v;
}
