// C18, messages: CMS, PKCS#7 and S/MIME messages between parties over a transport that cuts and damages them.
#include "../party.h"
#include <openssl/pkcs7.h>
#include <openssl/rand.h>
#include <set>
namespace {
enum { NK = 4, NM = 6 };
enum { M_SIGN, M_ENV, M_DIG, M_SYM, M_KARI, M_P7SIGN, M_P7ENV };
const char *tname[] = { "signed", "enveloped", "digested", "encrypted", "key-agreement", "PKCS7-signed", "PKCS7-enveloped" };
enum { W_DER, W_PEM, W_SMIME, W_STREAM, NW };
struct CAlg { const char *sn; int kind; bool kuz, omac; };   // kind 0: GOST 28147-89 CFB, 1: ACPKM, 2: foreign
const CAlg calgs[] = { { "gost89", 0, false, false }, { "magma-ctr-acpkm", 1, false, false }, { "magma-ctr-acpkm-omac", 1, false, true }, { "kuznyechik-ctr-acpkm", 1, true, false }, { "kuznyechik-ctr-acpkm-omac", 1, true, true }, { "AES-256-CBC", 2, false, false } };
enum { NCA = 6 };
struct Msg {
    bool set = false, intact = true, detached = false, text = false; int type = 0, wire = W_DER; Bytes b, data, sym; int calg = 0, md = 0;
    std::vector<int> who; int fmt = 0; // signers or recipients; fmt: key transport kind
    uint64_t id = 0;
};
struct W {
    Party ps[NK]; Msg ms[NM]; std::vector<std::pair<std::string, Bytes>> authored;   // what has been said, by kind and secret
    ~W() { for (auto &p : ps) { X509_free(p.cert); EVP_PKEY_free(p.k.pk); } }
};
// --- a source that hands out its bytes in the pieces the network chose
struct Src { const Bytes *b; size_t pos; uint64_t r; unsigned cls; uint64_t reads; size_t least = 1; };   // libcrypto reads DER headers of 8 bytes in one piece
int src_read(BIO *o, char *out, int n) {
    Src *s = (Src *)BIO_get_data(o); size_t left = s->b->size() - s->pos; s->reads++;
    size_t c = s->cls == 0 ? (size_t)n : std::max<size_t>(s->least, chunk_len((s->cls - 1) % CH_N, s->r >> (s->reads % 32)));
    c = std::min<size_t>(std::min<size_t>(c, left), n); memcpy(out, s->b->data() + s->pos, c); s->pos += c; return c;
}
int src_gets(BIO *o, char *out, int n) { Src *s = (Src *)BIO_get_data(o); int i = 0; while (i < n - 1 && s->pos < s->b->size()) { char ch = (*s->b)[s->pos++]; out[i++] = ch; if (ch == '\n') break; } if (n > 0) out[i] = 0; return i; }
long src_ctrl(BIO *o, int cmd, long, void *) { Src *s = (Src *)BIO_get_data(o); return cmd == BIO_CTRL_EOF ? s->pos >= s->b->size() : cmd == BIO_CTRL_FLUSH ? 1 : cmd == BIO_CTRL_PENDING ? (long)(s->b->size() - s->pos) : cmd == BIO_CTRL_RESET ? (s->pos = 0, 1) : 0; }
BIO *src_bio(Src &s) {
    static BIO_METHOD *m = nullptr;
    if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "wire"); BIO_meth_set_read(m, src_read); BIO_meth_set_gets(m, src_gets); BIO_meth_set_ctrl(m, src_ctrl); }
    BIO *o = BIO_new(m); BIO_set_data(o, &s); BIO_set_init(o, 1); return o;
}
Bytes frombio(BIO *o) { char *p; long n = BIO_get_mem_data(o, &p); return Bytes((uint8_t *)p, (uint8_t *)p + (n > 0 ? n : 0)); }
int kmd(int ka) { return ka == KA_512 ? 512 : ka == KA_256 ? 256 : 94; }
Bytes hash(int md, const Bytes &b) { return md == 94 ? ref::gost94(b) : ref::streebog(md, b); }
const char *md_sn(int md) { return md == 94 ? "md_gost94" : md == 512 ? "md_gost12_512" : "md_gost12_256"; }
STACK_OF(X509) *stack1(X509 *x) { STACK_OF(X509) *s = sk_X509_new_null(); sk_X509_push(s, x); return s; }
int find(const Bytes &hay, const Bytes &needle) { auto i = std::search(hay.begin(), hay.end(), needle.begin(), needle.end()); return i == hay.end() ? -1 : i - hay.begin(); }
// --- reference reading of a message
const char *const sbox_sn[] = { "id-Gost28147-89-TestParamSet", "id-Gost28147-89-CryptoPro-A-ParamSet", "id-Gost28147-89-CryptoPro-B-ParamSet", "id-Gost28147-89-CryptoPro-C-ParamSet", "id-Gost28147-89-CryptoPro-D-ParamSet", "id-tc26-gost-28147-param-Z" };
struct Seal { std::string err; Bytes data; };
Bytes content_dec(const CAlg &a, const Node &params, const Bytes &cek, const Bytes &ct, Bytes *mac, std::string &err, bool wrapped = true) {
    if (a.kind == 0) {
        if (params.kids.size() != 2 || params.kids[0].body.size() != 8) { err = "bad cipher parameters"; return {}; }
        int sb = -1; for (int i = 0; i < 6; i++) { if (emit(params.kids[1]) == der_oid(sbox_sn[i])) sb = ref::S_TEST + i; }
        if (sb < 0) { err = "unknown cipher parameter set"; return {}; }
        return ref::cfb89(sb, true, cek, params.kids[0].body, false, ct);
    }
    if (a.kind == 2) { EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); Bytes o(ct.size() + 32); int l = 0, f = 0; bool ok = params.body.size() == 16 && EVP_DecryptInit_ex(x, EVP_aes_256_cbc(), NULL, cek.data(), params.body.data()) == 1 && EVP_DecryptUpdate(x, o.data(), &l, ct.data(), ct.size()) == 1 && EVP_DecryptFinal_ex(x, o.data() + l, &f) == 1; EVP_CIPHER_CTX_free(x); if (!ok) err = "AES padding"; o.resize(ok ? l + f : 0); return o; }
    int n = a.kuz ? 16 : 8, iv = n / 2; size_t sect = a.kuz ? 256 * 1024 : 8192;
    if (params.kids.size() != 1 || (int)params.kids[0].body.size() != iv + 8) { err = "bad cipher parameters"; return {}; }
    Bytes ukm = params.kids[0].body, kenc = cek, kmac;
    if (a.omac) { Bytes k = ref::kdftree(cek, "kdf tree", sub(ukm, iv, 8), 64); kenc = sub(k, 0, 32); kmac = sub(k, 32, 32); }
    auto be = ref::mkblock(a.kuz, kenc.data()); Bytes pt = ref::ctr(*be, sub(ukm, 0, iv), ct, sect);
    if (a.omac && mac) { auto bm = ref::mkblock(a.kuz, kmac.data()); Bytes m = ref::cmac(*bm, pt); Bytes all = ref::ctr(*be, sub(ukm, 0, iv), cat(pt, m), sect); *mac = sub(all, pt.size(), n); }
    return pt;
}
Bytes content_enc(const CAlg &a, const Bytes &cek, const Bytes &rnd, const Bytes &pt, Bytes &alg, Bytes &unprot) {
    Bytes ct; Node pn; std::string e; unprot.clear();
    if (a.kind == 0) { int sb = rnd[31] % 6; alg = der(0x30, cat(der_oid("gost89"), der(0x30, cat(der(4, sub(rnd, 0, 8)), der_oid(sbox_sn[sb]))))); return ref::cfb89(ref::S_TEST + sb, true, cek, sub(rnd, 0, 8), true, pt); }
    if (a.kind == 2) { EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); Bytes o(pt.size() + 32); int l = 0, f = 0; EVP_EncryptInit_ex(x, EVP_aes_256_cbc(), NULL, cek.data(), rnd.data()); EVP_EncryptUpdate(x, o.data(), &l, pt.data(), pt.size()); EVP_EncryptFinal_ex(x, o.data() + l, &f); EVP_CIPHER_CTX_free(x); o.resize(l + f); alg = der(0x30, cat(der_oid("AES-256-CBC"), der(4, sub(rnd, 0, 16)))); return o; }
    int n = a.kuz ? 16 : 8; Bytes ukm = sub(rnd, 0, n / 2 + 8), params = der(0x30, der(4, ukm)), mac; alg = der(0x30, cat(der_oid(a.sn), params)); parse(params, pn);
    ct = content_dec(a, pn, cek, pt, nullptr, e);                                   // counter mode: the same either way
    if (a.omac) { content_dec(a, pn, cek, ct, &mac, e); static const uint8_t oid[] = { 6, 9, 0x2a, 0x85, 3, 7, 1, 0, 6, 1, 1 }; unprot = der(0xA1, der(0x30, cat(Bytes(oid, oid + sizeof oid), der(0x31, der(4, mac))))); }
    return ct;
}
// the content-encryption key a recipient reads out of its key transport blob
Bytes cek_ref(const Key &k, int fmt, const Bytes &blob, std::string &err) {
    Node n; Pt E; if (!parse(blob, n)) { err = "transport blob is not DER"; return {}; }
    if (fmt == 0) {
        if (n.kids.size() != 2 || n.kids[0].kids.size() != 2 || n.kids[1].kids.size() != 3) { err = "not a key transport structure"; return {}; }
        Node &kai = n.kids[1]; if (!spki_point(k, retag(emit(kai.kids[1]), 0x30), E)) { err = "ephemeral key"; return {}; }
        int sb = md_of(k.ka) == 94 ? ref::S_A : ref::S_Z; Bytes ukm = kai.kids[2].body; if (ukm.size() != 8) { err = "UKM"; return {}; }
        Bytes kek = ref::vko(*k.cv, k.d, E, ukm, md_of(k.ka)); if (kek.empty()) { err = "degenerate"; return {}; }
        Bytes dk = ref::cp_diversify(sb, kek, ukm), e = n.kids[0].kids[0].body, cek(32); if (e.size() != 32) { err = "wrapped key size"; return {}; }
        ref::Gost89 g(sb, dk.data()); for (int i = 0; i < 32; i += 8) g.dec(&e[i], &cek[i]);
        if (ref::cp_wrap(sb, kek, ukm, cek) != cat(cat(ukm, e), n.kids[0].kids[1].body)) { err = "key MAC"; return {}; }
        return cek;
    }
    bool kuz = fmt == 2; if (n.kids.size() != 3 || !spki_point(k, emit(n.kids[1]), E)) { err = "not a PSKeyTransport structure"; return {}; }
    Bytes ukm = n.kids[2].body; if (ukm.size() != 32) { err = "UKM"; return {}; }
    Bytes e = ref::keg(*k.cv, k.d, E, ukm, k.ka == KA_512); if (e.size() != 64) { err = "degenerate"; return {}; }
    Bytes x = n.kids[0].body, iv = sub(ukm, 24, kuz ? 8 : 4); if (x.size() != (kuz ? 48u : 40u)) { err = "exported key size"; return {}; }
    auto b = ref::mkblock(kuz, sub(e, 32, 32).data()); Bytes cek = sub(ref::ctr(*b, iv, x), 0, 32);
    if (ref::kexp15(kuz, cek, sub(e, 32, 32), sub(e, 0, 32), iv) != x) { err = "key MAC"; return {}; }
    return cek;
}
const Node *at(const Node &n, std::initializer_list<int> path) { const Node *p = &n; for (int i : path) { if (i < 0 || (size_t)i >= p->kids.size()) return nullptr; p = &p->kids[i]; } return p; }
std::string judge_env(const W &w, const Msg &m, const Bytes &derb) {
    Node n; if (!parse(derb, n)) return "not DER"; const Node *ed = at(n, { 1, 0 }); if (!ed || ed->kids.size() < (m.type == M_SYM ? 2 : 3)) return "not an EnvelopedData";
    size_t i = 1; if (ed->kids[i].tag == 0xA0) i++;
    const Node &ris = ed->kids[i]; if (m.type == M_SYM) i--;
    if (m.type != M_SYM && ris.kids.size() != m.who.size()) return "wrong number of recipients";
    const Node &ec = ed->kids[i + 1]; if (ec.kids.size() != 3 || ec.kids[1].kids.size() != 2) return "content info"; const CAlg &a = calgs[m.calg];
    if (emit(ec.kids[1].kids[0]) != der_oid(a.sn)) return "wrong content cipher";
    Bytes ct = ec.kids[2].tag == 0x80 ? ec.kids[2].body : Bytes(); if (ec.kids[2].tag == 0xA0) for (auto &k : ec.kids[2].kids) ct = cat(ct, k.body);
    for (size_t r = 0; r < (m.type == M_SYM ? 1 : m.who.size()); r++) {
        Bytes cek = m.sym; std::string e;
        if (m.type != M_SYM) {
            const Node *ri = nullptr; const Key &k = w.ps[m.who[r]].k; std::string why = "no recipient info";
            for (auto &q : ris.kids) { if (q.kids.size() != 4) return "recipient info"; std::string e2; Bytes c = cek_ref(k, m.fmt, q.kids[3].body, e2); if (!c.empty()) { ri = &q; cek = c; break; } why = e2; }
            if (!ri) return why;
            const Node &ka = ri->kids[2]; if (ka.kids.size() != 2) return "key encryption algorithm";
            if (m.fmt == 0 ? emit(ka.kids[0]) != der_oid(OBJ_nid2sn(ka_nid(k.ka))) : emit(ka.kids[0]) != der_oid(m.fmt == 2 ? "kuznyechik-kexp15" : "magma-kexp15")) return "wrong key encryption algorithm";
        }
        Bytes mac, d = content_dec(a, ec.kids[1].kids[1], cek, ct, a.omac ? &mac : nullptr, e); if (!e.empty()) return e;
        if (d != m.data) return "content does not decrypt to the data";
        if (a.omac) { static const uint8_t oid[] = { 6, 9, 0x2a, 0x85, 3, 7, 1, 0, 6, 1, 1 }; const Node *u = ed->kids.size() > i + 2 ? &ed->kids[i + 2] : nullptr; if (!u || u->tag != 0xA1) return "no MAC attribute"; const Node *at0 = at(*u, { 0 }); const Node *v = at(*u, { 0, 1, 0 }); if (!v || emit(at0->kids[0]) != Bytes(oid, oid + sizeof oid) || v->body != mac) return "wrong MAC attribute"; }
    }
    return "";
}
std::string judge_sign(const W &w, const Msg &m, const Bytes &derb) {
    Node n; if (!parse(derb, n)) return "not DER"; const Node *sd = at(n, { 1, 0 }); if (!sd || sd->kids.size() < 4) return "not a SignedData";
    const Node &sis = sd->kids.back(); if (sis.kids.size() != m.who.size()) return "wrong number of signers";
    const Node *ct = at(sd->kids[2], { 1, 0 }); if (m.detached ? ct != nullptr : !ct || (ct->cons ? 0 : ct->body != m.data)) return "content";
    for (auto &si : sis.kids) {
        size_t i = 3; const Node *attrs = nullptr; if (si.kids.size() > i && si.kids[i].tag == 0xA0) attrs = &si.kids[i++]; if (si.kids.size() < i + 2) return "signer info";
        Bytes sig = si.kids[i + 1].body; const Node *serial = at(si, { 1, 1 }); if (!serial || serial->body.size() != 1) return "signer id"; int s = serial->body[0] - 1; if (s < 0 || s >= NK) return "unknown signer";
        const Key &k = w.ps[s].k; int md = kmd(k.ka); Bytes h = hash(md, m.data);
        if (!at(si.kids[2], { 0 }) || emit(si.kids[2].kids[0]) != der_oid(md_sn(md))) return "wrong digest algorithm";
        if (attrs) {
            bool have = false; for (auto &x : attrs->kids) if (x.kids.size() == 2 && emit(x.kids[0]) == der_oid("messageDigest")) { const Node *v = at(x, { 1, 0 }); have = v && v->body == h; }
            if (!have) return "wrong message digest attribute"; h = hash(md, retag(emit(*attrs), 0x31));
        }
        if (sig.size() != (size_t)k.siglen() || !ref::ec_verify(*k.cv, k.Q, h, sig)) return "signature does not verify";
    }
    return "";
}
std::string judge_dig(const Msg &m, const Bytes &derb) {
    Node n; if (!parse(derb, n)) return "not DER"; const Node *dd = at(n, { 1, 0 }); if (!dd || dd->kids.size() != 4) return "not a DigestedData";
    return dd->kids[3].body == hash(m.md, m.data) ? "" : "wrong digest";
}
// --- wire forms
Bytes to_wire_cms(CMS_ContentInfo *cms, int wire, const Bytes &content, bool detached, int flags) {
    BIO *o = BIO_new(BIO_s_mem()), *in = BIO_new_mem_buf(content.data(), content.size()); int ok;
    if (wire == W_PEM) ok = PEM_write_bio_CMS(o, cms); else if (wire == W_SMIME) ok = SMIME_write_CMS(o, cms, detached ? in : NULL, flags | CMS_REUSE_DIGEST); else ok = i2d_CMS_bio(o, cms);
    Bytes r; if (ok == 1) r = frombio(o); BIO_free(o); BIO_free(in); return r;
}
CMS_ContentInfo *from_wire_cms(int wire, const Bytes &b, unsigned cls, uint64_t r, Bytes *det) {
    Src s{ &b, 0, r, cls, 0, 8 }; BIO *o = src_bio(s), *ct = NULL; CMS_ContentInfo *c = NULL; if (wire == W_PEM || wire == W_SMIME) s.cls = 0;
    if (wire == W_PEM) c = PEM_read_bio_CMS(o, NULL, NULL, NULL); else if (wire == W_SMIME) c = SMIME_read_CMS(o, &ct); else c = d2i_CMS_bio(o, NULL);
    if (ct) { if (det) *det = frombio(ct); BIO_free(ct); } BIO_free(o); return c;
}
PKCS7 *from_wire_p7(int wire, const Bytes &b, unsigned cls, uint64_t r, Bytes *det) {
    Src s{ &b, 0, r, cls, 0, 8 }; BIO *o = src_bio(s), *ct = NULL; PKCS7 *c = NULL; if (wire == W_PEM || wire == W_SMIME) s.cls = 0;
    if (wire == W_PEM) c = PEM_read_bio_PKCS7(o, NULL, NULL, NULL); else if (wire == W_SMIME) c = SMIME_read_PKCS7(o, &ct); else c = d2i_PKCS7_bio(o, NULL);
    if (ct) { if (det) *det = frombio(ct); BIO_free(ct); } BIO_free(o); return c;
}
Bytes to_wire_p7(PKCS7 *p, int wire, const Bytes &content, bool detached, int flags) {
    BIO *o = BIO_new(BIO_s_mem()), *in = BIO_new_mem_buf(content.data(), content.size()); int ok;
    if (wire == W_PEM) ok = PEM_write_bio_PKCS7(o, p); else if (wire == W_SMIME) ok = SMIME_write_PKCS7(o, p, detached ? in : NULL, flags | PKCS7_REUSE_DIGEST); else ok = i2d_PKCS7_bio(o, p);
    Bytes r; if (ok == 1) r = frombio(o); BIO_free(o); BIO_free(in); return r;
}
Bytes canon(const Msg &m) {
    Bytes r; uint8_t *p = NULL; int n = -1;
    if (m.type >= M_P7SIGN) { PKCS7 *c = from_wire_p7(m.wire, m.b, 0, 0, nullptr); if (c) n = i2d_PKCS7(c, &p); PKCS7_free(c); } else { CMS_ContentInfo *c = from_wire_cms(m.wire, m.b, 0, 0, nullptr); if (c) n = i2d_CMS_ContentInfo(c, &p); CMS_ContentInfo_free(c); }
    if (n > 0) r.assign(p, p + n); OPENSSL_free(p); return r;
}
std::string secret(const Msg &m, int who) { return strf("%d/%d", m.type == M_KARI ? M_ENV : m.type == M_P7SIGN ? M_SIGN : m.type == M_P7ENV ? M_ENV : m.type, m.type == M_DIG ? 0 : m.type == M_SYM ? -1 : who) + (m.type == M_SYM ? hex(m.sym) : ""); }
// --- opening: 1 delivered (out filled), 0 refused
int open_msg(W &w, const Msg &m, int who, int peer, unsigned cls, uint64_t r, int how, Bytes &out) {
    out.clear(); Bytes det; bool p7 = m.type >= M_P7SIGN; X509 *cert = w.ps[who].cert; EVP_PKEY *pk = w.ps[who].k.pk; int rc = 0; BIO *o = BIO_new(BIO_s_mem()), *in = NULL; Src ds{ &m.data, 0, r >> 7, (unsigned)((r >> 3) % (CH_N + 1)), 0 };
    if (p7) {
        PKCS7 *c = from_wire_p7(m.wire, m.b, cls, r, &det);
        if (c) {
            if (m.type == M_P7SIGN) { STACK_OF(X509) *s = stack1(cert); for (int x : m.who) if (x != who && m.who.size() > 1) sk_X509_push(s, w.ps[x].cert); if (m.detached) { if (m.wire == W_SMIME) ds.b = &det; in = src_bio(ds); } rc = PKCS7_verify(c, s, NULL, in, o, PKCS7_NOINTERN | PKCS7_NOVERIFY | PKCS7_BINARY | (m.text ? PKCS7_TEXT : 0)); sk_X509_free(s); }
            else rc = PKCS7_decrypt(c, pk, how & 1 ? cert : NULL, o, m.text ? PKCS7_TEXT : 0);
        }
        PKCS7_free(c);
    } else {
        CMS_ContentInfo *c = from_wire_cms(m.wire, m.b, cls, r, &det); unsigned fl = CMS_BINARY | (how & 2 ? CMS_DEBUG_DECRYPT : 0) | (m.text ? CMS_TEXT : 0);
        if (c) switch (m.type) {
        case M_SIGN: { STACK_OF(X509) *s = stack1(cert); for (int x : m.who) if (x != who && m.who.size() > 1) sk_X509_push(s, w.ps[x].cert); if (m.detached) { if (m.wire == W_SMIME) ds.b = &det; in = src_bio(ds); } rc = CMS_verify(c, s, NULL, in, o, CMS_NOINTERN | CMS_NO_SIGNER_CERT_VERIFY | fl); sk_X509_free(s); break; }
        case M_ENV: rc = how & 4 ? CMS_decrypt_set1_pkey(c, pk, how & 1 ? cert : NULL) == 1 && CMS_decrypt(c, NULL, NULL, NULL, o, fl) == 1 : CMS_decrypt(c, pk, how & 1 ? cert : NULL, NULL, o, fl); break;
        case M_KARI: rc = CMS_decrypt_set1_pkey_and_peer(c, pk, how & 1 ? cert : NULL, peer >= 0 ? w.ps[peer].cert : NULL) == 1 && CMS_decrypt(c, NULL, NULL, NULL, o, fl) == 1; break;
        case M_DIG: if (m.detached) in = src_bio(ds); rc = CMS_digest_verify(c, in, o, fl); break;
        case M_SYM: rc = CMS_EncryptedData_decrypt(c, m.sym.data(), m.sym.size(), NULL, o, fl); break;
        }
        CMS_ContentInfo_free(c);
    }
    if (rc == 1) out = frombio(o); BIO_free(o); BIO_free(in); return rc == 1;
}
void gen(Rng &r, Plan &p, bool th) {
    int steps = 4 + r.below(th ? 24 : 9); bool faults = r.chance(1, 4);
    for (int i = 0; i < 2; i++) p.add("party", { i, (long long)r.below(3), (long long)r.below(64), (long long)r.below(1000) });
    if (r.chance(1, 2)) p.add("party", { 2, (long long)r.below(4), (long long)r.below(64), (long long)r.below(1000) });
    auto size = [&]() -> long long { return r.chance(1, 8) ? r.below(th ? 300000 : 30000) : r.chance(1, 3) ? r.below(40) : r.below(600); };
    for (int i = 0; i < steps; i++) {
        if (r.chance(1, 6)) p.add("setting", { (long long)r.below(6) });
        int m = r.below(3), k = r.below(2), k2 = r.chance(1, 4) ? r.below(3) : -1; long long f = faults && r.chance(1, 3) ? 1 + r.below(600) : 0, rr = r.next() >> 40;
        switch (i == 0 ? r.below(7) : r.below(20)) {
        case 0: case 1: p.add("sign", { m, k, k2, size(), (long long)r.below(NW), (long long)r.below(32), rr, f }); break;
        case 2: case 3: p.add("env", { m, k, k2, size(), (long long)r.below(NW), (long long)r.below(NCA), (long long)r.below(3), (long long)r.below(32), rr, f }); break;
        case 4: p.add("dig", { m, (long long)r.below(3), size(), (long long)r.below(2), (long long)r.below(8), rr, f }); break;
        case 5: p.add("sym", { m, (long long)r.below(NCA), size(), (long long)r.below(2), rr, f }); break;
        case 6: p.add("craft", { m, k, k2, size(), (long long)r.below(NCA), (long long)r.below(8), rr, (long long)r.below(3) ? 0 : (long long)r.below(20) }); break;
        case 7: p.add("party", { (long long)r.below(NK), (long long)r.below(4), (long long)r.below(64), (long long)r.below(1000) }); break;
        case 8: case 9: for (int q = 1 + r.below(4); q--;) { p.add("mangle", { m, (long long)r.below(10), (long long)(r.next() >> 30), (long long)r.below(3) }); p.add("open", { m, (long long)k, k2, (long long)r.below(CH_N + 1), (long long)(r.next() >> 40), (long long)r.below(8), 0 }); } break;
        default: p.add("open", { m, (long long)r.below(3), (long long)r.below(3) - 1, (long long)r.below(CH_N + 1), rr, (long long)r.below(8), f }); p.add("open", { m, k, k2, 0, rr, (long long)r.below(8), 0 });
        }
    }
}
struct FaultScope {
    int rf; bool on;
    FaultScope(long long f) : rf(f % 5 == 4), on(f > 0) { if (!on) return; if (rf) { sim::rnd.calls = 0; sim::rnd.failed = 0; sim::rnd.fail_from = f / 5 % 4; sim::rnd.fail_count = 1000; } else sim::Faults::arm(1 + f % 3, f / 3, 1); }
    bool end(Ctx &c) { if (!on) return false; on = false; bool fired = rf ? sim::rnd.failed > 0 : sim::Faults::fired() > 0; if (rf) { sim::rnd.fail_from = -1; sim::rnd.failed = 0; } else sim::Faults::disarm(); if (fired) { c.count(rf ? "fault.random_source" : "fault.allocation_or_call"); c.log("fault: %s %s", sim::dep.last.c_str(), sim::al.last.c_str()); } return fired; }
    ~FaultScope() { sim::Faults::disarm(); sim::rnd.fail_from = -1; }
};
void exec(const Plan &p, Ctx &c) {
    lib_engine(); W w; uint64_t opn = 0;
    auto say = [&](Msg &m) { m.id = ++opn; if (m.who.empty()) w.authored.push_back({ secret(m, 0), m.data }); for (int x : m.who) { std::string s = secret(m, x); w.authored.push_back({ s, m.data }); } };
    auto setparty = [&](const Op &o) {
        int i = o.mod(0, NK), ka = o.mod(1, 4); Party &q = w.ps[i]; if (q.k.pk) for (auto &m : w.ms) m.set = false, w.authored.clear();
        mkparty(q, ka, o.arg(2) & 0xffff, i + 1, c);
    };
    for (int i = 0; i < 3; i++) { Op o{ "party", { i, (long long)((p.seed >> i * 4) % 3), (long long)(p.seed >> (i * 6 + 8)) & 63, 0 } }; setparty(o); }
    for (auto &o : p.ops) {
        c.steps++;
        if (o.k == "party") { setparty(o); continue; }
        if (o.k == "setting") { if (ENGINE_ctrl_cmd_string(lib_engine(), "CRYPT_PARAMS", sbox_sn[o.mod(0, 6)], 0) != 1) c.violate("refused", "CRYPT_PARAMS %s", sbox_sn[o.mod(0, 6)]); c.count("settings_changed"); continue; }
        Msg &m = w.ms[o.mod(0, NM)];
        if (o.k == "sign") {
            Msg n; n.set = true; int k = o.mod(1, NK), k2 = o.arg(2); if (!w.ps[k].cert) continue; n.who = { k }; if (k2 >= 0 && k2 % NK != k && w.ps[k2 % NK].cert) n.who.push_back(k2 % NK);
            uint64_t fl = o.arg(5), r = o.arg(6); n.wire = o.mod(4, NW); n.detached = fl & 1; bool p7 = fl & 16; n.type = p7 ? M_P7SIGN : M_SIGN; n.data = mkdata(p.seed, 0x18000000 + r, (n.wire == W_STREAM) + o.arg(3) % 400000, r % DK_N);
            if (n.wire == W_STREAM && (p7 || n.detached)) n.wire = W_DER;
            if (n.wire == W_SMIME && n.detached) { Bytes t; for (size_t i = 0; i < n.data.size(); i++) { t.push_back("0123456789abcdef ,;:=?xyzABCDEFGH"[n.data[i] % 33]); if (i % 60 == 59 - n.data[0] % 50) t.push_back('\r'), t.push_back('\n'); } n.data = t; }
            c.op(p7 ? "p7_sign" : "cms_sign"); c.mixsig(n.wire * 64 + fl * 8 + n.who.size());
            Src s{ &n.data, 0, r >> 5, (unsigned)(r % (CH_N + 1)), 0 }; BIO *in = src_bio(s); bool ok = false; FaultScope fs(o.arg(7));
            if (p7) {
                int f = PKCS7_BINARY | PKCS7_PARTIAL | (n.detached ? PKCS7_DETACHED : 0) | (fl & 2 ? PKCS7_NOATTR : 0) | (fl & 4 ? PKCS7_NOCERTS : 0) | PKCS7_NOSMIMECAP; PKCS7 *q = PKCS7_sign(NULL, NULL, NULL, in, f); ok = q;
                for (int x : n.who) ok = ok && PKCS7_sign_add_signer(q, w.ps[x].cert, w.ps[x].k.pk, NULL, f & ~PKCS7_PARTIAL) != NULL;
                ok = ok && PKCS7_final(q, in, f) == 1; bool fired = fs.end(c); if (ok) n.b = to_wire_p7(q, n.wire, n.data, n.detached, f & ~PKCS7_PARTIAL); PKCS7_free(q);
                if (ok && fired) {}
                if (!ok && !fired) c.violate("sign-refused", "PKCS7 signing by %s on %s: %s", OBJ_nid2sn(ka_nid(w.ps[k].k.ka)), w.ps[k].k.cv->sn, sim::err_text().c_str());
            } else {
                unsigned f = CMS_BINARY | (n.detached ? CMS_DETACHED : 0) | (fl & 2 ? CMS_NOATTR : 0) | (fl & 4 ? CMS_NOCERTS : 0) | CMS_NOSMIMECAP; CMS_ContentInfo *q = NULL; bool stream = n.wire == W_STREAM;
                q = CMS_sign(NULL, NULL, NULL, stream ? in : NULL, f | CMS_PARTIAL | (stream ? CMS_STREAM : 0)); ok = q;
                for (int x : n.who) ok = ok && CMS_add1_signer(q, w.ps[x].cert, w.ps[x].k.pk, NULL, f) != NULL;
                if (stream && ok) { BIO *ob = BIO_new(BIO_s_mem()); ok = i2d_CMS_bio_stream(ob, q, in, f | CMS_STREAM) == 1; if (ok) n.b = frombio(ob); BIO_free(ob); } else ok = ok && CMS_final(q, in, NULL, f) == 1;
                bool fired = fs.end(c); if (ok && !stream) n.b = to_wire_cms(q, n.wire, n.data, n.detached, f); CMS_ContentInfo_free(q);
                if (!ok && !fired) c.violate("sign-refused", "CMS signing by %s on %s: %s", OBJ_nid2sn(ka_nid(w.ps[k].k.ka)), w.ps[k].k.cv->sn, sim::err_text().c_str());
            }
            BIO_free(in); sim::err_text(); if (!ok) { c.count("sign_refused_by_fault"); continue; }
            Bytes d = canon(n); std::string why = judge_sign(w, n, d); if (!why.empty()) { if (c.verbose) c.log("%s\n%.*s", sim::err_text().c_str(), (int)n.b.size(), n.b.data()); c.violate("wrong-message", "%s message (%s): %s", tname[n.type], OBJ_nid2sn(ka_nid(w.ps[k].k.ka)), why.c_str()); }
            c.logb("signed", d); say(n); m = n; c.count("made_signed");
        } else if (o.k == "env") {
            Msg n; n.set = true; int k = o.mod(1, NK), k2 = o.arg(2); if (!w.ps[k].cert) continue; n.who = { k }; if (k2 >= 0 && k2 % NK != k && w.ps[k2 % NK].cert) n.who.push_back(k2 % NK);
            uint64_t fl = o.arg(7), r = o.arg(8); n.wire = o.mod(4, NW); n.calg = o.mod(5, NCA); bool p7 = fl & 16; n.type = p7 ? M_P7ENV : M_ENV; n.fmt = p7 ? 0 : o.mod(6, 3); for (int x : n.who) if (n.fmt && w.ps[x].k.ka != KA_256 && w.ps[x].k.ka != KA_512) n.fmt = 0;
            if (p7 && calgs[n.calg].omac) n.calg = 0; n.data = mkdata(p.seed, 0x18100000 + r, 1 + o.arg(3) % 400000, r % DK_N); if (n.wire == W_STREAM && p7) n.wire = W_DER;
            bool kp = n.fmt || (fl & 1); c.op(p7 ? "p7_encrypt" : kp ? "cms_encrypt" : "cms_encrypt_plain"); c.mixsig(n.wire * 512 + n.calg * 64 + n.fmt * 16 + n.who.size() * 2 + p7);
            const EVP_CIPHER *ci = n.calg == 5 ? EVP_aes_256_cbc() : eng_cipher(OBJ_sn2nid(calgs[n.calg].sn)); Src s{ &n.data, 0, r >> 5, (unsigned)(r % (CH_N + 1)), 0 }; BIO *in = src_bio(s); bool ok = false; FaultScope fs(o.arg(9)); bool fired;
            STACK_OF(X509) *sk = sk_X509_new_null(); for (int x : n.who) sk_X509_push(sk, w.ps[x].cert);
            if (p7) { PKCS7 *q = PKCS7_encrypt(sk, in, ci, PKCS7_BINARY); ok = q; fired = fs.end(c); if (ok) n.b = to_wire_p7(q, n.wire, n.data, false, PKCS7_BINARY); PKCS7_free(q); }
            else {
                bool stream = n.wire == W_STREAM; CMS_ContentInfo *q;
                if (!kp) { q = CMS_encrypt(sk, in, ci, CMS_BINARY | (stream ? CMS_STREAM : 0)); ok = q; }
                else {
                    q = CMS_encrypt(NULL, in, ci, CMS_BINARY | CMS_PARTIAL | (stream ? CMS_STREAM : 0)); ok = q;
                    for (int x : n.who) { CMS_RecipientInfo *ri = ok ? CMS_add1_recipient_cert(q, w.ps[x].cert, CMS_KEY_PARAM) : NULL; EVP_PKEY_CTX *pc = ri ? CMS_RecipientInfo_get0_pkey_ctx(ri) : NULL; ok = pc != NULL; static const int nids[3][3] = { { NID_id_Gost28147_89, NID_id_Gost28147_89, NID_undef }, { NID_magma_ctr, NID_magma_ctr_acpkm, NID_magma_ctr_acpkm_omac }, { NID_kuznyechik_ctr, NID_kuznyechik_ctr_acpkm, NID_kuznyechik_ctr_acpkm_omac } }; int nid = nids[n.fmt][(r >> 4) % 3]; if (ok && nid) ok = EVP_PKEY_CTX_ctrl(pc, -1, EVP_PKEY_OP_ENCRYPT, EVP_PKEY_CTRL_CIPHER, nid, NULL) > 0; }
                    if (ok && !stream) ok = CMS_final(q, in, NULL, CMS_BINARY) == 1;
                }
                if (stream && ok) { BIO *ob = BIO_new(BIO_s_mem()); ok = i2d_CMS_bio_stream(ob, q, in, CMS_BINARY | CMS_STREAM) == 1; if (ok) n.b = frombio(ob); BIO_free(ob); }
                fired = fs.end(c); if (ok && !stream) n.b = to_wire_cms(q, n.wire, n.data, false, CMS_BINARY); CMS_ContentInfo_free(q);
            }
            sk_X509_free(sk); BIO_free(in);
            if (!ok && !fired) c.violate("encrypt-refused", "%s message to %s on %s with %s, transport %d%s: %s", tname[n.type], OBJ_nid2sn(ka_nid(w.ps[k].k.ka)), w.ps[k].k.cv->sn, calgs[n.calg].sn, n.fmt, kp ? "" : " (no key parameters)", sim::err_text().c_str());
            sim::err_text(); if (!ok) { c.count("encrypt_refused_by_fault"); continue; }
            Bytes d = canon(n); std::string why = judge_env(w, n, d); if (!why.empty()) c.violate("wrong-message", "%s message to %s with %s, transport %d: %s", tname[n.type], OBJ_nid2sn(ka_nid(w.ps[k].k.ka)), calgs[n.calg].sn, n.fmt, why.c_str());
            c.logb("enveloped", d); say(n); m = n; c.count("made_enveloped");
        } else if (o.k == "dig") {
            Msg n; n.set = true; n.type = M_DIG; static const int mds[] = { 94, 256, 512 }; n.md = mds[o.mod(1, 3)]; uint64_t r = o.arg(5); n.wire = o.mod(3, 2); n.detached = o.arg(4) & 1; n.data = mkdata(p.seed, 0x18200000 + r, o.arg(2) % 400000, r % DK_N);
            c.op("cms_digest"); c.mixsig(n.md); Src s{ &n.data, 0, r >> 5, (unsigned)(r % (CH_N + 1)), 0 }; BIO *in = src_bio(s); FaultScope fs(o.arg(6));
            CMS_ContentInfo *q = CMS_digest_create(in, eng_md(OBJ_sn2nid(md_sn(n.md))), CMS_BINARY | (n.detached ? CMS_DETACHED : 0)); bool fired = fs.end(c); if (q && n.detached) CMS_set_detached(q, 1);
            if (q) n.b = to_wire_cms(q, n.wire, n.data, false, CMS_BINARY); BIO_free(in); bool ok = q; CMS_ContentInfo_free(q);
            if (!ok && !fired) c.violate("digest-refused", "CMS digest with %s: %s", md_sn(n.md), sim::err_text().c_str()); sim::err_text(); if (!ok) continue;
            Bytes d = canon(n); std::string why = judge_dig(n, d); if (!why.empty()) c.violate("wrong-message", "digested message with %s: %s", md_sn(n.md), why.c_str());
            c.logb("digested", d); say(n); m = n; c.count("made_digested");
        } else if (o.k == "sym") {
            Msg n; n.set = true; n.type = M_SYM; n.calg = o.mod(1, NCA); if (calgs[n.calg].omac) n.calg--; /* libcrypto has no place for the MAC here */ uint64_t r = o.arg(4); n.wire = o.mod(3, 2); n.data = mkdata(p.seed, 0x18300000 + r, 1 + o.arg(2) % 400000, r % DK_N); n.sym = derive_bytes(p.seed, 0x18310000 + r % 4, 32);
            c.op("cms_encrypted_data"); c.mixsig(n.calg); Src s{ &n.data, 0, r >> 5, (unsigned)(r % (CH_N + 1)), 0 }; BIO *in = src_bio(s); const EVP_CIPHER *ci = n.calg == 5 ? EVP_aes_256_cbc() : eng_cipher(OBJ_sn2nid(calgs[n.calg].sn)); FaultScope fs(o.arg(5));
            CMS_ContentInfo *q = CMS_EncryptedData_encrypt(in, ci, n.sym.data(), 32, CMS_BINARY); bool fired = fs.end(c); if (q) n.b = to_wire_cms(q, n.wire, n.data, false, CMS_BINARY); BIO_free(in); bool ok = q; CMS_ContentInfo_free(q);
            if (!ok && !fired) c.violate("encrypt-refused", "CMS EncryptedData with %s: %s", calgs[n.calg].sn, sim::err_text().c_str()); sim::err_text(); if (!ok) continue;
            Bytes d = canon(n); std::string why = judge_env(w, n, d); if (!why.empty()) c.violate("wrong-message", "encrypted message with %s: %s", calgs[n.calg].sn, why.c_str());
            c.logb("encrypted", d); say(n); m = n; c.count("made_encrypted");
        } else if (o.k == "craft") {                       // a message of another implementation
            Msg n; n.set = true; int k = o.mod(1, NK), snd = o.arg(2) >= 0 ? o.arg(2) % NK : -1; if (!w.ps[k].cert) continue; const Key &K = w.ps[k].k; n.who = { k }; n.calg = o.mod(4, NCA); uint64_t fl = o.arg(5), r = o.arg(6); int bad = o.arg(7);
            n.data = mkdata(p.seed, 0x18400000 + r, 1 + o.arg(3) % 400000, r % DK_N); Bytes cek = derive_bytes(p.seed, 0x18410000 + r, 32), ukm = derive_bytes(p.seed, 0x18420000 + r, 32), rnd = derive_bytes(p.seed, 0x18430000 + r, 32);
            bool kari = fl & 1, kuz = fl & 2; if (K.ka != KA_256 && K.ka != KA_512) kari = false, n.fmt = 0; else n.fmt = kari ? 1 + kuz : (fl >> 1) % 3; n.type = kari ? M_KARI : M_ENV;
            if (snd == k || (snd >= 0 && (!w.ps[snd].cert || w.ps[snd].k.ka != K.ka || w.ps[snd].k.cv != K.cv))) snd = -1; if (!kari) snd = -1;
            Bn de = snd >= 0 ? w.ps[snd].k.d : Bn::be(derive_bytes(p.seed, 0x18440000 + r, 30)); Pt E = K.cv->mulg(de); Bytes spki = pub_der(K.ka, *K.cv, K.cv->pubLE(E)); c.op(kari ? "craft_kari" : "craft_ktri"); c.mixsig(n.calg * 64 + n.fmt * 16 + (snd >= 0) * 8 + bad * 1024);
            Bytes alg, unprot, ct = content_enc(calgs[n.calg], cek, rnd, n.data, alg, unprot); Bytes name; { uint8_t *q = NULL; int l = i2d_X509_NAME(X509_get_issuer_name(w.ps[k].cert), &q); name.assign(q, q + l); OPENSSL_free(q); }
            auto ias = [&](int i) { return der(0x30, cat(name, der(2, Bytes{ (uint8_t)(i + 1) }))); }; Bytes ri;
            Bytes kalg = der(0x30, cat(der_oid(kuz ? "kuznyechik-kexp15" : "magma-kexp15"), der(0x30, der_oid(K.ka == KA_512 ? "id-tc26-agreement-gost-3410-2012-512" : "id-tc26-agreement-gost-3410-2012-256"))));
            bool valid = true;
            if (kari) {
                Bytes e = ref::keg(*K.cv, de, K.Q, ukm, K.ka == KA_512); if (e.size() != 64) continue; Bytes x = ref::kexp15(kuz, cek, sub(e, 32, 32), sub(e, 0, 32), sub(ukm, 24, kuz ? 8 : 4)), org = snd >= 0 ? ias(snd) : retag(spki, 0xA1), u = der(0xA1, der(4, ukm));
                switch (bad) {
                case 1: u.clear(); valid = false; break;
                case 2: u = der(0xA1, der(4, sub(ukm, 0, r & 64 ? 8 : r % 32))); valid = false; break;
                case 3: u = der(0xA1, der(4, cat(ukm, ukm))); valid = false; break;
                case 4: kalg = der(0x30, der_oid(kuz ? "kuznyechik-kexp15" : "magma-kexp15")); valid = false; break;
                case 5: kalg = der(0x30, cat(der_oid(kuz ? "kuznyechik-kexp15" : "magma-kexp15"), Bytes{ 5, 0 })); valid = false; break;
                case 6: kalg = der(0x30, cat(der_oid(r & 1 ? "kuznyechik-ctr-acpkm" : "magma-mac"), der(0x30, Bytes{}))); valid = false; break;
                case 7: org = retag(pub_der(K.ka, *K.cv, {}), 0xA1); valid = false; break;
                case 8: { auto &cs = ka_curves(K.ka == KA_512 ? KA_256 : KA_512); const Curve &cv = curve(cs[r % cs.size()]); org = retag(pub_der(K.ka == KA_512 ? KA_256 : KA_512, cv, cv.pubLE(cv.mulg(de))), 0xA1); valid = false; break; }
                case 9: { Bytes xy = K.cv->pubLE(E); xy[r % xy.size()] ^= 1 << r % 8; org = retag(pub_der(K.ka, *K.cv, xy), 0xA1); valid = false; break; }
                case 10: x = sub(x, 0, r % x.size()); valid = false; break;
                case 11: x = cat(x, sub(ukm, 0, 1 + r % 31)); valid = false; break;
                case 12: x[r % x.size()] ^= 1 << (r >> 8) % 8; valid = false; break;
                case 13: org = retag(der(0x30, cat(der(0x30, der_oid(OBJ_nid2sn(ka_nid(K.ka)))), Bytes{ 3, 1, 0 })), 0xA1); valid = false; break;
                case 14: org = der(0x80, Bytes{ 1, 2, 3, 4 }); valid = false; break;
                case 15: u = der(0xA1, der(4, {})); valid = false; break;
                case 16: { Bytes z = x; for (int i = 0; i < 40; i++) z = cat(z, ukm); x = z; valid = false; break; }
                }
                ri = der(0xA1, cat(cat(der(2, Bytes{ 3 }), der(0xA0, org)), cat(cat(u, kalg), der(0x30, der(0x30, cat(ias(k), der(4, x)))))));
                if (valid && bad) bad = 0;
            } else {
                int sb = md_of(K.ka) == 94 ? ref::S_A : ref::S_Z; Bytes blob = n.fmt == 0 ? wrap_cp(K, de, spki, sb, sub(ukm, 0, 8), cek) : wrap_18(K, de, spki, n.fmt == 2, ukm, true, cek); if (blob.empty()) continue;
                if (n.fmt == 0) kalg = der(0x30, cat(der_oid(OBJ_nid2sn(ka_nid(K.ka))), der(0x30, der_oid(K.cv->sn)))); else kalg = der(0x30, cat(der_oid(n.fmt == 2 ? "kuznyechik-kexp15" : "magma-kexp15"), der(0x30, der_oid(K.ka == KA_512 ? "id-tc26-agreement-gost-3410-2012-512" : "id-tc26-agreement-gost-3410-2012-256"))));
                if (bad == 1) blob = sub(blob, 0, r % blob.size()), valid = false; else if (bad == 2) blob.clear(), valid = false; else if (bad == 3) kalg = der(0x30, der_oid("magma-mac")), valid = false; else bad = 0;
                ri = der(0x30, cat(cat(der(2, Bytes{ 0 }), ias(k)), cat(kalg, der(4, blob))));
            }
            Bytes eci = der(0x30, cat(cat(der_oid("pkcs7-data"), alg), der(0x80, ct))); Bytes body = der(0x30, cat(cat(der(2, Bytes{ (uint8_t)(kari || !unprot.empty() ? 2 : 0) }), der(0x31, ri)), cat(eci, unprot)));
            n.b = der(0x30, cat(der_oid("pkcs7-envelopedData"), der(0xA0, body))); n.wire = W_DER; n.intact = valid; n.md = snd;
            c.logb("crafted", n.b); say(n); m = n; c.count(valid ? "crafted" : "crafted_invalid");
        } else if (o.k == "mangle") {
            if (!m.set || m.b.empty()) continue; uint64_t r = o.arg(2); int how = o.arg(1) % 10; const Msg &other = w.ms[o.mod(3, NM)]; Bytes b = m.b; c.op("mangle"); c.mixsig(how);
            switch (how) {
            case 0: b[r % b.size()] ^= 1 << (r >> 20) % 8; c.count("fault.bit_flip"); break;
            case 1: b.resize(r % b.size()); c.count("fault.truncation"); break;
            case 2: { size_t at = r % b.size(), n = std::min<size_t>(1 + (r >> 20) % 20, b.size() - at); b.erase(b.begin() + at, b.begin() + at + n); c.count("fault.loss"); break; }
            case 3: { Bytes x = derive_bytes(p.seed, r, 1 + r % 20); b.insert(b.begin() + r % b.size(), x.begin(), x.end()); c.count("fault.insertion"); break; }
            case 4: { size_t at = r % b.size(), n = std::min<size_t>(1 + (r >> 20) % 64, b.size() - at); Bytes x = derive_bytes(p.seed, r, n); std::copy(x.begin(), x.end(), b.begin() + at); c.count("fault.overwrite"); break; }
            default: { // structural: works on the message as DER
                Node n; Bytes d = canon(m); if (d.empty() || !parse(d, n)) continue; std::vector<Node *> all; std::function<void(Node &)> walk = [&](Node &x) { all.push_back(&x); for (auto &k : x.kids) walk(k); }; walk(n); Node &t = *all[r % all.size()];
                if (how == 5) { if (t.cons && !t.kids.empty()) t.kids.erase(t.kids.begin() + (r >> 20) % t.kids.size()); else t.body.clear(); c.count("fault.element_removed"); }
                else if (how == 6) { Node on; Bytes od = other.set ? canon(other) : Bytes(); if (od.empty() || !parse(od, on)) continue; std::vector<Node *> oa; std::function<void(Node &)> ow = [&](Node &x) { oa.push_back(&x); for (auto &k : x.kids) ow(k); }; ow(on); Node *pick = nullptr; for (size_t i = 0; i < oa.size(); i++) { Node *q = oa[(r / 7 + i) % oa.size()]; if (q->tag == t.tag) { pick = q; break; } } if (!pick) continue; t = *pick; c.count("fault.element_of_another_message"); }
                else if (how == 7) { if (!t.cons && !t.body.empty()) t.body[(r >> 20) % t.body.size()] ^= 1 << (r >> 28) % 8; else t.tag ^= 1 << (r >> 20) % 6; t.cons = !t.kids.empty() || (t.tag & 0x20 && t.body.empty()); c.count("fault.element_changed"); }
                else if (how == 8) { if (!t.cons) { t.body.resize((r >> 20) % (t.body.size() + 9)); } else if (!t.kids.empty()) { Node k = t.kids[(r >> 20) % t.kids.size()]; t.kids.push_back(k); } c.count("fault.element_resized"); }
                else { if (t.cons && t.kids.size() > 1) std::swap(t.kids[(r >> 20) % t.kids.size()], t.kids[0]); c.count("fault.reorder"); }
                b = emit(n); if (m.wire == W_PEM || m.wire == W_SMIME || m.wire == W_STREAM) { if (m.wire == W_SMIME && m.detached) continue; m.wire = W_DER; }
            } }
            if (b == m.b) continue; m.b = b; m.intact = false;
        } else if (o.k == "open") {
            if (!m.set) continue; int who = o.mod(1, NK), peer = o.arg(2); if (!w.ps[who].cert) continue; if (peer >= 0 && (peer %= NK, !w.ps[peer].cert)) peer = -1; int how = o.arg(5) % 8; if (m.type == M_KARI && m.intact && m.md >= 0 && o.arg(4) % 4) peer = m.md;
            bool member = false; for (int x : m.who) member |= x == who; if (m.type == M_DIG || m.type == M_SYM) member = true; bool right = member; if (m.type == M_KARI && m.intact) right = member && (m.md >= 0 ? peer == m.md : peer < 0);
            c.op((std::string("open_") + tname[m.type]).c_str()); c.mixsig(m.type * 64 + m.intact * 32 + right * 16 + how); Bytes out;
            FaultScope fs(o.arg(6)); int rc = open_msg(w, m, who, peer, o.arg(3), o.arg(4), how, out); bool fired = fs.end(c); std::string er = sim::err_text();
            if (!o.arg(6) && o.arg(4) % 3 == 0) { // once more: the same outcome, and nothing left behind
                Bytes out2; std::string d; sim::track_begin(); int rc2 = open_msg(w, m, who, peer, o.arg(3), o.arg(4), how, out2); sim::err_text(); size_t n = sim::track_live(&d); sim::track_end();
                bool blind = !rc || !(m.intact && right);   // a failed key transport is answered with a random key
                if (!blind && (rc2 != rc || out2 != out)) c.violate("not-repeatable", "%s message opened twice with different outcomes", tname[m.type]);
                if (n) c.violate("leak", "opening a%s %s message (%s) left %zu blocks behind: %s", m.intact ? "n intact" : " damaged", tname[m.type], rc ? "delivered" : "refused", n, d.substr(0, 300).c_str());
                c.count("opened_again");
            }
            c.logb(rc ? "opened" : "refused", out); c.nontrivial = true;
            bool p7 = m.type >= M_P7SIGN, sign = m.type == M_SIGN || m.type == M_P7SIGN; Bytes want = m.data;
            c.count(std::string(rc ? "opened_" : "refused_") + (m.intact ? right ? "by_the_right_party" : "by_another_party" : "damaged"));
            if (m.intact && right && !fired && (!rc || out != want)) c.violate(rc ? "altered" : "refused", "%s message by/to %s on %s (cipher %s, transport %d, wire %d, signers %zu%s) %s: %s", tname[m.type], OBJ_nid2sn(ka_nid(w.ps[who].k.ka)), w.ps[who].k.cv->sn, calgs[m.calg].sn, m.fmt, m.wire, m.who.size(), m.detached ? ", detached" : "", rc ? "gave other data" : "was refused", er.c_str());
            if (m.intact && fired && rc && out != want && right && !(out.size() < want.size() && std::equal(out.begin(), out.end(), want.begin()))) { if (sign || m.type == M_DIG || calgs[m.calg].omac || (!p7 && (how & 6) == 2 && (how & 1))) c.violate("altered", "%s message opened under a failing call gave other data", tname[m.type]); }
            if (rc && sign) { // everything reported as authentic was said by the pinned signer
                bool said = false; for (auto &a : w.authored) said |= a.first == secret(m, who) && a.second == out; bool solo = m.who.size() == 1; if (!solo) for (int x : m.who) for (auto &a : w.authored) said |= a.first == secret(m, x) && a.second == out;
                bool det = m.detached && m.wire != W_SMIME; if (det && out == m.data) { if (m.intact && !member && solo) said = false; }
                if (!said) c.violate("forged", "%s message (%s) verified with data the signer never signed", tname[m.type], m.intact ? "intact" : "damaged");
                if (m.intact && !member && solo) c.violate("wrong-key", "message verified with another party's key");
            } else if (rc && m.type == M_DIG) {
                bool said = false; for (auto &a : w.authored) said |= a.first == secret(m, 0) && a.second == out; if (!said) c.violate("forged", "damaged digested message verified");
            } else if (rc && !sign) {
                bool auth = calgs[m.calg].omac && find(m.wire == W_DER || m.wire == W_STREAM ? m.b : canon(m), der_oid(calgs[m.calg].sn)) >= 0;
                // libcrypto's cipher filter ends the data early without an error when an update fails, hence not under faults
                if (auth && !fired) { bool said = false; for (auto &a : w.authored) said |= a.first == secret(m, who) && a.second == out; if (!said) c.violate("forged", "%s message with %s (%s) opened to data nobody sent", tname[m.type], calgs[m.calg].sn, m.intact ? right ? "intact" : "wrong key" : "damaged"); }
                if (m.intact && !right && !(m.type == M_KARI && member && m.md < 0) && out == m.data && m.data.size() >= 16) c.violate("wrong-key", "%s message opened without the recipient's key", tname[m.type]);
            }
        }
    }
}
RegScenario s1({ "C18", "messages", 3, gen, exec, true });
RegProp p1({ "C18", "exploration", "a message or session between two parties delivers exactly the sender's data to the intended receiver, or is refused",
    { "the engine (compiled from the working tree)", "libcrypto's CMS, PKCS7, S/MIME and X.509", "libssl" }, { "network between the parties", "clock", "allocator", "random source" }, { "libcrypto and libssl do what they document" }, 4000, 200000 });
}
