// C17: the provider front end driven next to the engine with the same keys, fragments, copies and re-initialisations.
#include "../lib.h"
#include <openssl/provider.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
extern "C" int GOST_provider_init(const OSSL_CORE_HANDLE *, const OSSL_DISPATCH *, const OSSL_DISPATCH **, void **);
namespace {
enum { NS = 4 };
// names by which the provider is asked; the engine is asked for the NID of the same name
struct CA { const char *sn; int iv, bs, kind; };   // kind 0 plain, 1 gost89 with key meshing, 2 ACPKM, 3 MGM, 4 ACPKM-OMAC
const CA ca[] = {
    { "gost89", 8, 1, 1 }, { "gost89-cnt", 8, 1, 1 }, { "gost89-cnt-12", 8, 1, 1 }, { "gost89-cbc", 8, 8, 0 },
    { "kuznyechik-ecb", 0, 16, 0 }, { "kuznyechik-cbc", 16, 16, 0 }, { "kuznyechik-cfb", 16, 1, 0 }, { "kuznyechik-ofb", 16, 1, 0 }, { "kuznyechik-ctr", 8, 1, 0 },
    { "magma-cbc", 8, 8, 0 }, { "magma-ctr", 4, 1, 0 }, { "magma-ctr-acpkm", 4, 1, 2 }, { "kuznyechik-ctr-acpkm", 8, 1, 2 },
    { "magma-ctr-acpkm-omac", 12, 1, 4 }, { "kuznyechik-ctr-acpkm-omac", 16, 1, 4 }, { "magma-mgm", 8, 1, 3 }, { "kuznyechik-mgm", 16, 1, 3 } };
enum { NC = sizeof ca / sizeof *ca };
const char *mdn[] = { "md_gost94", "md_gost12_256", "md_gost12_512" };
struct MA { const char *sn; int def, max, kind; };
const MA ma[] = { { "gost-mac", 4, 8, 0 }, { "gost-mac-12", 4, 8, 1 }, { "magma-mac", 8, 8, 2 }, { "kuznyechik-mac", 16, 16, 3 }, { "kuznyechik-ctr-acpkm-omac", 16, 16, 4 } };
enum { NM = 5 };
OSSL_LIB_CTX *L; OSSL_PROVIDER *P;
EVP_CIPHER *pcs[NC]; EVP_MD *pms[3]; EVP_MAC *pxs[NM];
const EVP_CIPHER *ec(int i) { return eng_cipher(OBJ_txt2nid(ca[i].sn)); }
const EVP_MD *em(int i) { return eng_md(OBJ_txt2nid(mdn[i])); }
void open_provider(Ctx &c) {
    L = OSSL_LIB_CTX_new();
    if (!L || !OSSL_PROVIDER_add_builtin(L, "gostprov", GOST_provider_init) || !(P = OSSL_PROVIDER_load(L, "gostprov"))) c.violate("load-failed", "the provider does not load: %s", sim::err_text().c_str());
    // as default, the engine would answer in the provider's place
    ENGINE_unregister_ciphers(lib_engine()); ENGINE_unregister_digests(lib_engine());
    lib_engine();
}
EVP_CIPHER *pc(int i, Ctx &c) { if (!pcs[i]) pcs[i] = EVP_CIPHER_fetch(L, ca[i].sn, NULL); if (!pcs[i]) c.violate("not-offered", "the provider does not offer cipher %s", ca[i].sn); return pcs[i]; }
EVP_MD *pm(int i, Ctx &c) { if (!pms[i]) pms[i] = EVP_MD_fetch(L, mdn[i], NULL); if (!pms[i]) c.violate("not-offered", "the provider does not offer digest %s", mdn[i]); return pms[i]; }
EVP_MAC *px(int i, Ctx &c) { if (!pxs[i]) pxs[i] = EVP_MAC_fetch(L, ma[i].sn, NULL); if (!pxs[i]) c.violate("not-offered", "the provider does not offer MAC %s", ma[i].sn); return pxs[i]; }
void close_provider() {
    for (auto &x : pcs) { EVP_CIPHER_free(x); x = NULL; } for (auto &x : pms) { EVP_MD_free(x); x = NULL; } for (auto &x : pxs) { EVP_MAC_free(x); x = NULL; }
    if (P) OSSL_PROVIDER_unload(P); P = NULL; OSSL_LIB_CTX_free(L); L = NULL;
}
struct S {
    int kind = 0, alg = 0;             // 1 cipher, 2 digest, 3 mac
    EVP_CIPHER_CTX *p = nullptr, *e = nullptr; EVP_MD_CTX *pm = nullptr, *em = nullptr; EVP_MAC_CTX *x = nullptr;
    bool live = false, enc = true; Bytes key, iv, data; size_t fed = 0, aad = 0; int size = 0, upd = 0, re = 0; long sect = 4096, tstar = 4096;
    void drop() { EVP_CIPHER_CTX_free(p); EVP_CIPHER_CTX_free(e); EVP_MD_CTX_free(pm); EVP_MD_CTX_free(em); EVP_MAC_CTX_free(x); *this = S(); }
    const char *name() const { return kind == 1 ? ca[alg].sn : kind == 2 ? mdn[alg] : ma[alg].sn; }
};
// the random source answers both sides alike
struct Same { sim::RandState keep; Same() : keep(sim::rnd) {} void again() { sim::rnd = keep; } };
Bytes mkkey(const Plan &p, long long t) { return t % 17 == 0 ? Bytes(32, t % 2 ? 0xff : 0) : derive_bytes(p.seed, 0x4b000000 + t, 32); }
Bytes mkiv(const Plan &p, long long t, const CA &a) {
    Bytes b = t % 7 == 0 ? Bytes(a.iv, 0xff) : derive_bytes(p.seed, 0x49000000 + t, a.iv);
    if (a.kind == 3) b[0] &= 0x7f;
    return b;
}
// both sides must give the same verdict
bool agree(Ctx &c, const S &s, const char *what, int rp, int re) {
    if ((rp > 0) != (re > 0)) c.violate("verdict-differs", "%s: %s returns %d from the provider, %d from the engine (%zu bytes in, %d re-inits): %s", s.name(), what, rp, re, s.fed, s.re, sim::err_text().c_str());
    sim::err_text(); return rp > 0;
}
void gen(Rng &r, Plan &p, bool th) {
    int ns = 1 + r.below(NS), steps = 6 + r.below(th ? 40 : 22), maxcls = r.pick(std::vector<int>{ 4, 6, 8, 10, 12 });
    int kind = r.pick(std::vector<int>{ 1, 1, 1, 2, 3, 3, 0 }), only = r.chance(2, 3) ? (int)r.below(64) : -1; bool faults = r.chance(1, 4);
    auto N = [&](int n) { return (long long)r.below(n); };
    auto init = [&](int s) { p.add("new", { s, kind ? kind : 1 + N(3), only >= 0 ? only : N(64), N(40), N(40), N(64), faults ? N(8) : 0 }); if (r.chance(1, 3)) p.add("param", { s, N(4), N(40), N(40) }); };
    for (int i = 0; i < ns; i++) init(i);
    for (int i = 0; i < steps; i++) {
        int s = r.below(ns);
        switch (r.below(24)) {
        case 0: init(s); break;
        case 1: case 2: p.add("copy", { s, N(ns), faults ? N(8) : 0 }); break;
        case 3: case 4: case 5: p.add("fin", { s, N(4), N(1 << 20) }); break;
        case 6: case 7: case 8: p.add("re", { s, N(4), N(40), N(40), N(4), faults ? N(6) : 0 }); break;
        case 9: p.add("query", { s }); break;
        case 10: p.add("bad", { s, N(8), N(40) }); break;
        case 11: p.add("param", { s, N(4), N(40), N(40) }); break;
        case 12: if (r.chance(1, 2)) { p.add("asn1", { s, N(ns), N(64) }); break; } // fallthrough
        case 13: if (r.chance(1, 2)) { p.add("aad", { s, N(maxcls), N(4000), N(16), (long long)(r.next() >> 40) }); break; } // fallthrough
        default: p.add("upd", { s, N(maxcls), N(4000), N(16), N(3), (long long)(r.next() >> 40) });
        }
    }
}
OSSL_PARAM pend() { return OSSL_PARAM_construct_end(); }
// what the engine side answers for the whole message
Bytes mac_want(S &s, Ctx &c) {
    EVP_MD_CTX *m = EVP_MD_CTX_new(); uint8_t o[64]; int t = s.tstar;
    const EVP_MD *md = eng_md(OBJ_txt2nid(ma[s.alg].sn));
    bool ok = EVP_DigestInit_ex(m, md, lib_engine()) == 1 && EVP_MD_CTX_ctrl(m, EVP_MD_CTRL_SET_KEY, 32, s.key.data()) == 1
        && (ma[s.alg].kind != 4 || EVP_MD_CTX_ctrl(m, EVP_CTRL_KEY_MESH, s.sect, &t) == 1) && EVP_DigestUpdate(m, s.data.data(), s.data.size()) == 1 && EVP_DigestFinalXOF(m, o, s.size) == 1;
    EVP_MD_CTX_free(m);
    if (!ok) c.violate("engine-failed", "the engine refuses a plain %s computation: %s", s.name(), sim::err_text().c_str());
    return Bytes(o, o + s.size);
}
// what the provider says about itself
void self_description(S &s, Ctx &c) {
    auto has = [](const OSSL_PARAM *l, const char *k) { return l && OSSL_PARAM_locate_const(l, k); };
    if (s.kind == 1) {
        bool aead = ca[s.alg].kind == 3;
        if (s.live && aead && !s.fed && !s.aad) for (size_t v : { (size_t)EVP_CIPHER_get_iv_length(ec(s.alg)), (size_t)12, (size_t)17, (size_t)0 }) { // a nonce of its own size only
            OSSL_PARAM q[] = { OSSL_PARAM_construct_size_t("ivlen", &v), pend() };
            agree(c, s, "nonce length", EVP_CIPHER_CTX_set_params(s.p, q), EVP_CIPHER_CTX_ctrl(s.e, EVP_CTRL_AEAD_SET_IVLEN, (int)v, NULL));
        }
    } else if (s.kind == 2) {
        int st = 0; const char *nm = NULL; OSSL_PARAM q[] = { OSSL_PARAM_construct_int("status", &st), OSSL_PARAM_construct_utf8_ptr("name", (char **)&nm, 0), pend() };
        if (OSSL_PROVIDER_get_params(P, q) != 1 || st != 1 || !nm || !*nm) c.violate("params-missing", "the provider in use says its status is %d, its name %s", st, nm ? nm : "(none)");
    } else if (s.kind == 3) {
        EVP_MAC *m = pxs[s.alg];
        if (!has(EVP_MAC_settable_ctx_params(m), "size") || !has(EVP_MAC_settable_ctx_params(m), "key") || !has(EVP_MAC_gettable_ctx_params(m), "size") || !has(EVP_MAC_gettable_ctx_params(m), "keylen")) c.violate("params-missing", "%s: key and size are not among its parameters", s.name());
        size_t n = 0; OSSL_PARAM q[] = { OSSL_PARAM_construct_size_t("size", &n), pend() };
        if (EVP_MAC_get_params(m, q) == 1 && n && (int)n != ma[s.alg].def) c.violate("size-differs", "%s: usual tag size %zu instead of %d", s.name(), n, ma[s.alg].def);
    }
    sim::err_text();
}
void query(S &s, Ctx &c) {
    c.op("query"); c.count("queries");
    self_description(s, c);
    if (s.kind == 1) {
        const EVP_CIPHER *e = ec(s.alg), *p = pcs[s.alg];
        if (EVP_CIPHER_get_block_size(p) != EVP_CIPHER_get_block_size(e) || EVP_CIPHER_get_key_length(p) != EVP_CIPHER_get_key_length(e) || EVP_CIPHER_get_iv_length(p) != EVP_CIPHER_get_iv_length(e) || EVP_CIPHER_get_mode(p) != EVP_CIPHER_get_mode(e)
            || EVP_CIPHER_CTX_get_block_size(s.p) != EVP_CIPHER_CTX_get_block_size(s.e) || EVP_CIPHER_CTX_get_key_length(s.p) != EVP_CIPHER_CTX_get_key_length(s.e) || EVP_CIPHER_CTX_get_iv_length(s.p) != EVP_CIPHER_CTX_get_iv_length(s.e))
            c.violate("size-differs", "%s: block %d/%d key %d/%d iv %d/%d mode %d/%d (context: block %d/%d key %d/%d iv %d/%d) provider/engine", s.name(), EVP_CIPHER_get_block_size(p), EVP_CIPHER_get_block_size(e), EVP_CIPHER_get_key_length(p), EVP_CIPHER_get_key_length(e), EVP_CIPHER_get_iv_length(p), EVP_CIPHER_get_iv_length(e), EVP_CIPHER_get_mode(p), EVP_CIPHER_get_mode(e),
                EVP_CIPHER_CTX_get_block_size(s.p), EVP_CIPHER_CTX_get_block_size(s.e), EVP_CIPHER_CTX_get_key_length(s.p), EVP_CIPHER_CTX_get_key_length(s.e), EVP_CIPHER_CTX_get_iv_length(s.p), EVP_CIPHER_CTX_get_iv_length(s.e));
        if (s.live && ca[s.alg].kind != 4) {
            uint8_t a[32], b[32]; memset(a, 1, sizeof a); memset(b, 2, sizeof b); size_t n = EVP_CIPHER_CTX_get_iv_length(s.e);
            int rp = EVP_CIPHER_CTX_get_updated_iv(s.p, a, n), re = 1; memcpy(b, EVP_CIPHER_CTX_iv(s.e), n);
            if (agree(c, s, "the current IV", rp, re) && memcmp(a, b, n)) c.violate("iv-differs", "%s: the current IV after %zu bytes is %s from the provider, %s from the engine", s.name(), s.fed, hex(a, n).c_str(), hex(b, n).c_str());
            memset(a, 1, sizeof a); memset(b, 2, sizeof b);
            rp = EVP_CIPHER_CTX_get_original_iv(s.p, a, n); memcpy(b, EVP_CIPHER_CTX_original_iv(s.e), n);
            if (rp > 0 && memcmp(a, b, n)) c.violate("iv-differs", "%s: the original IV is %s from the provider, %s from the engine", s.name(), hex(a, n).c_str(), hex(b, n).c_str());
            sim::err_text();
        }
    } else if (s.kind == 2) {
        if (EVP_MD_get_size(pms[s.alg]) != EVP_MD_get_size(em(s.alg)) || EVP_MD_get_block_size(pms[s.alg]) != EVP_MD_get_block_size(em(s.alg)) || EVP_MD_CTX_get_size(s.pm) != EVP_MD_get_size(em(s.alg)))
            c.violate("size-differs", "%s: size %d/%d block %d/%d provider/engine", s.name(), EVP_MD_get_size(pms[s.alg]), EVP_MD_get_size(em(s.alg)), EVP_MD_get_block_size(pms[s.alg]), EVP_MD_get_block_size(em(s.alg)));
    } else if (s.kind == 3 && s.live) {
        size_t n = EVP_MAC_CTX_get_mac_size(s.x), k = 0; OSSL_PARAM q[] = { OSSL_PARAM_construct_size_t("keylen", &k), pend() };
        if ((int)n != s.size) c.violate("size-differs", "%s: reports a tag of %zu bytes, %d was set", s.name(), n, s.size);
        if (EVP_MAC_CTX_get_params(s.x, q) == 1 && k != 32) c.violate("size-differs", "%s: reports a key of %zu bytes", s.name(), k);
        k = 0; if (EVP_MAC_get_params(pxs[s.alg], q) == 1 && k != 32) c.violate("size-differs", "%s: reports a key of %zu bytes", s.name(), k);
    }
}
void fin(S &s, int how, uint64_t r, Ctx &c) {
    c.op("final"); c.count("finals"); c.mixsig(s.kind * 64 + s.alg); c.mixsig(s.fed % 16 + 100 * s.re);
    if (s.upd >= 2 && s.fed) c.nontrivial = true;
    if (s.kind == 1) {
        uint8_t a[64], b[64]; int n = 0, m = 0; bool aead = ca[s.alg].kind == 3; memset(a, 0xEE, sizeof a); memset(b, 0xEE, sizeof b);
        if (aead && !s.enc && how) { // the tag as the engine's sender would have it is unknown here: give both sides the same one, right or wrong
            Bytes tag = derive_bytes(r, 5, ca[s.alg].iv);
            if (how > 1) { // right: recompute it by sealing what came out
                EVP_CIPHER_CTX *q = EVP_CIPHER_CTX_new(); Bytes pt(s.data); int l;
                Bytes ad = sub(s.data, 0, s.aad), ct = sub(s.data, s.aad, s.data.size() - s.aad), o(ct.size() + 1), o2(ct.size() + 1);
                // decrypt, then encrypt again to learn the tag
                bool ok = EVP_DecryptInit_ex(q, ec(s.alg), lib_engine(), s.key.data(), s.iv.data()) == 1 && (ct.empty() || EVP_DecryptUpdate(q, o.data(), &l, ct.data(), ct.size()) == 1);
                EVP_CIPHER_CTX_reset(q);
                ok = ok && EVP_EncryptInit_ex(q, ec(s.alg), lib_engine(), s.key.data(), s.iv.data()) == 1 && (ad.empty() || EVP_EncryptUpdate(q, NULL, &l, ad.data(), ad.size()) == 1) && (ct.empty() || EVP_EncryptUpdate(q, o2.data(), &l, o.data(), ct.size()) == 1) && EVP_EncryptFinal_ex(q, b, &l) == 1 && EVP_CIPHER_CTX_ctrl(q, EVP_CTRL_AEAD_GET_TAG, tag.size(), tag.data()) == 1;
                EVP_CIPHER_CTX_free(q); sim::err_text();
                if (!ok) how = 1; else if (how == 3) tag[r % tag.size()] ^= 1 << (r >> 8) % 8;
            }
            c.count(how == 2 ? "right_tags" : "fault.tag_altered");
            agree(c, s, "setting the tag", EVP_CIPHER_CTX_ctrl(s.p, EVP_CTRL_AEAD_SET_TAG, tag.size(), tag.data()), EVP_CIPHER_CTX_ctrl(s.e, EVP_CTRL_AEAD_SET_TAG, tag.size(), tag.data()));
        }
        int rp = EVP_CipherFinal_ex(s.p, a, &n), re = EVP_CipherFinal_ex(s.e, b, &m);
        if (agree(c, s, "final", rp, re)) {
            if (n != m || memcmp(a, b, n < 0 ? 0 : n)) c.violate("output-differs", "%s: final gives %s from the provider, %s from the engine after %zu bytes, %d re-inits", s.name(), hex(a, n).c_str(), hex(b, m).c_str(), s.fed, s.re);
            if (aead && s.enc) {
                int tl = r & 256 ? ca[s.alg].iv : 1 + r % (ca[s.alg].iv + 1); memset(a, 0xEE, sizeof a); memset(b, 0xEE, sizeof b);
                rp = EVP_CIPHER_CTX_ctrl(s.p, EVP_CTRL_AEAD_GET_TAG, tl, a); re = EVP_CIPHER_CTX_ctrl(s.e, EVP_CTRL_AEAD_GET_TAG, tl, b);
                if (agree(c, s, "fetching the tag", rp, re) && memcmp(a, b, sizeof a)) c.violate("output-differs", "%s: tag %s from the provider, %s from the engine (aad %zu, data %zu, %d re-inits)", s.name(), hex(a, tl).c_str(), hex(b, tl).c_str(), s.aad, s.fed, s.re);
            }
            c.logb("final", a, sizeof a);
        }
    } else if (s.kind == 2) {
        uint8_t a[80], b[80]; unsigned n = 0, m = 0; memset(a, 0xEE, sizeof a); memset(b, 0xEE, sizeof b);
        int rp = EVP_DigestFinal_ex(s.pm, a, &n), re = EVP_DigestFinal_ex(s.em, b, &m);
        if (agree(c, s, "final", rp, re) && (n != m || memcmp(a, b, sizeof a))) c.violate("output-differs", "%s: %s (%u) from the provider, %s (%u) from the engine for %zu bytes in %d updates", s.name(), hex(a, n).c_str(), n, hex(b, m).c_str(), m, s.fed, s.upd);
        c.logb("digest", a, n);
    } else {
        uint8_t a[80]; size_t n = 0; memset(a, 0xEE, sizeof a);
        size_t q = 0; if (EVP_MAC_final(s.x, NULL, &q, 0) != 1 || (int)q != s.size) c.violate("size-differs", "%s: announces a tag of %zu bytes, %d was set", s.name(), q, s.size);
        if (EVP_MAC_final(s.x, a, &n, how == 1 ? s.size : sizeof a) != 1) c.violate("verdict-differs", "%s: final refused for a tag of %d bytes: %s", s.name(), s.size, sim::err_text().c_str());
        Bytes w = mac_want(s, c);
        if (n != w.size() || memcmp(a, w.data(), n)) c.violate("output-differs", "%s: tag %s from the provider, %s from the engine (%zu bytes in %d updates, %d re-inits, size %d)", s.name(), hex(a, n < 64 ? n : 64).c_str(), hex(w).c_str(), s.fed, s.upd, s.re, s.size);
        for (size_t i = n; i < sizeof a; i++) if (a[i] != 0xEE) c.violate("tag-overrun", "%s wrote past the %zu bytes it reports", s.name(), n);
        c.logb("tag", w);
    }
    s.live = false;
}
bool fired(Ctx &c, int f, const char *what) { sim::Faults::disarm(); bool x = f > 0 && sim::Faults::fired(); if (x) c.count(what); return x; }
void arm(int f) { if (f > 0) { sim::Faults::arm(1, f - 1, 1); sim::al.engine_only = false; } }
void exec(const Plan &p, Ctx &c) {
    sim::load_engine(); open_provider(c);
    S ss[NS];
    for (auto &o : p.ops) {
        S &s = ss[o.mod(0, NS)]; int f = 0;
        if (o.k == "new") {
            int kind = 1 + (o.arg(1) + 2) % 3, alg = o.arg(2); long long fl = o.arg(5); f = o.arg(6);
            if (kind == 1) {
                int a = alg % NC; bool keep = s.kind == 1 && (fl & 32); EVP_CIPHER *pcx = pc(a, c);
                if (!keep) { s.drop(); s.p = EVP_CIPHER_CTX_new(); s.e = EVP_CIPHER_CTX_new(); } else if (fl & 16 || s.alg != a) { EVP_CIPHER_CTX_reset(s.p); EVP_CIPHER_CTX_reset(s.e); c.count("resets"); }
                else { EVP_CIPHER_CTX_reset(s.e); c.count("reused_contexts"); } // naming the cipher again starts from a fresh context in libcrypto's provider path
                s.kind = 1; s.alg = a; s.key = mkkey(p, o.arg(3)); s.iv = mkiv(p, o.arg(4), ca[a]); s.enc = fl & 1; s.re = keep ? s.re + 1 : 0;
                const uint8_t *k = s.key.data(), *iv = ca[a].iv ? s.iv.data() : NULL; int enc = s.enc, ph = (fl >> 2) % 3, rp, re;
                c.op("cipher_init"); c.mixsig(a * 8 + ph * 2 + enc);
                const EVP_CIPHER *ecx = ec(a);
                auto I = [&](bool prov, bool first, const uint8_t *kk, const uint8_t *ii) { return prov ? EVP_CipherInit_ex2(s.p, first ? pcx : NULL, kk, ii, enc, NULL) : EVP_CipherInit_ex(s.e, first ? ecx : NULL, first ? lib_engine() : NULL, kk, ii, enc); };
                auto A = [&](bool prov) { return ph == 0 ? I(prov, true, k, iv) : ph == 1 ? (I(prov, true, NULL, NULL) > 0 ? I(prov, false, k, iv) : 0) : I(prov, true, NULL, iv) > 0 ? I(prov, false, k, NULL) : 0; };
                Same same; arm(f); rp = A(true); bool fi = fired(c, f, "fault.alloc_in_init");
                same.again(); re = A(false);
                if (rp <= 0 && fi) { sim::err_text(); s.drop(); continue; }
                if (!agree(c, s, "init", rp, re)) { s.drop(); continue; }
                int pad = fl & 2 ? 1 : 0; agree(c, s, "set padding", EVP_CIPHER_CTX_set_padding(s.p, pad), EVP_CIPHER_CTX_set_padding(s.e, pad));
            } else if (kind == 2) {
                int a = alg % 3; EVP_MD *m = pm(a, c); const EVP_MD *e = em(a); bool keep = s.kind == 2 && (fl & 32);
                if (!keep) { s.drop(); s.pm = EVP_MD_CTX_new(); s.em = EVP_MD_CTX_new(); } else if (fl & 16) { EVP_MD_CTX_reset(s.pm); EVP_MD_CTX_reset(s.em); c.count("resets"); }
                s.kind = 2; s.alg = a; s.re = keep ? s.re + 1 : 0; c.op("digest_init"); c.mixsig(200 + a);
                arm(f); int rp = EVP_DigestInit_ex2(s.pm, m, NULL); bool fi = fired(c, f, "fault.alloc_in_init");
                if (rp <= 0 && fi) { sim::err_text(); s.drop(); continue; }
                agree(c, s, "init", rp, EVP_DigestInit_ex(s.em, e, lib_engine()));
            } else {
                int a = alg % NM; EVP_MAC *m = px(a, c); bool keep = s.kind == 3 && s.alg == a && (fl & 32);
                Bytes key = mkkey(p, o.arg(3)); size_t size = 1 + o.mod(4, ma[a].max); bool setsize = fl & 1; c.op("mac_init"); c.mixsig(300 + a); c.mixsig((fl >> 1) & 3);
                int osz = keep ? s.size : ma[a].def, ore = s.re; if (!keep) s.drop();
                arm(f);
                if (!keep) s.x = EVP_MAC_CTX_new(m);
                int how = (fl >> 1) & 3, rp = s.x != NULL; OSSL_PARAM q[4]; int i = 0;
                if (how == 1 && rp && setsize) { q[i++] = OSSL_PARAM_construct_size_t("size", &size); q[i] = pend(); rp = EVP_MAC_CTX_set_params(s.x, q); i = 0; } else if (setsize) q[i++] = OSSL_PARAM_construct_size_t("size", &size);
                if (how == 2) q[i++] = OSSL_PARAM_construct_octet_string("key", key.data(), 32);
                q[i] = pend();
                if (rp > 0) rp = EVP_MAC_init(s.x, how == 2 ? NULL : key.data(), how == 2 ? 0 : 32, i ? q : NULL);
                bool fi = fired(c, f, "fault.alloc_in_init");
                EVP_MAC_CTX *x = s.x; s.kind = 3; s.alg = a;
                if (rp <= 0) { if (!fi) c.violate("verdict-differs", "%s: init refused (tag size %zu, way %d): %s", ma[a].sn, size, how, sim::err_text().c_str()); sim::err_text(); s.drop(); continue; }
                s.key = key; s.size = setsize ? size : osz; s.x = x; s.re = keep ? ore + 1 : 0; long os = s.sect, ot = s.tstar; s.sect = s.tstar = 4096;
                if (keep && a == 4 && (os != 4096 || ot != 4096)) { size_t b1 = 4096, b2 = 4096; OSSL_PARAM qq[] = { OSSL_PARAM_construct_size_t("key-mesh", &b1), OSSL_PARAM_construct_size_t("cipher-key-mesh", &b2), pend() }; EVP_MAC_CTX_set_params(s.x, qq); }
            }
            s.live = true; s.fed = s.aad = s.upd = 0; s.data.clear(); sim::err_text();
        } else if (o.k == "re" && s.kind) {
            f = o.arg(5);
            if (s.kind == 1) {
                int what = o.mod(1, 4); if (!ca[s.alg].iv) what |= 2; bool enc = o.arg(4) == 1 ? !s.enc : s.enc; if (ca[s.alg].kind == 3) what |= 1;
                Bytes key = mkkey(p, o.arg(2)), iv = mkiv(p, o.arg(3), ca[s.alg]); const uint8_t *k = what & 2 ? key.data() : NULL, *i = (what & 1) && ca[s.alg].iv ? iv.data() : NULL;
                if (what == 0 && !s.fed && s.enc == enc) continue;
                c.op("cipher_reinit"); c.mixsig(400 + what); c.count("reinits");
                Same same; int rp = EVP_CipherInit_ex2(s.p, NULL, k, i, enc, NULL); same.again(); int re = EVP_CipherInit_ex(s.e, NULL, NULL, k, i, enc);
                if (!agree(c, s, "re-init", rp, re)) { s.drop(); continue; }
                if (k) s.key = key; if (i) s.iv = iv; s.enc = enc;
            } else if (s.kind == 2) {
                c.op("digest_reinit"); c.count("reinits");
                arm(f); int rp = o.arg(1) & 1 ? EVP_DigestInit_ex2(s.pm, NULL, NULL) : EVP_DigestInit_ex2(s.pm, pms[s.alg], NULL); bool fi = fired(c, f, "fault.alloc_in_reinit");
                if (rp <= 0 && fi) { sim::err_text(); s.drop(); continue; }
                agree(c, s, "re-init", rp, o.arg(1) & 1 ? EVP_DigestInit_ex(s.em, NULL, NULL) : EVP_DigestInit_ex(s.em, em(s.alg), lib_engine()));
            } else {
                // with no key the context starts over under the key it has
                bool newkey = o.arg(1) & 1; Bytes key = mkkey(p, o.arg(2)); c.op("mac_reinit"); c.count("reinits"); c.mixsig(410 + newkey);
                size_t b1 = s.sect, b2 = s.tstar; OSSL_PARAM qq[] = { OSSL_PARAM_construct_size_t("key-mesh", &b1), OSSL_PARAM_construct_size_t("cipher-key-mesh", &b2), pend() };
                arm(f); int rp = EVP_MAC_init(s.x, newkey ? key.data() : NULL, newkey ? 32 : 0, NULL); bool fi = fired(c, f, "fault.alloc_in_reinit");
                if (rp <= 0) { if (!fi) c.violate("verdict-differs", "%s: init refused on a context in use (%s key): %s", s.name(), newkey ? "new" : "same", sim::err_text().c_str()); sim::err_text(); s.drop(); continue; }
                if (newkey) s.key = key;
                if (ma[s.alg].kind == 4 && (o.arg(3) & 1) && EVP_MAC_CTX_set_params(s.x, qq) != 1) c.violate("verdict-differs", "%s: key meshing refused after init: %s", s.name(), sim::err_text().c_str());
            }
            s.live = true; s.fed = s.aad = s.upd = 0; s.data.clear(); s.re++; sim::err_text();
        } else if (o.k == "param" && s.live && !s.fed && !s.aad) {
            c.op("param");
            if (s.kind == 1 && (ca[s.alg].kind == 1 || ca[s.alg].kind == 2)) {
                size_t v = ca[s.alg].kind == 1 ? o.arg(2) & 1 : (size_t)(ca[s.alg].iv * 2) * (1 + o.mod(2, 40)); OSSL_PARAM q[] = { OSSL_PARAM_construct_size_t("key-mesh", &v), pend() };
                agree(c, s, "key meshing", EVP_CIPHER_CTX_set_params(s.p, q), EVP_CIPHER_CTX_ctrl(s.e, EVP_CTRL_KEY_MESH, (int)v, NULL)); c.count("mesh_set");
            } else if (s.kind == 1) agree(c, s, "set padding", EVP_CIPHER_CTX_set_padding(s.p, o.arg(1) & 1), EVP_CIPHER_CTX_set_padding(s.e, o.arg(1) & 1));
            else if (s.kind == 3) {
                if (ma[s.alg].kind == 4 && o.arg(1) < 3) {
                    size_t b1 = 16 * (1 + o.mod(2, 30)), b2 = 48 * (1 + o.mod(3, 40)); OSSL_PARAM q[] = { OSSL_PARAM_construct_size_t("key-mesh", &b1), OSSL_PARAM_construct_size_t("cipher-key-mesh", &b2), pend() };
                    if (EVP_MAC_CTX_set_params(s.x, q) != 1) c.violate("verdict-differs", "%s: key meshing %zu, %zu refused: %s", s.name(), b1, b2, sim::err_text().c_str());
                    s.sect = b1; s.tstar = b2; c.count("mesh_set");
                } else { size_t v = 1 + o.mod(2, ma[s.alg].max); OSSL_PARAM q[] = { OSSL_PARAM_construct_size_t("size", &v), pend() }; if (EVP_MAC_CTX_set_params(s.x, q) != 1) c.violate("verdict-differs", "%s: tag size %zu refused", s.name(), v); s.size = v; }
            }
        } else if ((o.k == "upd" || o.k == "aad") && s.live) {
            bool aad = o.k == "aad"; if (aad && (s.kind != 1 || ca[s.alg].kind != 3)) continue;
            uint64_t dk = o.arg(aad ? 4 : 5); Bytes d = mkdata(p.seed, dk, chunk_len(o.arg(1), o.arg(2)), dk % DK_N); unsigned mis = o.mod(3, 16);
            c.op(aad ? "aad" : "update"); c.mixsig(s.kind * 64 + s.alg); c.mixsig(s.fed % 16); c.mixsig(d.size() > 48 ? 48 + d.size() % 16 : d.size());
            Buf b(d, mis);
            if (s.kind == 1) {
                int n = 0, m = 0; size_t cap = d.size() + (ca[s.alg].bs > 1 ? ca[s.alg].bs : 0); Buf x(cap, (mis * 7 + 3) % 16), y(cap, 1);
                if (aad && s.fed) c.count("fault.late_aad");
                int rp, re = EVP_CipherUpdate(s.e, aad ? NULL : y.p, &m, b.p, b.n);
                bool inplace = !aad && o.arg(4) == 1 && ca[s.alg].bs == 1; if (inplace) { memcpy(x.p, d.data(), d.size()); rp = EVP_CipherUpdate(s.p, x.p, &n, x.p, d.size()); } else rp = EVP_CipherUpdate(s.p, aad ? NULL : x.p, &n, b.p, b.n);
                if (!agree(c, s, aad ? "associated data" : "update", rp, re)) continue;
                if (!aad && (n != m || memcmp(x.p, y.p, n < 0 ? 0 : n))) { int i = 0; while (i < n && i < m && x.p[i] == y.p[i]) i++; c.violate("output-differs", "%s enc %d: update of %zu after %zu bytes (%d re-inits) gives %d bytes from the provider, %d from the engine, first difference at %d", s.name(), s.enc, d.size(), s.fed, s.re, n, m, i); }
                if (aad) s.aad += d.size();
            } else if (s.kind == 2) agree(c, s, "update", EVP_DigestUpdate(s.pm, b.p, b.n), EVP_DigestUpdate(s.em, b.p, b.n));
            else if (EVP_MAC_update(s.x, b.p, b.n) != 1) c.violate("verdict-differs", "%s: update of %zu bytes refused: %s", s.name(), d.size(), sim::err_text().c_str());
            if (!aad) s.fed += d.size(); s.data = cat(s.data, d); s.upd++;
        } else if (o.k == "copy" && s.kind) {
            S &d = ss[o.mod(1, NS)]; if (&d == &s) continue; f = o.arg(2); if (!s.live && s.kind == 3) continue;
            c.op("copy"); c.count("copies"); S n = s; n.p = n.e = NULL; n.pm = n.em = NULL; n.x = NULL; int rp = 0, re = 1;
            if (s.kind == 1) { n.p = EVP_CIPHER_CTX_new(); n.e = EVP_CIPHER_CTX_new(); arm(f); rp = EVP_CIPHER_CTX_copy(n.p, s.p); }
            else if (s.kind == 2) { n.pm = EVP_MD_CTX_new(); n.em = EVP_MD_CTX_new(); arm(f); rp = EVP_MD_CTX_copy_ex(n.pm, s.pm); }
            else { arm(f); n.x = EVP_MAC_CTX_dup(s.x); rp = n.x != NULL; }
            bool fi = fired(c, f, "fault.alloc_in_copy");
            if (s.kind == 1) re = EVP_CIPHER_CTX_copy(n.e, s.e); else if (s.kind == 2) re = EVP_MD_CTX_copy_ex(n.em, s.em);
            if (rp <= 0 && fi) { sim::err_text(); n.drop(); continue; }
            agree(c, s, "copy", rp, re); d.drop(); d = n;
        } else if (o.k == "fin" && s.live) fin(s, o.mod(1, 4), o.arg(2), c);
        else if (o.k == "query" && s.kind) query(s, c);
        else if (o.k == "asn1" && s.kind == 1 && s.live && ca[s.alg].kind != 3 && ca[s.alg].iv) {
            // parameters written by one side of a conversation, read by the other
            c.op("asn1"); ASN1_TYPE *t = ASN1_TYPE_new(); uint8_t *der = NULL; int re = EVP_CIPHER_param_to_asn1(s.e, t), l = re > 0 ? i2d_ASN1_TYPE(t, &der) : 0;
            if (l < 0) { l = 0; re = 0; }
            Bytes ed(der, der + l), pd(256, 0xEE); OPENSSL_free(der);
            OSSL_PARAM q[] = { OSSL_PARAM_construct_octet_string("alg_id_param", pd.data(), pd.size()), pend() }; int rp = EVP_CIPHER_CTX_get_params(s.p, q);
            if (agree(c, s, "writing ASN.1 parameters", rp, re)) {
                c.count("asn1_written"); if (q[0].return_size > pd.size()) c.violate("size-differs", "%s: ASN.1 parameters of %zu bytes reported", s.name(), q[0].return_size); pd.resize(q[0].return_size);
                if (pd != ed) c.violate("output-differs", "%s: ASN.1 parameters %s from the provider, %s from the engine", s.name(), hex(pd).c_str(), hex(ed).c_str());
                // a receiver on each side takes them over
                S &d = ss[o.mod(1, NS)];
                if (&d != &s) {
                    S n; n.kind = 1; n.alg = s.alg; n.p = EVP_CIPHER_CTX_new(); n.e = EVP_CIPHER_CTX_new(); n.enc = o.arg(2) & 1; n.key = s.key; n.iv = s.iv; c.op("asn1_read");
                    Bytes bd = ed; bool bad = (o.arg(2) & 14) == 2; if (bad && bd.size()) { bd.resize(o.arg(2) % bd.size()); c.count("fault.parameters_truncated"); }
                    Same same; rp = EVP_CipherInit_ex2(n.p, pc(n.alg, c), NULL, NULL, n.enc, NULL); same.again(); re = EVP_CipherInit_ex(n.e, ec(n.alg), lib_engine(), NULL, NULL, n.enc); agree(c, n, "init", rp, re);
                    const uint8_t *pp = bd.data(); ASN1_TYPE *t2 = d2i_ASN1_TYPE(NULL, &pp, bd.size()); re = t2 ? EVP_CIPHER_asn1_to_param(n.e, t2) : 0; ASN1_TYPE_free(t2);
                    OSSL_PARAM w[] = { OSSL_PARAM_construct_octet_string("alg_id_param", bd.data(), bd.size()), pend() }; rp = EVP_CIPHER_CTX_set_params(n.p, w);
                    if (agree(c, n, "reading ASN.1 parameters", rp, re)) {
                        Same s2; rp = EVP_CipherInit_ex2(n.p, NULL, n.key.data(), NULL, n.enc, NULL); s2.again(); re = EVP_CipherInit_ex(n.e, NULL, NULL, n.key.data(), NULL, n.enc); agree(c, n, "init", rp, re);
                        n.live = true; d.drop(); d = n; c.count("asn1_read");
                    } else n.drop();
                }
            }
            ASN1_TYPE_free(t); sim::err_text();
        } else if (o.k == "bad") {
            Bytes k = derive_bytes(p.seed, 9, 40); uint8_t out[80]; size_t n = 0; c.op("misuse"); c.count("fault.misuse");
            if (o.arg(1) < 4) { // MAC with no key, or one of the wrong length
                int a = o.mod(2, NM); EVP_MAC_CTX *x = EVP_MAC_CTX_new(px(a, c)); int w = o.mod(1, 4); static const size_t kl[] = { 0, 31, 16, 33 };
                size_t len = kl[w]; Buf kb(sub(k, 0, len), 3); int rp;
                if (o.arg(2) & 8) { OSSL_PARAM q[] = { OSSL_PARAM_construct_octet_string("key", kb.p, len), pend() }; rp = EVP_MAC_init(x, NULL, 0, q); }
                else rp = w == 0 && (o.arg(2) & 16) ? EVP_MAC_init(x, NULL, 0, NULL) : EVP_MAC_init(x, kb.p, len, NULL);
                if (rp > 0 && w) c.violate("bad-key-accepted", "%s: a key of %zu bytes accepted", ma[a].sn, len);
                if (rp > 0 && EVP_MAC_update(x, k.data(), 40) == 1 && EVP_MAC_final(x, out, &n, sizeof out) == 1) c.violate("no-key-accepted", "%s: a tag computed without a key", ma[a].sn);
                EVP_MAC_CTX_free(x);
            } else if (o.arg(1) < 6) { // tag sizes that cannot be produced
                int a = o.mod(2, NM); EVP_MAC_CTX *x = EVP_MAC_CTX_new(px(a, c)); size_t v = o.arg(1) == 4 ? 0 : ma[a].max + 1 + o.mod(2, 30); OSSL_PARAM q[] = { OSSL_PARAM_construct_size_t("size", &v), pend() }; memset(out, 0xEE, sizeof out);
                if (EVP_MAC_init(x, k.data(), 32, q) == 1 && EVP_MAC_update(x, k.data(), 40) == 1 && EVP_MAC_final(x, out, &n, sizeof out) == 1)
                    c.violate("bad-size-accepted", "%s: a tag of %zu bytes reported on success, %zu asked", ma[a].sn, n, v);
                EVP_MAC_CTX_free(x);
            } else if (o.arg(1) == 6) { // cipher used before a key is there
                int a = o.mod(2, NC); if (ca[a].kind == 3 || ca[a].kind == 4) continue; // covered by the verdict of the engine below
                EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(), *y = EVP_CIPHER_CTX_new(); S t; t.kind = 1; t.alg = a;
                Same same; agree(c, t, "init", EVP_CipherInit_ex2(x, pc(a, c), NULL, NULL, 1, NULL), EVP_CipherInit_ex(y, ec(a), lib_engine(), NULL, NULL, 1));
                Bytes z(17); z.resize(16); OSSL_PARAM q[] = { OSSL_PARAM_construct_octet_string("tag", k.data(), 40), pend() };
                agree(c, t, "a bad tag", EVP_CIPHER_CTX_set_params(x, q), EVP_CIPHER_CTX_ctrl(y, EVP_CTRL_AEAD_SET_TAG, 40, k.data()));
                EVP_CIPHER_CTX_free(x); EVP_CIPHER_CTX_free(y);
            } else if (s.kind == 1 && s.live && s.enc == false && ca[s.alg].kind == 3) {
                int tl = 1 + o.mod(2, 39); // tags of every length
                int rp = EVP_CIPHER_CTX_ctrl(s.p, EVP_CTRL_AEAD_SET_TAG, tl, k.data()), re = EVP_CIPHER_CTX_ctrl(s.e, EVP_CTRL_AEAD_SET_TAG, tl, k.data()); agree(c, s, "setting a tag", rp, re);
            }
            sim::err_text();
        }
    }
    for (auto &s : ss) { if (s.live) { query(s, c); fin(s, 2, p.seed, c); } s.drop(); }
    close_provider();
}
// ---- the provider alone: no engine in the process; loaded, used, kept by objects, unloaded and loaded again
enum { NH = 6 };
struct Hold { int kind = 0, alg = 0, slot = 0; EVP_CIPHER_CTX *ci = nullptr; EVP_MD_CTX *md = nullptr; EVP_MAC_CTX *mac = nullptr; Bytes key, iv, in, out;
    void drop() { EVP_CIPHER_CTX_free(ci); EVP_MD_CTX_free(md); EVP_MAC_CTX_free(mac); *this = Hold(); } };
const CipherAlg *calg(const char *sn) { for (int i = 0; i < n_cipher_algs; i++) if (!strcmp(cipher_algs[i].sn, sn)) return &cipher_algs[i]; return NULL; }
void agen(Rng &r, Plan &p, bool th) {
    auto N = [&](int n) { return (long long)r.below(n); };
    int two = r.chance(1, 2); bool faults = r.chance(1, 3);
    p.add("load", { two ? N(2) : 0, faults ? N(r.chance(1, 2) ? 60 : 8) : 0 });
    for (int i = 0, n = 5 + r.below(th ? 40 : 18); i < n; i++) switch (r.below(10)) {
        case 0: case 1: p.add("load", { two ? N(2) : 0, faults ? N(r.chance(1, 2) ? 60 : 8) : 0 }); break;
        case 2: if (two && r.chance(1, 2)) p.add("close", {}); else p.add("unload", { two ? N(2) : 0 }); break;
        case 3: case 4: case 5: p.add("start", { N(NH), two ? N(2) : 0, N(3), N(64), N(40), N(4000), N(CH_N) }); break;
        case 6: case 7: p.add("more", { N(NH), N(CH_N), N(4000) }); break;
        case 8: if (r.chance(1, 3)) { p.add("bad", { two ? N(2) : 0, N(64) }); break; } // fall through
        default: p.add("end", { N(NH) });
    }
}
void a_more(Hold &h, const Plan &p, uint64_t cls, uint64_t r, Ctx &c) {
    Bytes d = derive_bytes(p.seed, 0x600 + h.in.size(), chunk_len(cls, r)), o(d.size() + 32); int l = 0; d.reserve(1);
    bool ok = h.kind == 1 ? EVP_EncryptUpdate(h.ci, o.data(), &l, d.data(), d.size()) == 1 : h.kind == 2 ? EVP_DigestUpdate(h.md, d.data(), d.size()) == 1 : EVP_MAC_update(h.mac, d.data(), d.size()) == 1;
    if (!ok) c.violate("unusable", "an update of %zu bytes is refused (kind %d, algorithm %d, context %d): %s", d.size(), h.kind, h.alg, h.slot, sim::err_text().c_str());
    h.in = cat(h.in, d); h.out.insert(h.out.end(), o.begin(), o.begin() + l);
}
void a_end(Hold &h, Ctx &c) {
    if (!h.kind) return;
    c.op("alone_final"); c.count("finals"); uint8_t o[128]; Bytes want, got; bool ok; const char *name; if (h.in.size() > 1) c.nontrivial = true;
    if (h.kind == 1) {
        const CA &a = ca[h.alg]; name = a.sn; int l = 0; ok = EVP_EncryptFinal_ex(h.ci, o, &l) == 1; got = h.out; got.insert(got.end(), o, o + (ok ? l : 0));
        if (a.kind == 3) { Bytes tag; want = ref::mgm(*ref::mkblock(a.iv == 16, h.key.data()), h.iv, Bytes(), true, h.in, tag); want = cat(want, tag); ok = ok && EVP_CIPHER_CTX_ctrl(h.ci, EVP_CTRL_AEAD_GET_TAG, a.iv, o) == 1; got.insert(got.end(), o, o + a.iv); }
        else { Bytes x = h.in; const CipherAlg &r = *calg(a.sn); if (a.bs > 1) { size_t k = a.bs - x.size() % a.bs; x.insert(x.end(), k, (uint8_t)k); } want = ref_cipher(r, !strcmp(a.sn, "gost89-cnt") ? ref::S_A : ref::S_Z, a.kind == 2 ? (r.kuz ? 4096 : 1024) : a.kind == 1, h.key, h.iv, true, x); }
    } else if (h.kind == 2) { unsigned l = 0; name = mdn[h.alg]; ok = EVP_DigestFinal_ex(h.md, o, &l) == 1; got = Bytes(o, o + l); want = h.alg == 0 ? ref::gost94(h.in) : ref::streebog(h.alg == 1 ? 256 : 512, h.in); }
    else { size_t l = 0; name = ma[h.alg].sn; ok = EVP_MAC_final(h.mac, o, &l, sizeof o) == 1; got = Bytes(o, o + l); int k = ma[h.alg].kind;
        want = k == 0 ? ref::mac89(ref::S_A, true, h.key, h.in) : k == 1 ? ref::mac89(ref::S_Z, true, h.key, h.in) : k == 4 ? ref::kuz_acpkm_omac(h.key, h.in) : ref::cmac(*ref::mkblock(k == 3, h.key.data()), h.in); want.resize(ma[h.alg].def); }
    if (!ok || got != want) c.violate("wrong-alone", "%s from the provider alone: ok %d, %s, want %s (%zu bytes): %s", name, ok, hex(got.data(), got.size() > 32 ? 32 : got.size()).c_str(), hex(want.data(), want.size() > 32 ? 32 : want.size()).c_str(), h.in.size(), sim::err_text().c_str());
    h.drop();
}
void aexec(const Plan &p, Ctx &c) {
    OSSL_LIB_CTX *lc[2] = { NULL, OSSL_LIB_CTX_new() }; OSSL_PROVIDER *pr[2] = { NULL, NULL }; Hold h[NH];
    for (auto *x : lc) OSSL_PROVIDER_add_builtin(x, "gostprov", GOST_provider_init);
    // the engine's answers to legacy lookups would hide what the provider does
    for (auto &o : p.ops) {
        if (o.k == "load") {
            int i = o.mod(0, 2), f = o.arg(1); if (pr[i]) continue; c.op("load"); c.count("loads");
            if (f) sim::Faults::arm(3, (f - 1) % 80, 1);
            pr[i] = OSSL_PROVIDER_load(lc[i], "gostprov"); bool fi = fired(c, f, "fault.alloc_in_load");
            if (!pr[i] && !fi) c.violate("load-failed", "the provider does not load: %s", sim::err_text().c_str());
            sim::err_text();
        } else if (o.k == "unload") {
            int i = o.mod(0, 2); if (!pr[i]) continue; c.op("unload"); c.count("unloads"); OSSL_PROVIDER_unload(pr[i]); pr[i] = NULL;
            for (auto &x : h) if (x.kind) c.count("objects_over_unload");
        } else if (o.k == "close") {
            // the second library context ends, and with it the provider's last instance there; the first one goes on
            c.op("close"); c.count("contexts_closed"); for (auto &x : h) if (x.slot == 1) a_end(x, c); else if (x.kind) c.count("objects_over_close");
            if (pr[1]) OSSL_PROVIDER_unload(pr[1]); pr[1] = NULL; OSSL_LIB_CTX_free(lc[1]); lc[1] = OSSL_LIB_CTX_new(); OSSL_PROVIDER_add_builtin(lc[1], "gostprov", GOST_provider_init);
        } else if (o.k == "start") {
            Hold &x = h[o.mod(0, NH)]; int i = o.mod(1, 2); a_end(x, c); if (!pr[i]) continue;
            int kind = 1 + o.mod(2, 3), alg = o.arg(3); Hold n; n.kind = kind; n.slot = i; n.key = mkkey(p, o.arg(4)); bool ok; c.op("alone_start");
            if (kind == 1) { n.alg = alg % NC; const CA &a = ca[n.alg]; if (a.kind == 4) continue; n.iv = mkiv(p, o.arg(5), a); EVP_CIPHER *m = EVP_CIPHER_fetch(lc[i], a.sn, NULL); n.ci = EVP_CIPHER_CTX_new(); ok = m && EVP_EncryptInit_ex2(n.ci, m, n.key.data(), a.iv ? n.iv.data() : NULL, NULL) == 1; EVP_CIPHER_free(m); }
            else if (kind == 2) { n.alg = alg % 3; EVP_MD *m = EVP_MD_fetch(lc[i], mdn[n.alg], NULL); n.md = EVP_MD_CTX_new(); ok = m && EVP_DigestInit_ex2(n.md, m, NULL) == 1; EVP_MD_free(m); }
            else { n.alg = alg % NM; EVP_MAC *m = EVP_MAC_fetch(lc[i], ma[n.alg].sn, NULL); n.mac = m ? EVP_MAC_CTX_new(m) : NULL; ok = n.mac && EVP_MAC_init(n.mac, n.key.data(), 32, NULL) == 1; EVP_MAC_free(m);
                // these look for their block cipher in the default library context
                if (!ok && ma[n.alg].kind >= 2 && !pr[0]) { c.count("no_block_cipher"); sim::err_text(); n.drop(); continue; } }
            c.mixsig(kind * 100 + n.alg); c.mixsig(i);
            if (!ok) c.violate("unusable", "%s cannot be used through a loaded provider (context %d): %s", kind == 1 ? ca[n.alg].sn : kind == 2 ? mdn[n.alg] : ma[n.alg].sn, i, sim::err_text().c_str());
            x = n; a_more(x, p, o.arg(6), o.arg(5), c);
        } else if (o.k == "more") { Hold &x = h[o.mod(0, NH)]; if (x.kind) { c.op("alone_update"); a_more(x, p, o.arg(1), o.arg(2), c); } }
        else if (o.k == "end") a_end(h[o.mod(0, NH)], c);
        else if (o.k == "bad") { // a misuse that is reported through the library context's own error functions
            int i = o.mod(0, 2), a = o.mod(1, NM); if (!pr[i]) continue; uint8_t k[16] = { 1 }; EVP_MAC *m = EVP_MAC_fetch(lc[i], ma[a].sn, NULL); EVP_MAC_CTX *x = m ? EVP_MAC_CTX_new(m) : NULL; c.op("misuse"); c.count("fault.misuse");
            if (x && EVP_MAC_init(x, k, 16, NULL) == 1) c.violate("bad-key-accepted", "%s: a key of 16 bytes accepted", ma[a].sn);
            EVP_MAC_CTX_free(x); EVP_MAC_free(m); sim::err_text();
        }
    }
    for (auto &x : h) a_end(x, c);
    for (auto &x : pr) if (x) OSSL_PROVIDER_unload(x);
    OSSL_LIB_CTX_free(lc[1]);
}
RegScenario r1({ "C17", "twins", 4, gen, exec, false });
RegScenario r2({ "C17", "alone", 1, agen, aexec, false });
RegProp p1({ "C17", "exploration",
    "A run is a seeded history of up to 4 interleaved sessions over the provider's 17 ciphers, 3 digests and 5 MACs; each step is done through the provider and through the engine with the same key, IV, parameters and bytes and both must agree: fragments of every class and alignment, copies, re-initialisation, resets, padding, key meshing, tag sizes, ASN.1 parameters, AEAD tags right and wrong, missing or wrong-size keys, failing allocations; distinct = hash of step sequence with offsets and lengths",
    { "gost_prov.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c", "a private copy of the engine under the provider", "the engine", "libcrypto" },
    { "memory allocator", "random source", "libprov's error functions" },
    { "the engine's answers are the reference; they are checked against independent references by C01 to C05" },
    15000, 400000 });
}
