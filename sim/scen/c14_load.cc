// C14: the engine loaded, used, kept alive by objects, unloaded and loaded again, with faults during registration.
#include "../ec.h"
#include <unistd.h>
#include <openssl/crypto.h>
namespace {
enum { NH = 6 };
const char *mds[] = { "md_gost94", "md_gost12_256", "md_gost12_512" };
struct MacAlg { const char *sn; int len, kind; } macs[] = { { "gost-mac", 4, 0 }, { "gost-mac-12", 4, 1 }, { "magma-mac", 8, 2 }, { "kuznyechik-mac", 16, 3 } };
Bytes macref(int kind, const Bytes &k, const Bytes &d) {
    Bytes t = kind == 0 ? ref::mac89(ref::S_A, true, k, d) : kind == 1 ? ref::mac89(ref::S_Z, true, k, d) : ref::cmac(*ref::mkblock(kind == 3, k.data()), d);
    t.resize(macs[kind].len); return t;
}
Bytes mdref(int i, const Bytes &d) { return i == 0 ? ref::gost94(d) : ref::streebog(i == 1 ? 256 : 512, d); }
int destroyed; // engines destroyed so far
void on_free(void *, void *ptr, CRYPTO_EX_DATA *, int, long, void *) { if (ptr) destroyed++; }
int ex_index() { static int x = CRYPTO_get_ex_new_index(CRYPTO_EX_INDEX_ENGINE, 0, NULL, NULL, NULL, on_free); return x; }
ENGINE *find() {
    for (ENGINE *e = ENGINE_get_first(); e; e = ENGINE_get_next(e)) if (ENGINE_get_id(e) && !strcmp(ENGINE_get_id(e), "gost")) return e;
    return NULL;
}
std::string module() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 8); return n > 0 ? std::string(b, n) + ".so" : ""; }
int sboxes[] = { ref::S_A, ref::S_B, ref::S_C, ref::S_D, ref::S_TEST, ref::S_Z };
struct H { int kind = 0, alg = 0, sb = 0, ka = 0; const Curve *cv = nullptr; EVP_MD_CTX *md = nullptr; EVP_CIPHER_CTX *ci = nullptr; EVP_PKEY *pk = nullptr; EVP_PKEY_CTX *px = nullptr; ENGINE *e = nullptr; Bytes key, iv, in; size_t done = 0; int gen = 0;
    void drop() { EVP_MD_CTX_free(md); EVP_CIPHER_CTX_free(ci); EVP_PKEY_CTX_free(px); EVP_PKEY_free(pk); if (kind == 6 && e) ENGINE_free(e); *this = H(); } };
struct World {
    ENGINE *e = nullptr; bool dyn = false, def = false; int expected = 0; // engines that must have been destroyed once nothing refers to them
    int loads = 0, sb = ref::S_Z; H h[NH]; bool pinned() { for (auto &x : h) if (x.kind) return true; return false; }
};
EVP_PKEY *gen_key(ENGINE *e, int ka, const Curve &cv) {
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(ka_nid(ka), e); EVP_PKEY *pk = NULL;
    bool ok = c && EVP_PKEY_keygen_init(c) > 0 && EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, SIM_PKEY_CTRL_GOST_PARAMSET, cv.nid, NULL) > 0 && EVP_PKEY_keygen(c, &pk) > 0;
    EVP_PKEY_CTX_free(c); return ok ? pk : NULL;
}
void try_md(Ctx &c, ENGINE *e, int i, const Bytes &d, bool byname) {
    const EVP_MD *m = byname ? EVP_get_digestbyname(mds[i]) : ENGINE_get_digest(e, OBJ_sn2nid(mds[i])); uint8_t o[64]; unsigned n = 0;
    if (!m || EVP_Digest(d.data(), d.size(), o, &n, m, byname ? NULL : e) != 1 || Bytes(o, o + n) != mdref(i, d)) c.violate("unusable", "digest %s does not work after a successful load: %s", mds[i], sim::err_text().c_str());
}
void try_cipher(Ctx &c, ENGINE *e, int i, int sb, uint64_t seed, bool byname) {
    const CipherAlg &a = cipher_algs[i]; const EVP_CIPHER *ci = byname ? EVP_get_cipherbyname(a.sn) : ENGINE_get_cipher(e, OBJ_sn2nid(a.sn)); Bytes k = derive_bytes(seed, 1, 32), iv = derive_bytes(seed, 2, 16), d = derive_bytes(seed, 3, 64), out(160); int l = 0;
    iv.resize(a.ivlen); EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    bool ok = ci && EVP_EncryptInit_ex(x, ci, byname ? NULL : e, k.data(), iv.data()) == 1 && EVP_CIPHER_CTX_set_padding(x, 0) == 1 && EVP_EncryptUpdate(x, out.data(), &l, d.data(), d.size()) == 1;
    EVP_CIPHER_CTX_free(x); out.resize(l); int s = a.mode == CM_CFB89 || a.mode == CM_CBC89 ? sb : !strcmp(a.sn, "gost89-cnt") ? ref::S_A : ref::S_Z;
    if (!ok || out != ref_cipher(a, s, a.mode == CM_ACPKM ? (a.kuz ? 4096 : 1024) : 1, k, iv, true, d)) c.violate("unusable", "cipher %s does not work after a successful load: %s", a.sn, sim::err_text().c_str());
}
void try_mgm(Ctx &c, ENGINE *e, bool kuz, uint64_t seed) {
    Bytes k = derive_bytes(seed, 1, 32), iv = derive_bytes(seed, 2, kuz ? 16 : 8), d = derive_bytes(seed, 3, 50), out(64), tag(kuz ? 16 : 8), t2; int l = 0; iv[0] &= 0x7f;
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); const EVP_CIPHER *ci = ENGINE_get_cipher(e, OBJ_sn2nid(kuz ? "kuznyechik-mgm" : "magma-mgm"));
    bool ok = ci && EVP_EncryptInit_ex(x, ci, e, k.data(), iv.data()) == 1 && EVP_EncryptUpdate(x, out.data(), &l, d.data(), d.size()) == 1 && EVP_EncryptFinal_ex(x, tag.data(), &l) == 1 && EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, tag.size(), tag.data()) > 0;
    EVP_CIPHER_CTX_free(x); out.resize(d.size());
    if (!ok || out != ref::mgm(*ref::mkblock(kuz, k.data()), iv, Bytes(), true, d, t2) || tag != t2) c.violate("unusable", "%s-mgm does not work after a successful load: %s", kuz ? "kuznyechik" : "magma", sim::err_text().c_str());
}
EVP_MD_CTX *mac_start(ENGINE *e, int i, const Bytes &k) {
    EVP_PKEY *pk = EVP_PKEY_new_mac_key(OBJ_sn2nid(macs[i].sn), e, k.data(), 32); EVP_MD_CTX *m = EVP_MD_CTX_new();
    bool ok = pk && EVP_DigestSignInit(m, NULL, ENGINE_get_digest(e, OBJ_sn2nid(macs[i].sn)), e, pk) == 1; EVP_PKEY_free(pk);
    if (!ok) { EVP_MD_CTX_free(m); return NULL; } return m;
}
void try_mac(Ctx &c, ENGINE *e, int i, uint64_t seed) {
    Bytes k = derive_bytes(seed, 1, 32), d = derive_bytes(seed, 3, 70); uint8_t o[64]; size_t n = sizeof o; EVP_MD_CTX *m = mac_start(e, i, k);
    bool ok = m && EVP_DigestSignUpdate(m, d.data(), d.size()) == 1 && EVP_DigestSignFinal(m, o, &n) == 1; EVP_MD_CTX_free(m);
    if (!ok || Bytes(o, o + n) != macref(i, k, d)) c.violate("unusable", "MAC %s does not work after a successful load: ok %d, %s, want %s: %s", macs[i].sn, ok, hex(o, n).c_str(), hex(macref(i, k, d)).c_str(), sim::err_text().c_str());
}
void check_key(Ctx &c, EVP_PKEY *pk, int ka, const Curve &cv, uint64_t seed, ENGINE *e, bool mayfail = false) {
    std::string w = key_check(pk, cv); if (!w.empty()) c.violate("unusable", "key on %s: %s", cv.sn, w.c_str());
    Bytes d = derive_bytes(seed, 7, ka == KA_512 ? 64 : 32), s(128); size_t n = s.size(); Bn pd; Pt Q; key_read(pk, pd, Q);
    EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(pk, e); bool ok = x && EVP_PKEY_sign_init(x) > 0 && EVP_PKEY_sign(x, s.data(), &n, d.data(), d.size()) > 0; EVP_PKEY_CTX_free(x); s.resize(ok ? n : 0);
    if (!ok && mayfail) { c.count("held_key_refused"); return; }
    if (!ok || !ref::ec_verify(cv, Q, d, s)) c.violate("unusable", "signing on %s does not work: %s", cv.sn, sim::err_text().c_str());
    x = EVP_PKEY_CTX_new(pk, e); ok = x && EVP_PKEY_verify_init(x) > 0 && EVP_PKEY_verify(x, s.data(), n, d.data(), d.size()) == 1; EVP_PKEY_CTX_free(x);
    if (!ok && !mayfail) c.violate("unusable", "verifying on %s does not work: %s", cv.sn, sim::err_text().c_str());
}
void try_key(Ctx &c, ENGINE *e, int ka, int cn, uint64_t seed) {
    auto &cl = ka_curves(ka); const Curve &cv = curve(cl[cn % cl.size()]); EVP_PKEY *pk = gen_key(e, ka, cv);
    if (!pk) c.violate("unusable", "no key on %s after a successful load: %s", cv.sn, sim::err_text().c_str());
    check_key(c, pk, ka, cv, seed, NULL);
    uint8_t *p = NULL; int n = i2d_PUBKEY(pk, &p); const uint8_t *q = p; EVP_PKEY *k2 = n > 0 ? d2i_PUBKEY(NULL, &q, n) : NULL; OPENSSL_free(p);
    bool ok = k2 && EVP_PKEY_eq(pk, k2) == 1; EVP_PKEY_free(k2); PKCS8_PRIV_KEY_INFO *p8 = EVP_PKEY2PKCS8(pk); k2 = p8 ? EVP_PKCS82PKEY(p8) : NULL; ok = ok && k2 && EVP_PKEY_eq(pk, k2) == 1; EVP_PKEY_free(k2); PKCS8_PRIV_KEY_INFO_free(p8);
    if (!ok) c.violate("unusable", "storing a key on %s does not work: %s", cv.sn, sim::err_text().c_str());
    EVP_PKEY_free(pk);
}
void no_trace(Ctx &c, const char *when) {
    for (auto m : mds) if (EVP_get_digestbyname(m)) c.violate("trace", "%s: the digest name %s is still registered", when, m);
    for (auto m : { "streebog256", "streebog512" }) if (EVP_get_digestbyname(m)) c.violate("trace", "%s: the digest name %s is still registered", when, m);
    for (auto &m : macs) if (EVP_get_digestbyname(m.sn)) c.violate("trace", "%s: the MAC name %s is still registered", when, m.sn);
    for (int i = 0; i < n_cipher_algs; i++) if (EVP_get_cipherbyname(cipher_algs[i].sn)) c.violate("trace", "%s: the cipher name %s is still registered", when, cipher_algs[i].sn);
    for (auto m : { "kuznyechik-mgm", "magma-mgm", "magma-kexp15", "kuznyechik-kexp15", "magma-ctr-acpkm-omac", "kuznyechik-ctr-acpkm-omac" }) if (EVP_get_cipherbyname(m)) c.violate("trace", "%s: the cipher name %s is still registered", when, m);
    auto bad = [&](ENGINE *e, const char *w) { if (e) c.violate("trace", "%s: an engine is still offered for %s", when, w); };
    for (auto m : mds) bad(ENGINE_get_digest_engine(OBJ_sn2nid(m)), m);
    for (int i = 0; i < n_cipher_algs; i++) bad(ENGINE_get_cipher_engine(OBJ_sn2nid(cipher_algs[i].sn)), cipher_algs[i].sn);
    for (int k = 0; k < 4; k++) { bad(ENGINE_get_pkey_meth_engine(ka_nid(k)), "a key algorithm"); bad(ENGINE_get_pkey_asn1_meth_engine(ka_nid(k)), "a key format"); }
    if (find()) c.violate("trace", "%s: the engine is still listed", when);
    std::string l; if (sim::track_live(&l, true)) c.violate("leak", "%s: still allocated: %s", when, l.c_str());
}
void all(Ctx &c, World &w, uint64_t seed) {
    const int *nids; ENGINE *e = w.e; int n; Bytes d = derive_bytes(seed, 9, 200);
    n = ENGINE_get_digests(e) ? ENGINE_get_digests(e)(e, NULL, &nids, 0) : 0; if (n < 3) c.violate("unusable", "only %d digests advertised", n);
    for (int i = 0; i < n; i++) { const EVP_MD *m = ENGINE_get_digest(e, nids[i]); if (!m || EVP_MD_type(m) != nids[i]) c.violate("unusable", "advertised digest %s is not there", OBJ_nid2sn(nids[i]));
        EVP_MD_CTX *x = EVP_MD_CTX_new(); bool ok = EVP_DigestInit_ex(x, m, e) == 1; EVP_MD_CTX_free(x); if (!ok) c.violate("unusable", "advertised digest %s does not start", OBJ_nid2sn(nids[i]));
        if (EVP_get_digestbyname(OBJ_nid2sn(nids[i])) != m) c.violate("unusable", "advertised digest %s is not found by name", OBJ_nid2sn(nids[i])); }
    n = ENGINE_get_ciphers(e) ? ENGINE_get_ciphers(e)(e, NULL, &nids, 0) : 0; if (n < n_cipher_algs) c.violate("unusable", "only %d ciphers advertised", n);
    for (int i = 0; i < n; i++) { const EVP_CIPHER *m = ENGINE_get_cipher(e, nids[i]); if (!m || EVP_CIPHER_nid(m) != nids[i]) c.violate("unusable", "advertised cipher %s is not there", OBJ_nid2sn(nids[i]));
        if (EVP_get_cipherbyname(OBJ_nid2sn(nids[i])) != m) c.violate("unusable", "advertised cipher %s is not found by name", OBJ_nid2sn(nids[i])); }
    n = ENGINE_get_pkey_meths(e) ? ENGINE_get_pkey_meths(e)(e, NULL, &nids, 0) : 0; if (n < 8) c.violate("unusable", "only %d key algorithms advertised", n);
    int listed_only = OBJ_sn2nid("magma-ctr-acpkm-omac"); // reported by the scenario "advertised", so that it does not hide anything here
    for (int i = 0; i < n; i++) { if (nids[i] == listed_only) continue; if (!ENGINE_get_pkey_meth(e, nids[i])) c.violate("unusable", "advertised key algorithm %s is not there", OBJ_nid2sn(nids[i]));
        EVP_PKEY_CTX *x = EVP_PKEY_CTX_new_id(nids[i], e); bool ok = x && EVP_PKEY_keygen_init(x) > 0; EVP_PKEY_CTX_free(x); if (!ok) c.violate("unusable", "advertised key algorithm %s does not start: %s", OBJ_nid2sn(nids[i]), sim::err_text().c_str()); }
    n = ENGINE_get_pkey_asn1_meths(e) ? ENGINE_get_pkey_asn1_meths(e)(e, NULL, &nids, 0) : 0; if (n < 8) c.violate("unusable", "only %d key formats advertised", n);
    for (int i = 0; i < n; i++) if (nids[i] != listed_only && !ENGINE_get_pkey_asn1_meth(e, nids[i])) c.violate("unusable", "advertised key format %s is not there", OBJ_nid2sn(nids[i]));
    for (int i = 0; i < 3; i++) try_md(c, e, i, d, false);
    for (int i = 0; i < n_cipher_algs; i++) try_cipher(c, e, i, w.sb, seed, false);
    try_mgm(c, e, false, seed); try_mgm(c, e, true, seed); for (int i = 0; i < 4; i++) { if (w.def) try_mac(c, e, i, seed); }
    if (w.def) { try_md(c, e, seed % 3, d, true); try_cipher(c, e, seed % n_cipher_algs, w.sb, seed, true); for (int k = 0; k < 4; k++) try_key(c, e, k, seed >> 8, seed); }
    c.count("full_checks");
}
void gen(Rng &r, Plan &p, bool th) {
    int n = 6 + r.below(th ? 30 : 14); int fl = r.below(3); int last = 0;
    auto load = [&] { int k = r.chance(1, 2) ? 0 : 2 + (int)r.below(3); p.add("load", { fl < 2 ? fl : (long long)r.below(2), k, (long long)r.below(k == 4 ? 700 : 160), r.chance(1, 4) ? 1000000 : 1 + (long long)r.below(3), (long long)(r.next() >> 40) }); };
    load(); if (r.chance(3, 4)) p.add("default", { 0, 0, 1 });
    for (int i = 0; i < n; i++) switch (r.below(16)) {
        case 0: case 1: case 2: load(); if (r.chance(3, 4)) p.add("default", { 0, 0, 1 }); break;
        case 3: p.add("default", { (long long)r.below(4), (long long)r.below(30), 1 }); break;
        case 4: p.add("all", { (long long)(r.next() >> 40) }); break;
        case 5: case 6: p.add("use", { (long long)r.below(6), (long long)(r.next() >> 40) }); break;
        case 7: case 8: p.add("hold", { last = r.below(NH), (long long)r.below(7), (long long)(r.next() >> 40) }); break;
        case 9: p.add("held", { r.chance(2, 3) ? last : (long long)r.below(NH), (long long)r.below(200) }); break;
        case 10: p.add("drop", { (long long)r.below(NH) }); break;
        case 11: case 12: case 13: p.add("unload", {}); if (r.chance(1, 2)) p.add("held", { last, (long long)r.below(200) }); if (r.chance(1, 2)) p.add("names", {}); break;
        case 14: p.add("setting", { (long long)r.below(6) }); break;
        case 15: p.add("names", {}); break;
    }
    p.add("end", { (long long)r.below(3) });
}
void exec(const Plan &p, Ctx &c) {
    World w; Bytes in = derive_bytes(p.seed, 1, 100); std::string so = module(); destroyed = 0; curve(0); ex_index();
    OPENSSL_init_crypto(OPENSSL_INIT_ENGINE_DYNAMIC, NULL); { EVP_MD_CTX *x = EVP_MD_CTX_new(); uint8_t o[64]; EVP_Digest(o, 1, o, NULL, EVP_sha256(), NULL); EVP_MD_CTX_free(x); }
    sim::track_begin();
    auto dead = [&] { return !w.e && destroyed == w.loads; };
    auto settle = [&] { // nothing of ours refers to the engine: it must be gone, with everything it registered
        if (w.e || w.pinned()) return;
        if (destroyed != w.loads) c.violate("engine-kept", "the engine was released by everyone and is still there");
        w.sb = ref::S_Z; no_trace(c, "after the unload");
    };
    auto unload = [&] {
        if (!w.e) return; c.op("unload"); ENGINE_unregister_ciphers(w.e); ENGINE_unregister_digests(w.e); ENGINE_unregister_pkey_meths(w.e); ENGINE_unregister_pkey_asn1_meths(w.e);
        ENGINE_remove(w.e); ENGINE_free(w.e); w.e = NULL; w.def = false; c.count(w.pinned() ? "unloads_while_in_use" : "unloads"); sim::err_text(); settle();
    };
    for (auto &o : p.ops) {
        if (o.k == "load") {
            if (w.e) continue; bool dyn = o.arg(0) & 1; if (!dead() && dyn != w.dyn) continue; bool alive = !dead();
            int kind = o.mod(1, 5); c.op(dyn ? "load_module" : "load_library"); ENGINE *e = NULL; bool ok = true;
            if (dyn) e = ENGINE_by_id("dynamic"), ok = e && ENGINE_ctrl_cmd_string(e, "SO_PATH", so.c_str(), 0) == 1 && ENGINE_ctrl_cmd_string(e, "ID", "gost", 0) == 1 && ENGINE_ctrl_cmd_string(e, "LIST_ADD", "2", 0) == 1;
            if (!ok) c.violate("harness", "no dynamic engine: %s", sim::err_text().c_str());
            if (kind) { sim::Faults::arm(kind == 4 ? 1 : kind, o.arg(2), o.arg(3)); sim::al.engine_only = kind != 4; sim::al.sturdy_only = true; }
            if (dyn) { ok = ENGINE_ctrl_cmd_string(e, "LOAD", NULL, 0) == 1; if (!ok) { ENGINE_free(e); e = NULL; } }
            else { ENGINE_load_gost(); e = find(); ok = e != NULL; }
            uint64_t fa = kind ? sim::al.failed : 0; sim::Faults::disarm(); sim::al.engine_only = true; uint64_t f = kind ? sim::Faults::fired() : 0; std::string wh = sim::al.last + sim::dep.last, er = sim::err_text();
            c.log("load dyn %d: %d, %llu faults %s: %s", dyn, ok, (unsigned long long)f, wh.c_str(), er.c_str()); c.mixsig(1000 + dyn * 500 + (f ? o.arg(2) * 4 + kind : 0)); c.mixsig(ok);
            if (f) { c.count(fa ? "fault.allocation" : "fault.registration_call"); c.nontrivial = true; }
            if (ok && alive) c.violate("loaded-twice", "a second engine came up while the first one is still in use");
            if (!ok && !f && !alive) c.violate("load-failed", "load number %d failed with no fault: %s", w.loads + 1, er.c_str());
            if (ok) { w.e = e; w.dyn = dyn; w.def = false; w.loads++; ENGINE_set_ex_data(e, ex_index(), &w); if (w.loads > 1) c.nontrivial = true; all(c, w, mix64(p.seed, o.arg(4))); c.count(w.loads > 1 ? "reloads" : "loads"); }
            else { c.count(alive ? "loads_refused_in_use" : "loads_failed"); if (!alive) no_trace(c, ("after a load that failed at " + wh).c_str()); }
        } else if (o.k == "default") {
            if (!w.e) continue; int kind = o.mod(0, 4); c.op("set_default"); if (kind) sim::Faults::arm(kind, o.arg(1), o.arg(2));
            bool ok = ENGINE_set_default(w.e, ENGINE_METHOD_ALL) == 1; sim::Faults::disarm(); sim::err_text();
            if (!ok && !(kind && sim::Faults::fired())) c.violate("unusable", "the engine cannot be made the default"); w.def = ok;
        } else if (o.k == "all") { if (!w.e) continue; c.op("use_all"); all(c, w, mix64(p.seed, o.arg(0)));
        } else if (o.k == "use") {
            if (!w.e) continue; uint64_t s = mix64(p.seed, o.arg(1)); c.op("use"); c.mixsig(o.arg(0) * 64 + s % 5);
            switch (o.mod(0, 6)) {
            case 0: try_md(c, w.e, s % 3, derive_bytes(s, 1, s % 300), w.def); break;
            case 1: try_cipher(c, w.e, s % n_cipher_algs, w.sb, s, w.def); break;
            case 2: try_mgm(c, w.e, s & 1, s); break;
            case 3: if (w.def) try_mac(c, w.e, s % 4, s); break;
            default: if (w.def) try_key(c, w.e, s % 4, s >> 9, s);
            }
        } else if (o.k == "hold") {
            if (!w.e) continue; H &h = w.h[o.mod(0, NH)]; if (h.kind) continue; uint64_t s = mix64(p.seed, o.arg(2)); int k = o.mod(1, 7); bool ok = true; c.op("hold"); c.mixsig(2000 + k);
            h.key = derive_bytes(s, 1, 32); h.iv = derive_bytes(s, 2, 16); h.gen = w.loads; h.sb = w.sb;
            if (k == 0) { h.alg = s % 3; h.md = EVP_MD_CTX_new(); ok = EVP_DigestInit_ex(h.md, ENGINE_get_digest(w.e, OBJ_sn2nid(mds[h.alg])), w.e) == 1; }
            else if (k == 1) { h.alg = s % n_cipher_algs; h.iv.resize(cipher_algs[h.alg].ivlen); h.ci = EVP_CIPHER_CTX_new(); ok = EVP_EncryptInit_ex(h.ci, ENGINE_get_cipher(w.e, OBJ_sn2nid(cipher_algs[h.alg].sn)), w.e, h.key.data(), h.iv.data()) == 1; EVP_CIPHER_CTX_set_padding(h.ci, 0); }
            else if (k == 2 || k == 3) { if (!w.def) continue; h.ka = s % 4; auto &cl = ka_curves(h.ka); h.cv = &curve(cl[(s >> 8) % cl.size()]); h.pk = gen_key(w.e, h.ka, *h.cv); ok = h.pk; if (ok && k == 3) { h.px = EVP_PKEY_CTX_new(h.pk, NULL); ok = h.px && EVP_PKEY_sign_init(h.px) > 0; } }
            else if (k == 4) { if (!w.def) continue; h.alg = s % 4; h.md = mac_start(w.e, h.alg, h.key); ok = h.md; }
            else if (k == 5) { if (!w.def) continue; h.ka = s % 4; auto &cl = ka_curves(h.ka); h.cv = &curve(cl[(s >> 8) % cl.size()]); Bn d = Bn::be(h.key) % h.cv->q; h.pk = pub_import(h.ka, *h.cv, h.cv->mulg(d)); ok = h.pk; }
            else { ENGINE_up_ref(w.e); h.e = w.e; }
            if (!ok) c.violate("unusable", "an object of kind %d cannot be created: %s", k, sim::err_text().c_str()); h.kind = k + 0; if (k == 0) h.kind = 7; // 0 is empty
            c.count("held");
        } else if (o.k == "held") {
            H &h = w.h[o.mod(0, NH)]; if (!h.kind) continue; c.op("use_held"); Bytes d = derive_bytes(p.seed, 77 + h.in.size(), 1 + o.mod(1, 200)); if (!w.e) { c.count("used_after_unload"); c.nontrivial = true; } c.mixsig(3000 + h.kind * 2 + !w.e);
            if (h.kind == 7) { h.in = cat(h.in, d); EVP_MD_CTX *x = EVP_MD_CTX_new(); uint8_t b[64]; unsigned n; bool ok = EVP_DigestUpdate(h.md, d.data(), d.size()) == 1 && EVP_MD_CTX_copy_ex(x, h.md) == 1 && EVP_DigestFinal_ex(x, b, &n) == 1; EVP_MD_CTX_free(x); if (!ok || Bytes(b, b + n) != mdref(h.alg, h.in)) c.violate("held-object", "a digest started before the unload is wrong: %s", sim::err_text().c_str()); }
            else if (h.kind == 1) { const CipherAlg &a = cipher_algs[h.alg]; d.resize((d.size() + 15) / 16 * 16); h.in = cat(h.in, d); Bytes out(d.size() + 32); int l = 0; bool ok = EVP_EncryptUpdate(h.ci, out.data(), &l, d.data(), d.size()) == 1 && l == (int)d.size(); out.resize(d.size());
                int s = a.mode == CM_CFB89 || a.mode == CM_CBC89 ? h.sb : !strcmp(a.sn, "gost89-cnt") ? ref::S_A : ref::S_Z; Bytes want = ref_cipher(a, s, a.mode == CM_ACPKM ? (a.kuz ? 4096 : 1024) : 1, h.key, h.iv, true, h.in);
                if (!ok || out != sub(want, h.done, d.size())) c.violate("held-object", "%s started before the unload is wrong", a.sn); h.done = h.in.size(); }
            else if (h.kind == 2) check_key(c, h.pk, h.ka, *h.cv, p.seed, NULL, !w.def);
            else if (h.kind == 3) { d.resize(h.ka == KA_512 ? 64 : 32, 1); Bytes s(128); size_t n = 128; Bn pd; Pt Q; key_read(h.pk, pd, Q); bool ok = EVP_PKEY_sign(h.px, s.data(), &n, d.data(), d.size()) > 0; s.resize(ok ? n : 0); if (!ok && !w.def) c.count("held_key_refused"); else if (!ref::ec_verify(*h.cv, Q, d, s)) c.violate("held-object", "signing with a context made before the unload: %s", sim::err_text().c_str()); }
            else if (h.kind == 4) { h.in = cat(h.in, d); uint8_t b[64]; size_t n = 64; EVP_MD_CTX *x = EVP_MD_CTX_new(); bool ok = EVP_DigestSignUpdate(h.md, d.data(), d.size()) == 1 && EVP_MD_CTX_copy_ex(x, h.md) == 1 && EVP_DigestSignFinal(x, b, &n) == 1; EVP_MD_CTX_free(x); if (!ok || Bytes(b, b + n) != macref(h.alg, h.key, h.in)) c.violate("held-object", "a MAC started before the unload is wrong: %s", sim::err_text().c_str()); }
            else if (h.kind == 5) { uint8_t *q = NULL; int n = i2d_PUBKEY(h.pk, &q); Bn d2 = Bn::be(h.key) % h.cv->q; if (n <= 0 && !w.def) c.count("held_key_refused"); else { Bytes le = h.cv->pubLE(h.cv->mulg(d2)); if (n < (int)le.size() || Bytes(q + n - le.size(), q + n) != le) c.violate("held-object", "a public key read before the unload is written wrong: %s", sim::err_text().c_str()); } OPENSSL_free(q); }
            else if (h.kind == 6) { if (strcmp(ENGINE_get_id(h.e), "gost")) c.violate("held-object", "engine renamed"); }
        } else if (o.k == "drop") { H &h = w.h[o.mod(0, NH)]; if (!h.kind) continue; c.op("drop"); c.mixsig(4000 + h.kind * 2 + !w.e); h.drop(); settle();
        } else if (o.k == "unload") { bool had = w.e; c.mixsig(5000 + w.pinned()); unload(); if (had) c.nontrivial = true;
        } else if (o.k == "names") {
            c.op("names"); if (dead()) no_trace(c, "with no engine loaded");
            else if (w.e) for (int i = 0; i < n_cipher_algs; i++) if (EVP_get_cipherbyname(cipher_algs[i].sn) != ENGINE_get_cipher(w.e, OBJ_sn2nid(cipher_algs[i].sn))) c.violate("unusable", "%s found by name is not the engine's", cipher_algs[i].sn);
        } else if (o.k == "setting") {
            if (!w.e) continue; c.op("setting"); w.sb = sboxes[o.mod(0, 6)];
            if (ENGINE_ctrl_cmd_string(w.e, "CRYPT_PARAMS", sbox_names[w.sb], 0) != 1) c.violate("unusable", "CRYPT_PARAMS refused: %s", sim::err_text().c_str());
        } else if (o.k == "end") {
            int how = o.mod(0, 3); c.op("end"); if (how == 0) unload(); for (auto &h : w.h) if (h.kind) h.drop(); if (how != 2) unload(); else if (w.e) { ENGINE_free(w.e); w.e = NULL; }
            if (how != 2) settle(); sim::err_text();
            // the process ends: whatever is still loaded goes with the library
            c.op("library_cleanup"); OPENSSL_cleanup(); if (destroyed != w.loads) c.violate("engine-kept", "the engine outlives the library (%d of %d destroyed)", destroyed, w.loads);
            std::string l; if (sim::track_live(&l, true)) c.violate("leak", "still allocated at the end of the process: %s", l.c_str());
            return;
        }
    }
    for (auto &h : w.h) if (h.kind) h.drop();
}
void gen_adv(Rng &r, Plan &p, bool) { p.add("load", { (long long)r.below(2) }); }
void exec_adv(const Plan &, Ctx &c) { // every key algorithm the engine lists has a method
    c.op("load_library"); OPENSSL_init_crypto(OPENSSL_INIT_ENGINE_DYNAMIC, NULL); ENGINE_load_gost(); ENGINE *e = find(); if (!e) c.violate("load-failed", "load failed with no fault");
    const int *nids; c.op("list"); std::string miss;
    for (auto f : { ENGINE_get_pkey_meths(e) ? ENGINE_get_pkey_meths(e)(e, NULL, &nids, 0) : 0 }) for (int i = 0; i < f; i++) if (!ENGINE_get_pkey_meth(e, nids[i])) { std::string n = OBJ_nid2sn(nids[i]); if (n != "magma-ctr-acpkm-omac") c.violate(("no-method:" + n).c_str(), "the engine lists the key algorithm %s and has no method for it", n.c_str()); miss = n; }
    if (!miss.empty()) c.violate(("no-method:" + miss).c_str(), "the engine lists the key algorithm %s and has no method for it", miss.c_str());
}
RegScenario r1({ "C14", "load", 60, gen, exec, false });
RegScenario r2({ "C14", "advertised", 1, gen_adv, exec_adv, false });
RegProp p1({ "C14", "fault-injection",
    "A run is a seeded history over the engine linked as a library and as a loadable module: loads with failing allocations or registration calls at seeded points, making it the default, using every advertised algorithm (compared with independent references), changing a setting, keeping digest, cipher, MAC and key objects over an unload, releasing them, unloading, loading again, and ending the process. A failed load must leave no name, table entry or allocation; a successful one must offer everything; an engine no longer referred to must be gone with its registrations. Non-trivial: a fault fired, a reload, or an unload.",
    { "the engine, as library and as dlopen'ed module", "libcrypto's ENGINE, OBJ and EVP tables" }, { "memory allocator (engine's requests)", "libcrypto registration calls, when failing", "random source" },
    { "an application unregisters the engine (ENGINE_unregister_*) before it drops its last reference, as libcrypto requires", "a load while an earlier instance is still kept alive by objects is refused", "key objects that outlive the registration (libcrypto looks a key type up in the engine table) may refuse to work, but not go wrong" }, 4000, 150000 });
}
