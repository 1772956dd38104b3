// C13: one precedence rule for engine settings, through any history of environment changes, sets and reads.
#include "../ec.h"
#include <cstdlib>
#include <openssl/pkcs12.h>
namespace {
enum { NS = 4, NB = 3 };
const char *envn[] = { "CRYPT_PARAMS", "GOST_PBE_HMAC", "GOST_PK_FORMAT" };
const char *cmdn[] = { "CRYPT_PARAMS", "PBE_PARAMS", "GOST_PK_FORMAT" };
const char *vcrypt[] = { "id-Gost28147-89-CryptoPro-A-ParamSet", "id-Gost28147-89-CryptoPro-B-ParamSet", "id-Gost28147-89-CryptoPro-C-ParamSet", "id-Gost28147-89-CryptoPro-D-ParamSet",
    "id-tc26-gost-28147-param-Z", "id-Gost28147-89-TestParamSet", "1.2.643.2.2.31.2", "1.2.643.7.1.2.5.1.1", "GOST 28147-89 TC26 parameter set", "", "no such set", "sha256", "id-Gost28147-89-CryptoPro-A-ParamSe" };
const char *vpbe[] = { "md_gost12_256", "md_gost12_512", "md_gost94", "", "bogus", "md_gost12_2567" };
const char *vpk[] = { "LEGACY_PK_WRAP", "", "legacy_pk_wrap", "LEGACY_PK_WRA", "LEGACY_PK_WRAP " };
std::string val(int i, long long v) { v = v < 0 ? -v : v; return i == 0 ? vcrypt[v % 13] : i == 1 ? vpbe[v % 6] : vpk[v % 5]; }
struct Opt { bool set = false; std::string v; bool operator==(const Opt &o) const { return set == o.set && v == o.v; } };
struct Model {
    Opt v[3], env[3];
    Opt get(int i) { if (!v[i].set && env[i].set) v[i] = env[i]; return v[i]; }
    void put(int i, Opt x) { v[i] = env[i].set ? env[i] : x; }
};
// S-box the setting stands for; 0: none
int sbox(const Opt &o) {
    if (!o.set || o.v.empty()) return ref::S_Z;
    if (o.v == vcrypt[6]) return ref::S_B;
    if (o.v == vcrypt[7] || o.v == vcrypt[8]) return ref::S_Z;
    for (int i = ref::S_TEST; i <= ref::S_Z; i++) if (o.v == sbox_names[i]) return i;
    return 0;
}
int prf(const Opt &o) {
    if (o.set && o.v == "md_gost12_256") return OBJ_sn2nid("id-tc26-hmac-gost-3411-2012-256");
    if (o.set && o.v == "md_gost94") return NID_id_HMACGostR3411_94;
    return OBJ_sn2nid("id-tc26-hmac-gost-3411-2012-512");
}
struct S { EVP_CIPHER_CTX *c = nullptr; int alg = 0, sb = 0; Bytes key, iv, in; bool enc = true; size_t done = 0; };
struct M { EVP_MD_CTX *c = nullptr; Bytes key, in; };
struct Blob { X509_SIG *s = nullptr; Bytes plain; };
void gen(Rng &r, Plan &p, bool th) {
    int n = 8 + r.below(th ? 60 : 22); bool faults = r.chance(1, 3); int focus = r.chance(1, 2) ? (int)r.below(3) : -1; bool envs = r.chance(3, 4);
    auto w = [&] { return focus >= 0 && r.chance(3, 4) ? focus : (long long)r.below(3); };
    auto v = [&](int i) { return i == 0 ? (long long)(r.chance(5, 6) ? r.below(9) : r.below(13)) : i == 1 ? (long long)(r.chance(5, 6) ? r.below(3) : r.below(6)) : (long long)(r.chance(2, 3) ? 0 : r.below(5)); };
    auto f = [&] { return faults && r.chance(1, 4) ? (long long)(1 + r.below(3)) : 0; };
    for (int i = 0; i < n; i++) {
        int j = w();
        switch (r.below(20)) {
        case 0: case 1: if (envs) { p.add("env", { j, r.chance(1, 3) ? -1 : v(j) }); break; } /* fallthrough */
        case 2: case 3: case 4: p.add("set", { j, r.chance(1, 8) ? -1 : v(j), (long long)r.below(3), f() }); break;
        case 5: p.add("badset", { (long long)r.below(6), v(0) }); break;
        case 6: case 7: case 8: p.add("enc", { (long long)r.below(NS), (long long)r.below(4), (long long)r.below(2), (long long)r.below(50), f() }); break;
        case 9: case 10: case 11: p.add("upd", { (long long)r.below(NS), (long long)r.below(r.chance(1, 4) ? 2500 : 100) }); break;
        case 12: p.add("again", { (long long)r.below(NS), (long long)r.below(50), (long long)r.below(3) }); break;
        case 13: p.add("copy", { (long long)r.below(NS), (long long)r.below(NS) }); break;
        case 14: p.add("pbe", { (long long)r.below(3), (long long)r.below(50), f() }); break;
        case 15: p.add("seal", { (long long)r.below(NB), (long long)r.below(4), (long long)r.below(50), (long long)r.below(3), f() }); break;
        case 16: p.add("open", { (long long)r.below(NB) }); break;
        case 17: p.add("pk", { (long long)r.below(4), (long long)r.below(20), (long long)r.below(50), f() }); break;
        case 18: p.add("mac", { (long long)r.below(2), (long long)r.below(300), (long long)r.below(50) }); break;
        case 19: p.add("asn1", { (long long)r.below(NS) }); break;
        }
    }
}
bool contains(const Bytes &a, const Bytes &b) { return std::search(a.begin(), a.end(), b.begin(), b.end()) != a.end(); }
std::string show(const Opt &o) { return o.set ? "'" + o.v + "'" : "unset"; }
void exec(const Plan &p, Ctx &c) {
    for (auto e : envn) unsetenv(e);
    Model m; S ss[NS]; M ms[2]; Blob bl[NB]; ENGINE *e = lib_engine(); int good = 0; bool changed = false;
    static const int algn[] = { 0, 1, 0, 0 };
    auto start = [&](S &s, long long t) {
        s.key = derive_bytes(p.seed, 0x1300 + t, 32); s.iv = derive_bytes(p.seed, 0x1400 + t, 8); s.in.clear(); s.done = 0;
    };
    // a disturbed operation may or may not have taken the environment in: an undisturbed read makes that certain
    auto settle = [&](int i) {
        if (i == 0) { EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); uint8_t z[32] = { 1 }; EVP_CipherInit_ex(x, eng_cipher(NID_id_Gost28147_89), e, z, z, 1); EVP_CIPHER_CTX_free(x); }
        else if (i == 1) { EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); uint8_t z[32] = { 1 }; int n; EVP_CipherInit_ex(x, eng_cipher(NID_gost89_cnt), e, z, z, 1); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_PBE_PRF_NID, 0, &n); EVP_CIPHER_CTX_free(x); }
        else { EVP_PKEY *k = key_import(KA_256, curve(1), Bn(7)); PKCS8_PRIV_KEY_INFO *p8 = k ? EVP_PKEY2PKCS8(k) : NULL; PKCS8_PRIV_KEY_INFO_free(p8); EVP_PKEY_free(k); }
        sim::err_text(); m.get(i);
    };
    for (auto &o : p.ops) {
        c.steps++;
        long long fa = 0; auto arm = [&](long long f) { fa = f; if (f) sim::Faults::arm(1, f - 1, 1); };
        auto disarm = [&] { bool x = fa && sim::Faults::fired() > 0; sim::Faults::disarm(); if (x) c.count("fault.allocation"); return x; };
        if (o.k == "env") {
            int i = o.mod(0, 3); Opt x; if (o.arg(1) >= 0) { x.set = true; x.v = val(i, o.arg(1)); setenv(envn[i], x.v.c_str(), 1); } else unsetenv(envn[i]);
            m.env[i] = x; changed = true; c.count("fault.environment_changed"); c.mixsig(100 + i * 20 + (x.set ? o.arg(1) : 15));
        } else if (o.k == "set") {
            int i = o.mod(0, 3), how = o.mod(2, 3); Opt x; if (o.arg(1) >= 0) { x.set = true; x.v = val(i, o.arg(1)); }
            const char *v = x.set ? x.v.c_str() : NULL; int rc; c.op("set"); arm(o.arg(3));
            if (how == 0) rc = ENGINE_ctrl_cmd_string(e, cmdn[i], v, 0);
            else if (how == 1) rc = ENGINE_ctrl_cmd(e, cmdn[i], 0, (void *)v, NULL, 0);
            else rc = ENGINE_ctrl(e, ENGINE_CMD_BASE + i, 0, (void *)v, NULL);
            bool fired = disarm();
            c.log("set %s %s how %d -> %d", cmdn[i], show(x).c_str(), how, rc); c.mixsig(200 + i * 20 + (x.set ? o.arg(1) : 15) * 2 + m.env[i].set); sim::err_text();
            if (rc > 0) m.put(i, x);
            else if (x.set && !fired) c.violate("set-refused", "%s %s refused", cmdn[i], show(x).c_str());
            changed = true;
        } else if (o.k == "badset") {
            std::string v = val(0, o.arg(1)); int rc = 0; c.op("bad_set");
            switch (o.mod(0, 6)) {
            case 0: rc = ENGINE_ctrl_cmd_string(e, "CRYPT_PARAM", v.c_str(), 0); break;
            case 1: rc = ENGINE_ctrl(e, ENGINE_CMD_BASE + 3, 0, (void *)v.c_str(), NULL); break;
            case 2: rc = ENGINE_ctrl(e, ENGINE_CMD_BASE + 4, 0, (void *)v.c_str(), NULL); break;
            case 3: rc = ENGINE_ctrl(e, ENGINE_CMD_BASE + 1000, 0, (void *)v.c_str(), NULL); break;
            case 4: rc = ENGINE_ctrl_cmd_string(e, "", v.c_str(), 0); break;
            case 5: rc = ENGINE_ctrl_cmd_string(e, "CRYPT_PARAMS", NULL, 0); break;
            }
            if (rc > 0) c.violate("bad-set-accepted", "control %d accepted", (int)o.mod(0, 6)); sim::err_text(); c.count("refused_sets");
        } else if (o.k == "enc") {
            S &s = ss[o.mod(0, NS)]; EVP_CIPHER_CTX_free(s.c); s = S(); s.c = EVP_CIPHER_CTX_new(); s.alg = algn[o.mod(1, 4)]; s.enc = o.arg(2) != 0 || s.alg == 1; start(s, o.arg(3));
            c.op("start"); arm(o.arg(4));
            int rc = EVP_CipherInit_ex(s.c, eng_cipher(OBJ_sn2nid(cipher_algs[s.alg].sn)), e, s.key.data(), s.iv.data(), s.enc); bool fired = disarm();
            Opt x = m.v[0].set ? m.v[0] : m.env[0]; s.sb = sbox(x); c.mixsig(300 + s.sb * 4 + s.alg); sim::err_text();
            if (rc == 1 && !s.sb) c.violate("bad-setting-used", "%s started although CRYPT_PARAMS is %s", cipher_algs[s.alg].sn, show(x).c_str());
            if (rc != 1 && s.sb && !fired) c.violate("start-refused", "%s refused although CRYPT_PARAMS is %s", cipher_algs[s.alg].sn, show(x).c_str());
            settle(0);
            if (rc != 1) { EVP_CIPHER_CTX_free(s.c); s.c = nullptr; }
        } else if (o.k == "upd") {
            S &s = ss[o.mod(0, NS)]; if (!s.c) continue; const CipherAlg &a = cipher_algs[s.alg]; size_t n = 1 + o.mod(1, 3000); if (s.alg == 1) n = (n + 7) / 8 * 8;
            Bytes d = derive_bytes(p.seed, 0x1500 + s.in.size(), n), out(n + 64); int l = 0; c.op("update");
            if (s.alg == 1) EVP_CIPHER_CTX_set_padding(s.c, 0);
            if (EVP_CipherUpdate(s.c, out.data(), &l, d.data(), n) != 1 || l != (int)n) c.violate("update-failed", "%s", sim::err_text().c_str());
            s.in = cat(s.in, d); Bytes w = ref_cipher(a, s.sb, 1, s.key, s.iv, s.enc, s.in);
            if (memcmp(&w[s.done], out.data(), n)) c.violate("wrong-setting", "%s: the output is not that of the S-box set in force when it was started (%s); CRYPT_PARAMS now %s", a.sn, sbox_names[s.sb], show(m.v[0]).c_str());
            s.done += n; good++; c.mixsig(s.sb * 16 + sbox(m.v[0]));
            if (changed && s.sb != ref::S_Z) c.nontrivial = true;
        } else if (o.k == "again") { // restart of a context that is in use: keeps its setting
            S &s = ss[o.mod(0, NS)]; if (!s.c) continue; int how = o.mod(2, 3); Bytes k = s.key, v = s.iv; start(s, o.arg(1)); if (how == 1) s.key = k;
            c.op("restart");
            if (how == 2) { // reset drops the setting
                EVP_CIPHER_CTX_reset(s.c); s.sb = sbox(m.get(0)); int rc = EVP_CipherInit_ex(s.c, eng_cipher(OBJ_sn2nid(cipher_algs[s.alg].sn)), e, s.key.data(), s.iv.data(), s.enc); sim::err_text();
                if ((rc == 1) != (s.sb != 0)) c.violate("start-refused", "restart after a reset: %d, CRYPT_PARAMS %s", rc, show(m.v[0]).c_str());
                if (rc != 1) { EVP_CIPHER_CTX_free(s.c); s.c = nullptr; }
            } else if (EVP_CipherInit_ex(s.c, NULL, NULL, how == 0 ? s.key.data() : NULL, s.iv.data(), s.enc) != 1) c.violate("start-refused", "restart refused: %s", sim::err_text().c_str());
        } else if (o.k == "copy") {
            S &s = ss[o.mod(0, NS)], &t = ss[o.mod(1, NS)]; if (!s.c || &s == &t) continue; EVP_CIPHER_CTX *n = EVP_CIPHER_CTX_new(); c.op("copy");
            if (EVP_CIPHER_CTX_copy(n, s.c) != 1) c.violate("copy-failed", "%s", sim::err_text().c_str());
            EVP_CIPHER_CTX_free(t.c); t = s; t.c = n;
        } else if (o.k == "asn1") { // the setting travels with the message
            S &s = ss[o.mod(0, NS)]; if (!s.c) continue; ASN1_TYPE *t = ASN1_TYPE_new(); c.op("parameters");
            if (EVP_CIPHER_param_to_asn1(s.c, t) <= 0) c.violate("parameters", "not encoded: %s", sim::err_text().c_str());
            if (t->type != V_ASN1_SEQUENCE || !contains(Bytes(t->value.sequence->data, t->value.sequence->data + t->value.sequence->length), der_oid(sbox_names[s.sb]))) c.violate("wrong-setting", "the parameters of a message under %s do not name that set", sbox_names[s.sb]);
            ASN1_TYPE_free(t);
        } else if (o.k == "pbe") {
            static const char *cs[] = { "gost89", "gost89", "gost89" }; const EVP_CIPHER *ci = eng_cipher(OBJ_sn2nid(cs[o.mod(0, 3)])); bool needs = true;
            Bytes salt = derive_bytes(p.seed, o.arg(1), 8); c.op("pbe"); arm(o.arg(2));
            X509_ALGOR *al = PKCS5_pbe2_set_iv(ci, 3, salt.data(), 8, NULL, -1); bool fired = disarm(); std::string err = sim::err_text();
            Opt x = m.v[1].set ? m.v[1] : m.env[1], y = m.v[0].set ? m.v[0] : m.env[0]; int sb = needs ? sbox(y) : ref::S_Z;
            if (al && !sb) c.violate("bad-setting-used", "PBE with %s although CRYPT_PARAMS is %s", cs[o.mod(0, 3)], show(y).c_str());
            if (!al && sb && !fired) c.violate("start-refused", "PBE refused: CRYPT_PARAMS %s PBE_PARAMS %s: %s", show(y).c_str(), show(x).c_str(), err.c_str());
            settle(0); settle(1);
            if (al) {
                uint8_t *d = NULL; int n = i2d_X509_ALGOR(al, &d); Bytes b(d, d + n); OPENSSL_free(d); X509_ALGOR_free(al);
                if (!contains(b, der_oid(OBJ_nid2sn(prf(x))))) c.violate("wrong-setting", "PBE parameters do not name %s although PBE_PARAMS is %s", OBJ_nid2sn(prf(x)), show(x).c_str());
                if (needs && !contains(b, der_oid(sbox_names[sb]))) c.violate("wrong-setting", "PBE parameters do not name %s although CRYPT_PARAMS is %s", sbox_names[sb], show(y).c_str());
                c.mixsig(500 + prf(x) % 50); c.nontrivial = true; good++;
            }
        } else if (o.k == "seal") { // a key sealed under one setting opens under any other
            Blob &b = bl[o.mod(0, NB)]; X509_SIG_free(b.s); b.s = nullptr; int ka = o.mod(1, 4); auto &cl = ka_curves(ka); const Curve &cv = curve(cl[o.arg(2) % cl.size()]);
            Bn d = Bn::be(derive_bytes(p.seed, 0x1700 + o.arg(2), cv.len)) % cv.q; b.plain = priv_der(ka, cv, d.tole(cv.len)); const uint8_t *q = b.plain.data();
            PKCS8_PRIV_KEY_INFO *p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, b.plain.size()); static const char *nm[] = { "gost89", "gost89", "gost89" }; Bytes salt = derive_bytes(p.seed, 0x1800 + o.arg(2), 8);
            int alg = 0; Opt x = alg == 1 ? Opt() : m.v[0].set ? m.v[0] : m.env[0]; c.op("seal"); arm(o.arg(4));
            b.s = PKCS8_encrypt(-1, eng_cipher(OBJ_sn2nid(nm[alg])), "pw", 2, salt.data(), 8, 2, p8); bool fired = disarm(); PKCS8_PRIV_KEY_INFO_free(p8); std::string err = sim::err_text();
            settle(0); settle(1);
            if (!b.s && sbox(x) && !fired) c.violate("start-refused", "sealing a key refused: %s", err.c_str());
            if (b.s && !sbox(x)) c.violate("bad-setting-used", "a key was sealed although CRYPT_PARAMS is %s", show(x).c_str());
        } else if (o.k == "open") {
            Blob &b = bl[o.mod(0, NB)]; if (!b.s) continue; c.op("open"); PKCS8_PRIV_KEY_INFO *p8 = PKCS8_decrypt(b.s, "pw", 2);
            if (!p8 && !sbox(m.v[0].set ? m.v[0] : m.env[0])) { sim::err_text(); settle(0); c.count("refused_opens"); continue; }
            if (!p8) c.violate("sealed-key-lost", "a key sealed earlier does not open under CRYPT_PARAMS %s PBE_PARAMS %s: %s", show(m.v[0].set ? m.v[0] : m.env[0]).c_str(), show(m.v[1].set ? m.v[1] : m.env[1]).c_str(), sim::err_text().c_str());
            uint8_t *d = NULL; int n = i2d_PKCS8_PRIV_KEY_INFO(p8, &d); if (Bytes(d, d + n) != b.plain) c.violate("sealed-key-lost", "a key sealed earlier opens as another one"); OPENSSL_free(d); PKCS8_PRIV_KEY_INFO_free(p8); c.count("opened"); good++;
            settle(0);
            c.nontrivial |= changed;
        } else if (o.k == "pk") {
            int ka = o.mod(0, 4); auto &cl = ka_curves(ka); const Curve &cv = curve(cl[o.mod(1, cl.size())]); Bn d = Bn::be(derive_bytes(p.seed, 0x1900 + o.arg(2), cv.len)) % cv.q; if (d.zero()) continue;
            EVP_PKEY *k = key_import(ka, cv, d); if (!k) continue; c.op("store_key"); arm(o.arg(3)); PKCS8_PRIV_KEY_INFO *p8 = EVP_PKEY2PKCS8(k); bool fired = disarm(); std::string err = sim::err_text();
            Opt x = m.v[2].set ? m.v[2] : m.env[2]; EVP_PKEY_free(k); settle(2);
            if (!p8) { if (!fired) c.violate("start-refused", "storing a key refused: %s", err.c_str()); continue; }
            const uint8_t *kd; int kl; PKCS8_pkey_get0(NULL, &kd, &kl, NULL, p8); Bytes raw = d.tole(ka == KA_512 ? 64 : 32), want = x.set && x.v == "LEGACY_PK_WRAP" ? der(4, raw) : raw;
            if (Bytes(kd, kd + kl) != want) c.violate("wrong-setting", "key of %d bytes stored in the other format: GOST_PK_FORMAT is %s", kl, show(x).c_str());
            PKCS8_PRIV_KEY_INFO_free(p8); c.mixsig(700 + want.size()); c.nontrivial |= changed; good++;
        } else if (o.k == "mac") { // not governed by any setting
            M &x = ms[o.mod(0, 2)];
            if (!x.c || o.arg(1) % 5 == 0) {
                if (x.c) EVP_MD_CTX_free(x.c); x.c = EVP_MD_CTX_new(); x.key = derive_bytes(p.seed, 0x2000 + o.arg(2), 32); x.in.clear(); c.op("mac_init");
                if (EVP_DigestInit_ex(x.c, eng_md(NID_id_Gost28147_89_MAC), e) != 1 || EVP_MD_CTX_ctrl(x.c, EVP_MD_CTRL_SET_KEY, 32, x.key.data()) <= 0) c.violate("mac", "init refused: %s", sim::err_text().c_str());
            }
            Bytes d = derive_bytes(p.seed, 0x2100 + x.in.size(), o.mod(1, 300)); EVP_DigestUpdate(x.c, d.data(), d.size()); x.in = cat(x.in, d);
            if (o.arg(1) % 3 == 0 && x.in.size()) { uint8_t t[64]; unsigned n = 0; c.op("mac_final"); if (EVP_DigestFinal_ex(x.c, t, &n) != 1 || memcmp(t, ref::mac89(ref::S_A, true, x.key, x.in).data(), 4)) c.violate("wrong-setting", "the MAC depends on a setting"); EVP_MD_CTX_free(x.c); x.c = nullptr; good++; }
        }
    }
    c.count("settled", good);
    for (auto &s : ss) EVP_CIPHER_CTX_free(s.c); for (auto &x : ms) EVP_MD_CTX_free(x.c); for (auto &b : bl) X509_SIG_free(b.s);
    for (auto x : envn) unsetenv(x);
}
RegScenario r1({ "C13", "settings", 1, gen, exec, true });
RegProp p1({ "C13", "exploration",
    "A run is a seeded history of environment changes, control commands through every entry (valid, empty, unknown, reset, out of range, with failing allocations) and of the operations that depend on the settings: cipher sessions started, continued, restarted and copied, password-based encryption, keys sealed and opened later, keys stored, MAC sessions. A small model of the precedence rule says which S-box set, hash and key format each operation must use; outputs are compared with an independent reference. Non-trivial: an operation used a setting after a change.",
    { "gost_ctl.c", "gost_eng.c control commands", "gost_crypt.c parameter selection", "gost_ameth.c private key format", "libcrypto PBE and PKCS#8" },
    { "environment variables (set and cleared inside the simulated process)", "memory allocator", "random source" },
    { "an unknown password-hash name stands for the default, an unknown key format for the plain one", "re-initialising a context in use without a reset keeps its setting", "sets racing with operations in other threads are not part of the property" },
    12000, 500000 });
}
