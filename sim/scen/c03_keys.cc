// C03: MAC keys are what they were set to: every setting of a MAC key object, good or bad, in any order, then tags.
#include "../lib.h"
namespace {
enum { NX = 2, NKEY = 2 };
struct Alg { const char *sn; int def, max, kind; };
const Alg algs[] = { { "gost-mac", 4, 8, 0 }, { "gost-mac-12", 4, 8, 1 }, { "magma-mac", 8, 8, 2 }, { "kuznyechik-mac", 16, 16, 3 } };
const EVP_MD *md_of(int a) { return eng_md(OBJ_txt2nid(algs[a].sn)); }
struct M { int a = 0, sbox = 0, size = 0; bool keyed = false; Bytes key; };
struct X { EVP_PKEY_CTX *x = nullptr; M m; };
struct K { EVP_PKEY *k = nullptr; M m; };
Bytes tag(const M &m, int size, const Bytes &d) {
    Bytes t = m.a < 2 ? ref::mac89(m.sbox, true, m.key, d) : ref::cmac(*ref::mkblock(m.a == 3, m.key.data()), d);
    t.resize(size); return t;
}
struct SizeText { const char *s; long v; bool free; };   // free: a form the engine may refuse or take for v
const SizeText sizes[] = { { "1", 1 }, { "4", 4 }, { "8", 8 }, { "16", 16 }, { "3", 3 }, { "9", 9 }, { "17", 17 }, { "0", 0 }, { "-1", -1 }, { "4x", -1 }, { "", -1 }, { "x", -1 }, { "4 ", -1 },
    { "4294967300", 4294967300L }, { "4294967297", 4294967297L }, { "-4294967292", -4294967292L }, { "18446744073709551620", -1 }, { "9223372036854775807", 9223372036854775807L }, { "65540", 65540 }, { " 4", 4, true }, { "+4", 4, true }, { "04", 4, true }, { "0x4", -1 } };
const char *others[] = { "id-tc26-gost-28147-param-X", "magma-ctr", "1.2.3.4", "", "id-GostR3410-2001-CryptoPro-A-ParamSet", "sha256", "1.2.643.2.2.31.99" };
void gen(Rng &r, Plan &p, bool th) {
    int only = r.chance(2, 3) ? (int)r.below(4) : -1, steps = 6 + r.below(th ? 40 : 20);
    auto R = [&] { return (long long)(r.next() >> 40); };
    auto alg = [&] { return only >= 0 ? only : (long long)r.below(4); };
    for (int i = 0; i < 2; i++) { p.add("ctx", { i, alg() }); if (r.chance(3, 4)) p.add("set", { i, (long long)r.below(3), R(), (long long)r.below(3) }); if (r.chance(1, 2)) p.add("make", { i, i }); }
    for (int i = 0; i < steps; i++) switch (r.below(12)) {
        case 0: p.add("ctx", { (long long)r.below(NX), alg() }); break;
        case 1: p.add("dup", { (long long)r.below(NX), (long long)r.below(NX) }); break;
        case 2: case 3: p.add("make", { (long long)r.below(NX), (long long)r.below(NKEY) }); break;
        case 4: case 5: p.add("sign", { (long long)r.below(NKEY), R(), (long long)r.below(300), (long long)r.below(6) }); break;
        case 6: p.add("rawkey", { (long long)r.below(NKEY), alg(), (long long)r.below(5), R() }); break;
        default: p.add("set", { (long long)r.below(NX), (long long)r.below(7), R(), (long long)r.below(8) });
    }
}
void exec(const Plan &p, Ctx &c) {
    X xs[NX]; K ks[NKEY];
    for (auto &o : p.ops) {
        if (o.k == "ctx") {
            X &x = xs[o.mod(0, NX)]; EVP_PKEY_CTX_free(x.x); x = X(); x.m.a = o.mod(1, 4); const Alg &A = algs[x.m.a]; x.m.size = A.def; x.m.sbox = A.kind == 0 ? ref::S_A : ref::S_Z;
            c.op("ctx"); x.x = EVP_PKEY_CTX_new_id(OBJ_txt2nid(A.sn), lib_engine());
            if (!x.x || EVP_PKEY_keygen_init(x.x) != 1) c.violate("init-failed", "%s: no context for making keys: %s", A.sn, sim::err_text().c_str());
        } else if (o.k == "dup") {
            X &s = xs[o.mod(0, NX)], &d = xs[o.mod(1, NX)]; if (!s.x || &s == &d) continue; c.op("dup");
            EVP_PKEY_CTX *n = EVP_PKEY_CTX_dup(s.x); sim::err_text(); if (!n) { c.count("copies_refused"); continue; }   // libcrypto does not copy contexts that make keys
            EVP_PKEY_CTX_free(d.x); d.x = n; d.m = s.m; c.count("copies");
        } else if (o.k == "set") {
            X &x = xs[o.mod(0, NX)]; if (!x.x) continue; const Alg &A = algs[x.m.a]; uint64_t r = o.arg(2); int v = o.mod(3, 8), what = o.mod(1, 7), rc = 0, want = 0; M n = x.m; const char *w = "?"; std::string val;
            Bytes kb = derive_bytes(p.seed, 0x6b100000 + r, 70);
            c.op("set"); c.mixsig(x.m.a * 100 + what * 8 + v);
            switch (what) {
            case 0: { static const int len[] = { 32, 32, 32, 31, 33, 0, 64, 16 }; w = "key"; val.resize(len[v]); for (size_t i = 0; i < val.size(); i++) val[i] = 33 + kb[i] % 94; if (v == 2) for (auto &ch : val) ch |= 0x80;
                want = val.size() == 32; if (want) { n.keyed = true; n.key.assign(val.begin(), val.end()); } rc = EVP_PKEY_CTX_ctrl_str(x.x, w, val.c_str()); break; }
            case 1: { static const int len[] = { 32, 32, 32, 31, 33, 0, 32, 32 }; w = "hexkey"; kb.resize(len[v]); val = ""; for (size_t i = 0; i < kb.size(); i++) val += hex(&kb[i], 1) + (v == 2 && i + 1 < kb.size() ? ":" : "");
                if (v == 6) val.pop_back(); if (v == 7) val[r % val.size()] = 'g'; want = v < 3; if (want) { n.keyed = true; n.key = kb; } rc = EVP_PKEY_CTX_ctrl_str(x.x, w, val.c_str()); break; }
            case 2: { static const int len[] = { 32, 32, 32, 31, 33, 0, 64, 1 }; w = "raw key"; kb.resize(len[v]); kb.shrink_to_fit(); want = len[v] == 32; if (want) { n.keyed = true; n.key = kb; }
                Buf b(kb, 1); rc = EVP_PKEY_CTX_ctrl(x.x, -1, EVP_PKEY_OP_KEYGEN, EVP_PKEY_CTRL_SET_MAC_KEY, b.n, b.p); val = strf("%zu bytes", kb.size()); break; }
            case 3: case 4: { const SizeText &s = sizes[r % (sizeof sizes / sizeof *sizes)]; w = "size"; val = s.s; want = s.v >= 1 && s.v <= A.max; rc = EVP_PKEY_CTX_ctrl_str(x.x, w, s.s); if (want) { n.size = s.v; if (s.free) want = rc > 0; } break; }
            case 5: { w = "paramset"; if (v < 6) { val = sbox_names[ref::S_TEST + v]; if (r & 1) { char t[80]; OBJ_obj2txt(t, sizeof t, OBJ_txt2obj(val.c_str(), 0), 1); val = t; } want = A.kind < 2; n.sbox = ref::S_TEST + v; } else val = others[r % 7];
                rc = EVP_PKEY_CTX_ctrl_str(x.x, w, val.c_str()); break; }
            case 6: { w = "unknown setting"; static const char *nm[] = { "keylen", "KEY", "", "macsize", "digest", "hexKey", "params", "ukm" }; val = nm[v]; rc = EVP_PKEY_CTX_ctrl_str(x.x, nm[v], "4"); break; }
            }
            if (want && rc <= 0) c.violate("setting-refused", "%s: %s \"%s\" refused: %s", A.sn, w, val.c_str(), sim::err_text().c_str());
            if (!want && rc > 0) c.violate("setting-accepted", "%s: %s \"%s\" accepted", A.sn, w, val.c_str());
            if (want) x.m = n; c.count(want ? "set" : "refused"); if (!want) c.count("fault.misuse"); c.log("set %d: %s", rc, sim::err_text().c_str());
        } else if (o.k == "make") {
            X &x = xs[o.mod(0, NX)]; K &k = ks[o.mod(1, NKEY)]; if (!x.x) continue; c.op("make"); EVP_PKEY *pk = NULL; int rc = EVP_PKEY_keygen(x.x, &pk);
            if ((rc == 1) != x.m.keyed) c.violate(rc == 1 ? "keyless-key" : "keygen-failed", "%s: a key was %s: %s", algs[x.m.a].sn, rc == 1 ? "made though none was set" : "not made", sim::err_text().c_str());
            sim::err_text(); if (rc == 1) { EVP_PKEY_free(k.k); k.k = pk; k.m = x.m; c.count("keys"); } else EVP_PKEY_free(pk);
        } else if (o.k == "rawkey") {
            K &k = ks[o.mod(0, NKEY)]; int a = o.mod(1, 4); static const int len[] = { 32, 32, 31, 33, 64 }; int l = len[o.mod(2, 5)]; Bytes kb = derive_bytes(p.seed, 0x6b200000 + o.arg(3), l); Buf b(kb, 1); c.op("rawkey");
            EVP_PKEY *pk = EVP_PKEY_new_mac_key(OBJ_txt2nid(algs[a].sn), lib_engine(), b.p, b.n);
            if ((pk != NULL) != (l == 32)) c.violate(pk ? "bad-key-accepted" : "keygen-failed", "%s: a key of %d bytes was %s", algs[a].sn, l, pk ? "taken" : "refused");
            sim::err_text(); if (pk) { EVP_PKEY_free(k.k); k.k = pk; k.m = M(); k.m.a = a; k.m.key = kb; k.m.keyed = true; k.m.size = algs[a].def; k.m.sbox = a == 0 ? ref::S_A : ref::S_Z; }
        } else if (o.k == "sign") {
            K &k = ks[o.mod(0, NKEY)]; if (!k.k) continue; const Alg &A = algs[k.m.a]; uint64_t r = o.arg(1); int how = o.mod(3, 6), size = k.m.size; Bytes d = derive_bytes(p.seed, 0x6b300000 + r, o.mod(2, 300));
            int nid = 0, dr = EVP_PKEY_get_default_digest_nid(k.k, &nid); EVP_MD_CTX *x = EVP_MD_CTX_new(); EVP_PKEY_CTX *px = NULL;
            if (dr != 2 || nid != EVP_MD_type(md_of(k.m.a))) c.violate("wrong-default", "%s: the key names the digest %s (%d)", A.sn, OBJ_nid2sn(nid), dr);
            if (how == 5) {   // a digest of another family does not work with this key
                int b = (k.m.a ^ 2) & 3; c.op("wrong_md");
                if (EVP_DigestSignInit(x, NULL, md_of(b), lib_engine(), k.k) == 1) c.violate("wrong-digest", "%s key was taken for %s", A.sn, algs[b].sn);
                sim::err_text(); EVP_MD_CTX_free(x); c.count("fault.misuse"); continue;
            }
            c.op("sign"); if (EVP_DigestSignInit(x, &px, md_of(k.m.a), lib_engine(), k.k) != 1) c.violate("init-failed", "%s: init refused: %s", A.sn, sim::err_text().c_str());
            if (how == 4) {   // another tag size for this message
                const SizeText &s = sizes[r % (sizeof sizes / sizeof *sizes)]; bool want = s.v >= 1 && s.v <= A.max; int rc = EVP_PKEY_CTX_ctrl_str(px, "size", s.s);
                if ((rc > 0) != want && !s.free) c.violate(want ? "setting-refused" : "setting-accepted", "%s: size \"%s\" gave %d", A.sn, s.s, rc);
                if (rc > 0) size = s.v; sim::err_text();
            }
            uint8_t out[64]; memset(out, 0xEE, sizeof out); size_t l = 32, q = 0; Buf b(d, 1);
            if (EVP_DigestSignUpdate(x, b.p, b.n) != 1) c.violate("update-failed", "%s: update refused", A.sn);
            if (how == 3) { EVP_MD_CTX *y = EVP_MD_CTX_new(); if (EVP_MD_CTX_copy_ex(y, x) != 1) c.violate("copy-failed", "%s: copy refused: %s", A.sn, sim::err_text().c_str()); EVP_MD_CTX_free(x); x = y; }
            if (EVP_DigestSignFinal(x, NULL, &q) != 1 || (int)q != size) c.violate("tag-length", "%s: reported tag size %zu, requested %d", A.sn, q, size);
            if (EVP_DigestSignFinal(x, out, &l) != 1) c.violate("final-failed", "%s: final refused: %s", A.sn, sim::err_text().c_str());
            Bytes want = tag(k.m, size, d), got(out, out + std::min<size_t>(l, 32));
            if (got != want) c.violate("tag-mismatch", "%s size %d sbox %d: got %s want %s", A.sn, size, k.m.sbox, hex(got).c_str(), hex(want).c_str());
            for (size_t i = l; i < sizeof out; i++) if (out[i] != 0xEE) c.violate("tag-overrun", "%s wrote past %zu bytes", A.sn, l);
            c.logb("tag", got); c.count("tags"); c.nontrivial = true; c.mixsig(1000 + how * 20 + size); EVP_MD_CTX_free(x);
        }
    }
    for (auto &x : xs) EVP_PKEY_CTX_free(x.x);
    for (auto &k : ks) EVP_PKEY_free(k.k);
}
RegScenario r1({ "C03", "keys", 1, gen, exec, true });
}
