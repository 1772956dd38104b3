// C03: MACs are standard-exact under any delivery.
#include "../lib.h"
namespace {
enum { NS = 4 };
struct Alg { const char *sn; int def, max; int kind; };   // kind 0 imit A, 1 imit Z, 2 magma, 3 kuz, 4 kuz acpkm
const Alg algs[] = { { "gost-mac", 4, 8, 0 }, { "gost-mac-12", 4, 8, 1 }, { "magma-mac", 8, 8, 2 }, { "kuznyechik-mac", 16, 16, 3 },
                     { "kuznyechik-ctr-acpkm-omac", 16, 16, 4 } };
enum { NA = 5 };
const EVP_MD *md_of(int a) { return eng_md(OBJ_txt2nid(algs[a].sn)); }
struct S { EVP_MD_CTX *c = nullptr; bool live = false, raw = false; int alg = -1, sbox = 0, size = 0; long sect = 4096, tstar = 4096; Bytes key, data; int upd = 0, fins = 0, uses = 0, how = 0; };
Bytes expect(const S &s) {
    Bytes t;
    switch (algs[s.alg].kind) {
    case 0: case 1: t = ref::mac89(s.sbox, true, s.key, s.data); break;
    case 2: t = ref::cmac(*ref::mkblock(false, s.key.data()), s.data); break;
    case 3: t = ref::cmac(*ref::mkblock(true, s.key.data()), s.data); break;
    default: t = ref::kuz_acpkm_omac(s.key, s.data, s.sect, s.tstar);
    }
    t.resize(s.size);
    return t;
}
Bytes mkkey(const Plan &p, long long t) { return t % 19 == 0 ? Bytes(32, t % 2 ? 0xff : 0) : derive_bytes(p.seed, 0x6b000000 + t, 32); }
void gen(Rng &r, Plan &p, bool th) {
    int ns = 1 + r.below(NS), steps = 5 + r.below(th ? 40 : 20);
    bool faults = r.chance(1, 4);
    int only = r.chance(2, 3) ? (int)r.below(NA) : -1;
    int maxcls = r.pick(std::vector<int>{ 4, 6, 8, 10, 12 });
    auto alg = [&] { return only >= 0 ? only : (long long)r.below(NA); };
    auto init = [&](int s) {
        p.add("init", { s, alg(), (long long)r.below(40), (long long)r.below(4), (long long)r.below(18), (long long)r.below(8), faults ? (long long)r.below(8) : 0, (long long)r.below(3) });
        if (r.chance(1, 3)) p.add("sect", { s, (long long)r.below(30), (long long)r.below(30) });
    };
    for (int i = 0; i < ns; i++) init(i);
    for (int i = 0; i < steps; i++) {
        int s = r.below(ns);
        switch (r.below(18)) {
        case 0: init(s); break;
        case 1: p.add("copy", { s, (long long)r.below(ns), faults ? (long long)r.below(8) : 0 }); break;
        case 2: case 3: p.add("fin", { s, (long long)r.below(2) }); break;
        case 4: p.add("reset", { s }); break;
        case 5: p.add("nokey", { s, alg(), (long long)r.below(4), (long long)r.below(70) }); break;
        case 6: p.add("badsize", { s, (long long)r.below(4) }); break;
        default: p.add("upd", { s, (long long)r.below(maxcls), (long long)r.below(4000), (long long)r.below(16), (long long)(r.next() >> 40) });
        }
    }
}
void fin(S &s, const Plan &, bool keep, Ctx &c) {
    uint8_t out[64]; memset(out, 0xEE, sizeof out);
    size_t n = 32; int rc;
    c.op("mac_final");
    if (s.raw) { n = s.size; rc = EVP_DigestFinalXOF(s.c, out, n); }
    else {
        size_t q = 0;
        if (EVP_DigestSignFinal(s.c, NULL, &q) != 1 || (int)q != s.size) c.violate("tag-length", "%s: reported tag size %zu, requested %d", algs[s.alg].sn, q, s.size);
        rc = EVP_DigestSignFinal(s.c, out, &n);
    }
    if (rc != 1) c.violate("final-failed", "%s: final refused: %s", algs[s.alg].sn, sim::err_text().c_str());
    if ((int)n != s.size) c.violate("tag-length", "%s: %zu bytes returned, %d requested", algs[s.alg].sn, n, s.size);
    Bytes want = expect(s), got(out, out + n);
    if (got != want) c.violate("tag-mismatch", "%s size %d sbox %d: %zu bytes in %d updates (use %d, after %d finals): got %s want %s", algs[s.alg].sn, s.size, s.sbox, s.data.size(), s.upd, s.uses, s.fins, hex(got).c_str(), hex(want).c_str());
    for (size_t i = n; i < sizeof out; i++) if (out[i] != 0xEE) c.violate("tag-overrun", "%s wrote past %zu bytes", algs[s.alg].sn, n);
    c.logb("tag", got); c.count("finals"); s.fins++;
    if (s.upd >= 2 && !s.data.empty()) c.nontrivial = true;
    if (s.data.size() > 1024) c.count("long_messages");
    if (s.raw || !keep) s.live = false;
}
EVP_PKEY *mkpkey(S &s, int how, Ctx &c) {
    const Alg &A = algs[s.alg];
    int type = A.kind == 4 ? NID_grasshopper_mac : OBJ_txt2nid(A.sn);
    if (how == 0) return EVP_PKEY_new_mac_key(type, lib_engine(), s.key.data(), 32);
    EVP_PKEY_CTX *k = EVP_PKEY_CTX_new_id(type, lib_engine());
    EVP_PKEY *pk = NULL;
    int ok = k && EVP_PKEY_keygen_init(k) == 1 && EVP_PKEY_CTX_ctrl_str(k, "hexkey", hex(s.key).c_str()) == 1
        && EVP_PKEY_CTX_ctrl_str(k, "size", std::to_string(s.size).c_str()) == 1
        && (A.kind > 1 || EVP_PKEY_CTX_ctrl_str(k, "paramset", sbox_names[s.sbox]) == 1);
    if (ok) EVP_PKEY_keygen(k, &pk);
    EVP_PKEY_CTX_free(k);
    return pk;
}
void exec(const Plan &p, Ctx &c) {
    S ss[NS];
    for (auto &s : ss) s.c = EVP_MD_CTX_new();
    for (auto &o : p.ops) {
        S &s = ss[o.mod(0, NS)];
        if (o.k == "init") {
            int a = o.mod(1, NA); int how = o.mod(3, 4);
            S n; n.c = s.c; n.alg = a; n.key = mkkey(p, o.arg(2)); n.raw = how >= 2; n.uses = s.uses + 1;
            n.size = how == 0 ? algs[a].def : 1 + o.mod(4, algs[a].max);
            n.sbox = algs[a].kind == 0 ? ref::S_A : ref::S_Z;
            if (how == 1 && algs[a].kind < 2) n.sbox = ref::S_TEST + o.mod(5, 6);
            // a context left by another session may be reset first or simply initialised again
            if (o.arg(7) > 0 || s.raw || s.raw != n.raw || s.alg != a || !s.live) EVP_MD_CTX_reset(s.c);
            else if (n.raw) c.count("reused_contexts");
            else { n.key = s.key; n.size = s.size; n.sbox = s.sbox; how = s.how; c.count("reused_contexts"); } // libcrypto keeps the key of a signing context until it is reset
            n.how = how;
            int f = o.arg(6);
            uint64_t f0 = sim::Faults::fired();
            if (f > 0) sim::Faults::arm(1 + o.arg(4) % 3, f - 1, 1);
            c.op("mac_init"); c.mixsig(a * 10 + how);
            int rc = 1; EVP_PKEY *pk = NULL;
            if (!n.raw) {
                pk = mkpkey(n, how, c);
                rc = pk && EVP_DigestSignInit(n.c, NULL, md_of(a), lib_engine(), pk) == 1;
            } else {
                rc = EVP_DigestInit_ex(n.c, md_of(a), lib_engine()) == 1;
                if (rc) rc = EVP_MD_CTX_ctrl(n.c, EVP_MD_CTRL_SET_KEY, 32, n.key.data()) == 1;
            }
            sim::Faults::disarm();
            EVP_PKEY_free(pk);
            bool fired = f > 0 && sim::Faults::fired();
            if (fired) c.count("fault.alloc_in_init");
            (void)f0;
            if (rc != 1) {
                if (!fired) c.violate("init-failed", "%s how %d: init refused: %s", algs[a].sn, how, sim::err_text().c_str());
                EVP_MD_CTX_free(s.c); s = S(); s.c = EVP_MD_CTX_new(); sim::err_text(); continue;
            }
            n.live = true; s = n;
        } else if (o.k == "sect" && s.live && algs[s.alg].kind == 4 && s.data.empty()) {
            int t = 48 * (1 + o.mod(2, 40));
            long sect = 16 * (1 + o.mod(1, 30));
            c.op("mac_param");
            if (EVP_MD_CTX_ctrl(s.c, EVP_CTRL_KEY_MESH, sect, &t) != 1) c.violate("param-refused", "key mesh %ld T* %d refused: %s", sect, t, sim::err_text().c_str());
            s.sect = sect; s.tstar = t; c.count("sections_set");
        } else if (o.k == "upd" && s.live) {
            Bytes d = mkdata(p.seed, o.arg(4), chunk_len(o.arg(1), o.arg(2)), o.arg(4) % DK_N);
            Buf b(d, o.mod(3, 16));
            c.op("mac_update"); c.mixsig(s.alg); c.mixsig(s.data.size() % 16); c.mixsig(d.size() > 48 ? 48 + d.size() % 16 : d.size());
            int rc = s.raw ? EVP_DigestUpdate(s.c, b.p, b.n) : EVP_DigestSignUpdate(s.c, b.p, b.n);
            if (rc != 1) c.violate("update-failed", "%s: update of %zu refused: %s", algs[s.alg].sn, d.size(), sim::err_text().c_str());
            s.data = cat(s.data, d); s.upd++;
        } else if (o.k == "copy" && s.live) {
            S &d = ss[o.mod(1, NS)];
            if (&d == &s) continue;
            if (o.arg(2) > 0) { sim::Faults::arm(1, o.arg(2) - 1, 1); sim::al.engine_only = false; }
            c.op("mac_copy");
            int rc = EVP_MD_CTX_copy_ex(d.c, s.c);
            sim::Faults::disarm();
            bool fired = o.arg(2) > 0 && sim::Faults::fired();
            if (fired) c.count("fault.alloc_in_copy");
            if (rc != 1) {
                if (!fired) c.violate("copy-failed", "%s: copy refused: %s", algs[s.alg].sn, sim::err_text().c_str());
                EVP_MD_CTX_free(d.c); d = S(); d.c = EVP_MD_CTX_new(); sim::err_text(); continue;
            }
            c.count("copies");
            EVP_MD_CTX *x = d.c; d = s; d.c = x;
        } else if (o.k == "fin" && s.live) fin(s, p, o.arg(1), c);
        else if (o.k == "badsize" && s.live) {
            static const int bad[] = { 0, -1, 17, 64 };
            int n = bad[o.mod(1, 4)];
            c.op("mac_badsize");
            if (EVP_MD_CTX_ctrl(s.c, EVP_MD_CTRL_XOF_LEN, n, NULL) > 0) c.violate("bad-tag-size", "%s accepted a tag of %d bytes", algs[s.alg].sn, n);
            if (algs[s.alg].max == 8 && EVP_MD_CTX_ctrl(s.c, EVP_MD_CTRL_XOF_LEN, 9, NULL) > 0) c.violate("bad-tag-size", "%s accepted a tag of 9 bytes", algs[s.alg].sn);
            sim::err_text(); c.count("bad_sizes");
        } else if (o.k == "nokey") {
            EVP_MD_CTX *x = EVP_MD_CTX_new(); int a = o.mod(1, NA);
            uint8_t out[64]; unsigned n = 0; Bytes d = derive_bytes(p.seed, 5, o.mod(3, 70));
            c.op("mac_nokey");
            if (EVP_DigestInit_ex(x, md_of(a), lib_engine()) != 1) c.violate("init-failed", "%s: keyless init refused", algs[a].sn);
            int w = o.mod(2, 4);
            if (w == 1 && EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_SET_KEY, 31, d.data()) > 0) c.violate("bad-key-accepted", "%s: 31-byte key accepted", algs[a].sn);
            if (w == 2) { EVP_MD_CTX *y = EVP_MD_CTX_new(); EVP_MD_CTX_copy_ex(y, x); EVP_MD_CTX_free(x); x = y; }
            if (EVP_DigestUpdate(x, d.data(), d.size()) == 1 && !d.empty()) c.violate("keyless-update", "%s: update accepted without a key", algs[a].sn);
            if (w == 3 ? EVP_DigestFinalXOF(x, out, 4) == 1 : EVP_DigestFinal_ex(x, out, &n) == 1) c.violate("keyless-tag", "%s: tag produced without a key", algs[a].sn);
            EVP_MD_CTX_free(x); sim::err_text(); c.count("keyless_sessions");
        } else if (o.k == "reset") { c.count("fault.session_abandoned"); EVP_MD_CTX *x = s.c; EVP_MD_CTX_reset(x); s = S(); s.c = x; }
    }
    for (auto &s : ss) if (s.live) fin(s, p, false, c);
    for (auto &s : ss) EVP_MD_CTX_free(s.c);
}
RegScenario r1({ "C03", "sessions", 4, gen, exec, true });
RegProp p1({ "C03", "exploration",
    "A run is a seeded history of up to 4 interleaved MAC sessions over the five MACs offered, keyed through the key-object interface (raw key, or key generation with hex key, tag size and S-box) or the digest controls, with updates of every chunk class and alignment, finals followed by further updates, mid-stream copies, refused tag sizes, keyless sessions, reuse of contexts, allocation faults in init and copy. Every tag is compared with an independent one-shot reference. Non-trivial: a session finalised after at least two updates of real data.",
    { "gost_crypt.c imitovstavka", "gost_omac.c", "gost_omac_acpkm.c", "gost_pmeth.c and gost_ameth.c MAC keys", "libcrypto CMAC and EVP layers" },
    { "memory allocator", "random source" },
    { "reference MACs written from the standards, checked against published vectors", "messages up to a few tens of kilobytes" },
    30000, 600000 });
}
