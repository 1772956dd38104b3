// C02: streaming ciphers are standard-exact under any fragmentation.
#include "../lib.h"
namespace {
enum { NS = 4 };
struct S {
    EVP_CIPHER_CTX *c = nullptr;
    bool live = false;
    int alg = -1; bool enc = true, pad = true, custom_sbox = false, custom_mesh = false;
    int sbox = 0; long mesh = 0;
    Bytes key, iv, in, out; int upd = 0, reinits = 0; size_t before = 0;
};
const char *tag_of(const S &s) { return cipher_algs[s.alg].sn; }
void defaults(S &s) {
    const CipherAlg &a = cipher_algs[s.alg];
    s.sbox = s.alg == 2 ? ref::S_A : ref::S_Z;
    s.mesh = a.mode == CM_CFB89 || a.mode == CM_CNT89 ? 1 : a.mode == CM_ACPKM ? (a.kuz ? 4096 : 1024) : 0;
    s.custom_sbox = s.custom_mesh = false;
}
Bytes mkkey(const Plan &p, long long t) {
    if (t % 17 == 0) return Bytes(32, t % 2 ? 0xff : 0);
    return derive_bytes(p.seed, 0x4b000000 + t, 32);
}
Bytes mkiv(const Plan &p, long long t, int n) {
    if (t % 7 == 0) return Bytes(n, 0xff);
    if (t % 7 == 1) { Bytes b = derive_bytes(p.seed, 0x49000000 + t, n); for (int i = n / 2; i < n; i++) b[i] = 0xff; return b; }
    return derive_bytes(p.seed, 0x49000000 + t, n);
}
void gen(Rng &r, Plan &p, bool th) {
    int ns = 1 + r.below(NS), steps = 5 + r.below(th ? 40 : 20);
    bool faults = r.chance(1, 4);
    int only = r.chance(2, 3) ? (int)r.below(n_cipher_algs) : -1;
    int maxcls = r.pick(std::vector<int>{ 6, 8, 10, 12, 12 });
    auto alg = [&] { return only >= 0 ? only : (long long)r.below(n_cipher_algs); };
    bool params = r.chance(1, 2);
    auto init = [&](int s) {
        p.add("init", { s, alg(), (long long)r.below(40), (long long)r.below(40), (long long)r.below(64), faults ? (long long)r.below(6) : 0 });
        if (params && r.chance(2, 3)) p.add("param", { s, (long long)r.below(2), (long long)r.below(40) });
    };
    for (int i = 0; i < ns; i++) init(i);
    for (int i = 0; i < steps; i++) {
        int s = r.below(ns);
        switch (r.below(20)) {
        case 0: init(s); break;
        case 1: p.add("copy", { s, (long long)r.below(ns), faults ? (long long)r.below(6) : 0 }); break;
        case 2: case 3: p.add("fin", { s, (long long)r.below(4) }); break;
        case 4: p.add("reset", { s, (long long)r.below(2) }); break;
        case 5: case 6: p.add("re", { s, (long long)r.below(4), (long long)r.below(40), (long long)r.below(40), (long long)r.below(4) }); break;
        case 7: if (params) { p.add("param", { s, (long long)r.below(2), (long long)r.below(40) }); break; } /* fallthrough */
        default: p.add("upd", { s, (long long)r.below(maxcls), (long long)r.below(4000), (long long)r.below(16), (long long)r.below(4), (long long)(r.next() >> 40) });
        }
    }
}
void apply_params(S &s, Ctx &c) {
    if (s.custom_sbox && EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_SET_SBOX, 0, (void *)sbox_names[s.sbox]) <= 0)
        c.violate("param-refused", "%s: S-box set refused before any data", tag_of(s));
    if (s.custom_mesh && EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_KEY_MESH, s.mesh, NULL) <= 0)
        c.violate("param-refused", "%s: key meshing %ld refused before any data", tag_of(s), s.mesh);
}
// the bytes that must have come out by now
size_t expect_len(const S &s) {
    const CipherAlg &a = cipher_algs[s.alg];
    size_t n = s.in.size(), bs = a.block;
    if (bs == 1) return n;
    if (!s.enc && s.pad) return n == 0 ? 0 : (n - 1) / bs * bs;
    return n / bs * bs;
}
void feed(S &s, const Bytes &d, unsigned mis, int place, Ctx &c) {
    const CipherAlg &a = cipher_algs[s.alg];
    bool inplace = place == 1 && (a.block == 1 || (s.in.size() % a.block == 0 && d.size() % a.block == 0 && (s.enc || !s.pad)));
    size_t cap = d.size() + (a.block > 1 ? a.block : 0);
    int n = -1, rc;
    c.op("cipher_update");
    c.mixsig(s.alg * 2 + s.enc); c.mixsig(s.in.size() % 16); c.mixsig(d.size() > 48 ? 48 + d.size() % 16 : d.size()); c.mixsig(s.in.size() / 1024);
    if (inplace) {
        Buf b(d, mis);
        rc = EVP_CipherUpdate(s.c, b.p, &n, b.p, b.n);
        if (rc == 1 && n >= 0 && (size_t)n <= b.n) s.out.insert(s.out.end(), b.p, b.p + n);
    } else {
        Buf b(d, mis), o(cap, place == 2 ? mis : (mis * 7 + 3) % 16);
        rc = EVP_CipherUpdate(s.c, o.p, &n, b.p, b.n);
        if (rc == 1 && n >= 0 && (size_t)n <= cap) s.out.insert(s.out.end(), o.p, o.p + n);
        if (b.get() != d) c.violate("input-modified", "%s: update changed its input", tag_of(s));
    }
    if (rc != 1) c.violate("update-failed", "%s: update of %zu bytes refused: %s", tag_of(s), d.size(), sim::err_text().c_str());
    s.in.insert(s.in.end(), d.begin(), d.end());
    s.upd++;
    if (s.out.size() != expect_len(s))
        c.violate("update-length", "%s: %zu bytes out after %zu in (enc %d pad %d)", tag_of(s), s.out.size(), s.in.size(), s.enc, s.pad);
}
void finish(S &s, const Plan &p, int how, Ctx &c) {
    const CipherAlg &a = cipher_algs[s.alg];
    size_t bs = a.block;
    if (bs > 1 && !s.enc && s.pad && how != 0) {
        // close the stream with properly padded ciphertext
        if (s.in.size() % bs) feed(s, derive_bytes(p.seed, 77 + s.in.size(), bs - s.in.size() % bs), 0, 0, c);
        Bytes pl = ref_cipher(a, s.sbox, s.mesh, s.key, s.iv, false, s.in);
        size_t k = 1 + (p.seed + s.in.size()) % bs;
        Bytes lastp = derive_bytes(p.seed, 78, bs);
        for (size_t i = bs - k; i < bs; i++) lastp[i] = (uint8_t)k;
        Bytes ct = ref_cipher(a, s.sbox, s.mesh, s.key, s.iv, true, cat(pl, lastp));
        feed(s, sub(ct, s.in.size(), bs), 0, 0, c);
        c.count("padded_close");
    } else if (bs > 1 && !s.pad && how != 0 && s.in.size() % bs)
        feed(s, derive_bytes(p.seed, 79 + s.in.size(), bs - s.in.size() % bs), 0, 0, c);
    Bytes want; bool ok = true;
    if (bs == 1) want = ref_cipher(a, s.sbox, s.mesh, s.key, s.iv, s.enc, s.in);
    else if (!s.pad) { if (s.in.size() % bs) ok = false; else want = ref_cipher(a, s.sbox, s.mesh, s.key, s.iv, s.enc, s.in); }
    else if (s.enc) { Bytes x = s.in; size_t k = bs - x.size() % bs; x.insert(x.end(), k, (uint8_t)k); want = ref_cipher(a, s.sbox, s.mesh, s.key, s.iv, true, x); }
    else if (s.in.empty() || s.in.size() % bs) ok = false;
    else {
        want = ref_cipher(a, s.sbox, s.mesh, s.key, s.iv, false, s.in);
        size_t k = want.back();
        if (k == 0 || k > bs) ok = false;
        else { for (size_t i = 0; i < k; i++) if (want[want.size() - 1 - i] != k) ok = false; }
        if (ok) want.resize(want.size() - k);
    }
    if (!ok) c.count("fault.truncated_or_badly_padded");
    c.op("cipher_final");
    Buf o(bs > 1 ? bs : 1, p.seed % 16); int n = 0;
    int rc = EVP_CipherFinal_ex(s.c, o.p, &n);
    c.count("finals");
    if (!ok) {
        if (rc == 1) c.violate("bad-stream-accepted", "%s: final accepted %zu bytes (enc %d pad %d)", tag_of(s), s.in.size(), s.enc, s.pad);
    } else {
        if (rc != 1) c.violate("final-failed", "%s: final refused after %zu bytes: %s", tag_of(s), s.in.size(), sim::err_text().c_str());
        if (n < 0 || (size_t)n > o.n) c.violate("final-length", "%s: final returned %d", tag_of(s), n);
        s.out.insert(s.out.end(), o.p, o.p + n);
        if (s.out != want) {
            size_t d = 0; while (d < s.out.size() && d < want.size() && s.out[d] == want[d]) d++;
            c.violate(s.reinits ? "stream-mismatch-after-reinit" : "stream-mismatch", "%s enc %d: %zu bytes in %d updates (%d re-inits, %zu bytes before): first difference at %zu of %zu/%zu; mesh %ld sbox %d",
                      tag_of(s), s.enc, s.in.size(), s.upd, s.reinits, s.before, d, s.out.size(), want.size(), s.mesh, s.sbox);
        }
        c.logb("out", s.out);
        if (s.upd >= 2 && s.in.size()) c.nontrivial = true;
        if (s.in.size() > 1024) c.count("long_streams");
    }
    sim::err_text();
    s.live = false; s.before = s.in.size();
}
void exec(const Plan &p, Ctx &c) {
    S ss[NS];
    for (auto &s : ss) s.c = EVP_CIPHER_CTX_new();
    for (auto &o : p.ops) {
        S &s = ss[o.mod(0, NS)];
        if (o.k == "init") {
            int a = o.mod(1, n_cipher_algs); long long f = o.arg(4);
            const CipherAlg &A = cipher_algs[a];
            Bytes key = mkkey(p, o.arg(2)), iv = mkiv(p, o.arg(3), A.ivlen);
            bool enc = f & 1, pad = f & 2; int phase = (f >> 2) & 3;
            bool was_same = s.alg == a;
            int fault = o.arg(5);
            if (fault == 1) { sim::rnd.fail_from = sim::rnd.calls; sim::rnd.fail_count = 1000; }
            else if (fault > 1) { sim::Faults::arm(1, fault - 2, 1); sim::al.engine_only = false; }
            uint64_t rf = sim::rnd.failed;
            c.op("cipher_init"); c.mixsig(1000 + a * 8 + (f & 7));
            const EVP_CIPHER *ci = eng_cipher(OBJ_sn2nid(A.sn));
            if (was_same && (f & 32)) { EVP_CIPHER_CTX_reset(s.c); was_same = false; }
            int rc;
            const uint8_t *ivp = A.ivlen ? iv.data() : NULL;
            if (phase == 0) rc = EVP_CipherInit_ex(s.c, ci, lib_engine(), key.data(), ivp, enc);
            else if (phase == 1) rc = EVP_CipherInit_ex(s.c, ci, lib_engine(), NULL, NULL, enc) == 1 && EVP_CipherInit_ex(s.c, NULL, NULL, key.data(), ivp, enc) == 1;
            else if (phase == 2) rc = EVP_CipherInit_ex(s.c, ci, lib_engine(), NULL, ivp, enc) == 1 && EVP_CipherInit_ex(s.c, NULL, NULL, key.data(), NULL, enc) == 1;
            else rc = EVP_CipherInit_ex(s.c, ci, lib_engine(), key.data(), NULL, enc) == 1 && EVP_CipherInit_ex(s.c, NULL, NULL, NULL, ivp, enc) == 1;
            sim::Faults::disarm(); sim::rnd.fail_from = -1;
            bool fired = sim::Faults::fired() || sim::rnd.failed > rf;
            if (sim::Faults::fired()) c.count("fault.alloc_in_init");
            if (sim::rnd.failed > rf) c.count("fault.rng_in_init");
            if (rc != 1) {
                if (!fired) c.violate("init-failed", "%s: init refused: %s", A.sn, sim::err_text().c_str());
                EVP_CIPHER_CTX_free(s.c); s = S(); s.c = EVP_CIPHER_CTX_new(); sim::err_text(); continue;
            }
            // a context re-initialised for the same cipher may keep its S-box and meshing: they are set again
            bool kb = s.custom_sbox, km = s.custom_mesh; int osb = s.sbox; long om = s.mesh;
            s.reinits = s.alg == a ? s.reinits + 1 : 0;
            s.alg = a; s.enc = enc; s.pad = pad || A.block == 1; s.key = key; s.iv = iv; s.in.clear(); s.out.clear(); s.upd = 0; s.live = true;
            if (was_same) { s.custom_sbox = kb; s.custom_mesh = km; s.sbox = osb; s.mesh = om; apply_params(s, c); }
            else defaults(s);
            EVP_CIPHER_CTX_set_padding(s.c, s.pad);
        } else if (o.k == "re") {
            if (s.alg < 0) continue;
            const CipherAlg &A = cipher_algs[s.alg];
            int what = o.mod(1, 4); bool enc = o.arg(4) & 1 ? !s.enc : s.enc;
            if (what == 0 || (what == 1 && !A.ivlen)) what = 3;
            Bytes key = mkkey(p, o.arg(2)), iv = mkiv(p, o.arg(3), A.ivlen);
            c.op("cipher_reinit"); c.mixsig(2000 + what); c.mixsig(s.in.size() % 16);
            const uint8_t *kp = what & 2 ? key.data() : NULL, *ip = (what & 1) && A.ivlen ? iv.data() : NULL;
            if (EVP_CipherInit_ex(s.c, NULL, NULL, kp, ip, enc) != 1)
                c.violate("init-failed", "%s: re-init refused: %s", A.sn, sim::err_text().c_str());
            if (kp) s.key = key;
            if (ip) s.iv = iv;
            s.enc = enc; s.before = s.in.size(); s.in.clear(); s.out.clear(); s.upd = 0; s.live = true; s.reinits++;
            apply_params(s, c);
            c.count(what == 1 ? "reinit_iv" : what == 2 ? "reinit_key" : "reinit_both");
        } else if (o.k == "param" && s.live) {
            const CipherAlg &A = cipher_algs[s.alg];
            c.op("cipher_param");
            if (A.kind == CK_GOST89) {
                if (!s.in.empty() && s.in.size() % 8 == 0 && A.mode != CM_CBC89) {
                    // mid-stream changes must be refused and change nothing
                    int rc = o.arg(1) & 1 ? EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_KEY_MESH, !s.mesh, NULL)
                                          : EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_SET_SBOX, 0, (void *)sbox_names[ref::S_B]);
                    if (rc > 0) c.violate("midstream-param", "%s: parameter change accepted mid-stream", A.sn);
                    c.count("midstream_param_refused");
                } else if (s.in.empty()) {
                    if (o.arg(1) & 1) {
                        if (A.mode != CM_CBC89) { s.mesh = o.arg(2) & 1; s.custom_mesh = true; }
                    } else { s.sbox = ref::S_TEST + o.mod(2, 6); s.custom_sbox = true; }
                    apply_params(s, c);
                }
            } else if (A.mode == CM_ACPKM && s.in.empty()) {
                int bs = A.kuz ? 16 : 8;
                s.mesh = bs * (1 + o.mod(2, 40)); s.custom_mesh = true;
                apply_params(s, c);
            }
            sim::err_text();
        } else if (o.k == "upd" && s.live) {
            feed(s, mkdata(p.seed, o.arg(5), chunk_len(o.arg(1), o.arg(2)), o.arg(5) % DK_N), o.mod(3, 16), o.mod(4, 4), c);
        } else if (o.k == "copy" && s.live) {
            S &d = ss[o.mod(1, NS)];
            if (&d == &s) continue;
            if (o.arg(2) > 0) { sim::Faults::arm(1, o.arg(2) - 1, 1); sim::al.engine_only = false; }
            c.op("cipher_copy");
            int rc = EVP_CIPHER_CTX_copy(d.c, s.c);
            sim::Faults::disarm();
            if (sim::Faults::fired()) c.count("fault.alloc_in_copy");
            if (rc != 1) {
                if (!sim::Faults::fired()) c.violate("copy-failed", "%s: copy refused: %s", tag_of(s), sim::err_text().c_str());
                EVP_CIPHER_CTX_free(d.c); d = S(); d.c = EVP_CIPHER_CTX_new(); sim::err_text(); continue;
            }
            c.count("copies");
            EVP_CIPHER_CTX *dc = d.c; d = s; d.c = dc;
        } else if (o.k == "fin" && s.live) finish(s, p, o.arg(1), c);
        else if (o.k == "reset") {
            c.op("cipher_reset"); c.count("fault.session_abandoned");
            if (o.arg(1)) { EVP_CIPHER_CTX_free(s.c); s = S(); s.c = EVP_CIPHER_CTX_new(); }
            else { EVP_CIPHER_CTX_reset(s.c); EVP_CIPHER_CTX *x = s.c; s = S(); s.c = x; }
        }
    }
    for (auto &s : ss) if (s.live) finish(s, p, 1, c);
    for (auto &s : ss) EVP_CIPHER_CTX_free(s.c);
}
RegScenario r1({ "C02", "sessions", 1, gen, exec, true });
RegProp p1({ "C02", "exploration",
    "A run is a seeded history of up to 4 interleaved cipher sessions over the 14 offered stream and block modes: init in one or two phases, S-box and re-keying settings, updates of every chunk class at every alignment in place or not, mid-stream copies, re-init with new key, new IV or both and direction flips, padding on or off, truncated and badly padded streams, abandoned sessions, allocation and random-source faults in init and copy. Every completed stream is compared byte for byte with an independent one-shot reference. Non-trivial: a session completed after at least two updates of real data.",
    { "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_grasshopper_core.c and tables", "gost89.c", "libcrypto EVP cipher layer" },
    { "memory allocator", "random source" },
    { "reference ciphers written from the standards, checked against published vectors", "streams up to a few tens of kilobytes" },
    20000, 600000 });
}
