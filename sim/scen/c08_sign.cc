// C08: signatures verify exactly for the signed digest and key.
#include "../ec.h"
namespace {
enum { NK = 4, NSIG = 8 };
struct Sig { bool set = false; int key = 0; Bytes dg, sg; };
const char *mdname(int ka) { return ka == KA_512 ? "md_gost12_512" : ka == KA_256 ? "md_gost12_256" : "md_gost94"; }
Bytes refmd(int ka, const Bytes &m) { return ka == KA_512 ? ref::streebog(512, m) : ka == KA_256 ? ref::streebog(256, m) : ref::gost94(m); }
Bytes lepad(const Bn &x, size_t n) { Bytes b = x.tole(n); return b; }
Bytes mkdg(const Plan &p, const Curve &c, long long t, int len, int kind) {
    Bytes r = derive_bytes(p.seed, 0xd8000000 + t, len);
    Bn q = c.q;
    switch (kind % 9) {
    case 0: return Bytes(len, 0);
    case 1: { Bytes b = lepad(q, len); return b.empty() ? r : b; }
    case 2: { Bytes b = lepad(q * Bn(1 + t % 7), len); return b.empty() ? r : b; }
    case 3: return Bytes(len, 0xff);
    case 4: { Bytes b = lepad(q + Bn(t % 3), len); return b.empty() ? r : b; }
    case 5: { Bytes b(len, 0); b[0] = 1 + t % 200; return b; }
    }
    return r;
}
void gen(Rng &r, Plan &p, bool th) {
    int nk = 1 + r.below(NK), steps = 5 + r.below(th ? 30 : 14);
    int onlyka = r.chance(1, 2) ? (int)r.below(4) : -1;
    auto key = [&](int s) { p.add("key", { s, onlyka >= 0 ? onlyka : (long long)r.below(4), (long long)r.below(20), (long long)r.below(4), (long long)r.below(12), (long long)(r.next() >> 40) }); };
    for (int i = 0; i < nk; i++) key(i);
    bool faults = r.chance(1, 2);
    for (int i = 0; i < steps; i++) {
        int s = r.below(nk);
        switch (r.below(16)) {
        case 0: key(s); break;
        case 1: p.add("craft", { s, (long long)r.below(4), (long long)(r.next() >> 40) }); break;
        case 2: p.add("pubonly", { s }); break;
        case 3: p.add("raw", { s, (long long)r.below(12), (long long)(r.next() >> 40) }); break;
        case 4: case 5: case 6: case 7: case 8:
            // key, digest kind, digest length choice, nonce kind, random-source fault, api, data
            p.add("sign", { s, (long long)r.below(9), (long long)r.below(4), (long long)(r.chance(1, 3) ? r.below(8) : 0), (long long)(faults && r.chance(1, 4) ? 1 + r.below(4) : 0), (long long)r.below(5), (long long)(r.next() >> 40) }); break;
        default: p.add("verify", { (long long)r.below(NSIG), (long long)r.below(nk), (long long)r.below(24), (long long)(r.next() >> 20), (long long)r.below(4) });
        }
    }
}
int do_verify(EVP_PKEY *pk, const Bytes &dg, const Bytes &sg, int api) {
    EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(pk, api & 1 ? lib_engine() : NULL);
    if (!x || EVP_PKEY_verify_init(x) != 1) { EVP_PKEY_CTX_free(x); return -100; }
    if (api & 2) { EVP_PKEY_CTX *y = EVP_PKEY_CTX_dup(x); EVP_PKEY_CTX_free(x); x = y; if (!x) return -101; }
    Buf a(dg, 3), b(sg, 1);
    int rc = EVP_PKEY_verify(x, b.p, b.n, a.p, a.n);
    // a context that has judged one signature judges the next alike
    int rc2 = EVP_PKEY_verify(x, b.p, b.n, a.p, a.n);
    EVP_PKEY_CTX_free(x);
    return rc == rc2 ? rc : -102;
}
struct Nonce { int ka; const Curve *c; Bn k; };
void exec(const Plan &p, Ctx &c) {
    Key ks[NK]; Sig sg[NSIG]; int nsig = 0; bool okv = false, rej = false;
    std::vector<Nonce> nonces; std::vector<EVP_PKEY *> bin;
    auto setkey = [&](Key &k, EVP_PKEY *pk, int ka, const Curve &cv, const char *how) {
        std::string why = pk ? key_check(pk, cv) : "no key";
        if (!why.empty()) c.violate("bad-key", "%s %s on %s: %s %s", how, OBJ_nid2sn(ka_nid(ka)), cv.sn, why.c_str(), sim::err_text().c_str());
        if (k.pk) bin.push_back(k.pk);
        k.pk = pk; k.ka = ka; k.cv = &cv; key_read(pk, k.d, k.Q); k.priv = true;
    };
    for (auto &o : p.ops) {
        if (o.k == "key") {
            Key &k = ks[o.mod(0, NK)]; int ka = o.mod(1, 4); const auto &cs = ka_curves(ka);
            const Curve &cv = curve(cs[o.mod(2, cs.size())]); int how = o.mod(3, 4); EVP_PKEY *pk; const char *hn;
            c.mixsig(cv.nid * 8 + how);
            // signatures made with the previous key stay in the history under that key
            for (auto &s : sg) if (s.set && &ks[s.key] == &k) s.set = false;
            if (how < 2) { c.op("keygen"); pk = key_gen(ka == KA_2001DH ? KA_2001 : ka, cv, how); hn = "generated"; if (ka == KA_2001DH) ka = KA_2001; }
            else {
                Bn d = Bn::be(derive_bytes(p.seed, o.arg(5), cv.len)) % cv.q;
                switch (o.mod(4, 12)) { case 0: d = Bn(1); break; case 1: d = Bn(2); break; case 2: d = cv.q - Bn(1); break; case 3: d = cv.q - Bn(2); break; case 4: d = Bn(3 + o.mod(5, 60)); break; }
                if (d.zero()) d = Bn(1);
                c.op("key_import"); pk = key_import(ka, cv, d); hn = "imported";
            }
            setkey(k, pk, ka, cv, hn);
        } else if (o.k == "pubonly") {
            Key &k = ks[o.mod(0, NK)]; if (!k.pk || !k.priv) continue;
            c.op("pub_import");
            EVP_PKEY *pk = pub_import(k.ka, *k.cv, k.Q); Bn d; Pt Q;
            if (!pk) c.violate("pub-refused", "public key on %s refused: %s", k.cv->sn, sim::err_text().c_str());
            key_read(pk, d, Q);
            if (Q.inf || Q.x != k.Q.x || Q.y != k.Q.y) c.violate("pub-differs", "public key on %s reads back differently", k.cv->sn);
            bin.push_back(k.pk); k.pk = pk; k.priv = false;
        } else if (o.k == "craft") {
            // a private key for which verification adds two equal points
            Key &k = ks[o.mod(0, NK)]; if (!k.pk) continue;
            const Curve &cv = *k.cv; int ka = k.ka;
            for (auto &s : sg) if (s.set && &ks[s.key] == &k) s.set = false;
            Bn kk = Bn::be(derive_bytes(p.seed, o.arg(2), cv.len)) % cv.q; if (kk.zero()) continue;
            Bytes dg = derive_bytes(p.seed, o.arg(2) + 1, k.dlen()); Bn e = ref::ec_e(cv, dg);
            Bn r = cv.mulg(kk).x % cv.q; if (r.zero()) continue;
            int v = o.mod(1, 4);
            // z1 = s/e, z2 = -r/e;  z1 G = +-(z2 d) G, or z2 d = +-1, +-2
            Bn d;
            if (v == 0) d = (cv.q - kk * e % cv.q) * modinv(Bn(2) * r % cv.q, cv.q) % cv.q;
            else d = (cv.q - e) * modinv(r, cv.q) % cv.q * Bn(v) % cv.q;
            if (d.zero()) continue;
            c.op("key_import");
            setkey(k, key_import(ka, cv, d), ka, cv, "imported");
            sim::rnd.forced = { kk.tobe(cv.len) }; sim::rnd.forced_pos = 0; sim::rnd.forced_be = true;
            EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(k.pk, NULL); uint8_t b[128]; size_t l = sizeof b;
            c.op("sign_crafted"); EVP_PKEY_sign_init(x);
            if (EVP_PKEY_sign(x, b, &l, dg.data(), dg.size()) != 1) c.violate("sign-failed", "%s: signing refused: %s", cv.sn, sim::err_text().c_str());
            EVP_PKEY_CTX_free(x); sim::rnd.forced.clear();
            Bytes s(b, b + l);
            if (!ref::ec_verify(cv, k.Q, dg, s)) c.violate("invalid-signature", "%s: signature does not satisfy the standard's equation", cv.sn);
            if (do_verify(k.pk, dg, s, 0) != 1) c.violate("good-rejected", "%s: valid signature rejected (doubling case): %s", cv.sn, sim::err_text().c_str());
            s[0] ^= 1;
            if (do_verify(k.pk, dg, s, 0) == 1 && !ref::ec_verify(cv, k.Q, dg, s)) c.violate("bad-accepted", "%s: altered signature accepted", cv.sn);
            // the sum is the point at infinity: s = r d
            Bn rr = Bn::be(derive_bytes(p.seed, o.arg(2) + 2, cv.len)) % cv.q; if (rr.zero()) rr = Bn(1);
            c.op("verify_infinity");
            if (do_verify(k.pk, dg, cat((rr * k.d % cv.q).tobe(cv.len), rr.tobe(cv.len)), 0) == 1) c.violate("bad-accepted", "%s: signature whose check point is infinity accepted", cv.sn);
            sim::err_text(); c.count("crafted");
        } else if (o.k == "sign") {
            int ki = o.mod(0, NK); Key &k = ks[ki]; if (!k.pk) continue;
            const Curve &cv = *k.cv; int api = o.mod(5, 5), nk = o.mod(3, 8), fault = o.arg(4);
            int len = o.mod(2, 4) == 0 ? 96 - k.dlen() : k.dlen(); Bytes msg;
            Bytes dg = mkdg(p, cv, o.arg(6), len, o.mod(1, 9));
            bool viamd = api >= 3 && k.ka != KA_2001DH;
            if (viamd) { msg = derive_bytes(p.seed, o.arg(6), o.arg(6) % 300); dg = refmd(k.ka, msg); }
            Bn e = ref::ec_e(cv, dg);
            if (!k.priv) {
                c.op("sign_without_private");
                EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(k.pk, NULL); uint8_t b[128]; size_t l = sizeof b;
                if (EVP_PKEY_sign_init(x) == 1 && EVP_PKEY_sign(x, b, &l, dg.data(), dg.size()) == 1) c.violate("signed-without-key", "%s: signed with a public key only", cv.sn);
                EVP_PKEY_CTX_free(x); sim::err_text(); continue;
            }
            // forced answers of the random source: degenerate or out-of-range nonces, then ordinary ones
            auto &F = sim::rnd.forced; F.clear(); sim::rnd.forced_pos = 0; sim::rnd.forced_be = true;
            bool mayfail = false; const char *nn = "";
            Bn kk = Bn::be(derive_bytes(p.seed, o.arg(6) + 5, cv.len)) % cv.q;
            if (nk == 1) { F.push_back(Bytes(cv.len, 0)); mayfail = true; nn = "zero"; }
            else if (nk == 2) { F.push_back(Bn(1).tobe(cv.len)); nn = "one"; }         // x = 0 on the C curve
            else if (nk == 3) { F.push_back((cv.q - Bn(1)).tobe(cv.len)); nn = "q-1"; }
            else if (nk == 4) { F.push_back(cv.q.tobe(cv.len)); mayfail = true; nn = "q"; }
            else if (nk == 5 && !viamd) {
                // a digest for which this nonce would give s = 0
                Bn r = cv.mulg(kk).x % cv.q;
                if (!r.zero() && !kk.zero()) {
                    Bn ee = (cv.q - r * k.d % cv.q) * modinv(kk, cv.q) % cv.q; Bytes b = ee.tole(len);
                    if (!ee.zero() && !b.empty()) { dg = b; e = ee; F.push_back(kk.tobe(cv.len)); nn = "s=0"; if (o.arg(6) & 1) F.push_back(kk.tobe(cv.len)); }
                }
            } else if (nk == 6) { F.push_back(Bytes(cv.len, 0xff)); F.push_back(Bytes(cv.len, 0xff)); nn = "ones"; }
            else if (nk == 7) { F.push_back(Bn(2 + o.arg(6) % 30).tobe(cv.len)); nn = "small"; }
            bool forced = !F.empty(); int nf = F.size();
            if (forced) c.count(strf("nonce.%s", nn));
            uint64_t c0 = sim::rnd.calls, b0 = sim::rnd.bytes;
            if (fault > 0) { sim::rnd.fail_from = c0 + (fault == 1 ? 0 : fault == 2 ? 1 : fault == 3 ? 2 : nf); sim::rnd.fail_count = 1000; }
            uint64_t f0 = sim::rnd.failed;
            c.op("sign"); c.mixsig(cv.nid); c.mixsig(nk * 8 + fault); c.mixsig(api * 16 + o.mod(1, 9));
            uint8_t b[160]; memset(b, 0xEE, sizeof b); size_t l = sizeof b; int rc;
            if (viamd) {
                EVP_MD_CTX *m = EVP_MD_CTX_new(); const EVP_MD *md = eng_md(OBJ_txt2nid(mdname(k.ka)));
                rc = EVP_DigestSignInit(m, NULL, md, lib_engine(), k.pk);
                size_t cut = msg.empty() ? 0 : o.arg(6) % msg.size();
                if (rc == 1) rc = EVP_DigestSignUpdate(m, msg.data(), cut) == 1 && EVP_DigestSignUpdate(m, msg.data() + cut, msg.size() - cut) == 1;
                if (rc == 1 && api == 4) { size_t q = 0; rc = EVP_DigestSignFinal(m, NULL, &q) == 1; if (rc == 1 && q != (size_t)k.siglen()) c.violate("size", "signature size %zu announced", q); }
                if (rc == 1) rc = EVP_DigestSignFinal(m, b, &l);
                EVP_MD_CTX_free(m);
            } else {
                EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(k.pk, api == 1 ? lib_engine() : NULL);
                rc = EVP_PKEY_sign_init(x);
                if (rc == 1 && api == 2) { EVP_PKEY_CTX *y = EVP_PKEY_CTX_dup(x); EVP_PKEY_CTX_free(x); x = y; if (!x) c.violate("copy-failed", "context not duplicated"); }
                if (rc == 1 && (api & 1)) { size_t q = 0; rc = EVP_PKEY_sign(x, NULL, &q, dg.data(), dg.size()); if (rc == 1 && q != (size_t)k.siglen()) c.violate("size", "signature size %zu announced", q); }
                Buf db(dg, 5);
                if (rc == 1) rc = EVP_PKEY_sign(x, b, &l, db.p, db.n);
                EVP_PKEY_CTX_free(x);
            }
            bool fired = sim::rnd.failed != f0; uint64_t used = sim::rnd.bytes - b0;
            sim::rnd.fail_from = -1; F.clear(); sim::rnd.forced_pos = 0;
            if (fired) c.count("fault.random_source_failed");
            if (rc != 1) {
                if (!fired && !mayfail) c.violate("sign-failed", "%s: signing refused (nonce %s): %s", cv.sn, nn, sim::err_text().c_str());
                for (auto x : b) if (x != 0xEE) { c.violate("output-after-failure", "%s: signing failed but left output", cv.sn); }
                sim::err_text(); c.count("sign_failures"); continue;
            }
            if (l != (size_t)k.siglen()) c.violate("size", "%s: signature of %zu bytes", cv.sn, l);
            if (b[l] != 0xEE) c.violate("overrun", "%s: signature longer than announced", cv.sn);
            Bytes s(b, b + l);
            if (!ref::ec_verify(cv, k.Q, dg, s)) c.violate("invalid-signature", "%s: signature (nonce %s, digest %s) does not satisfy the standard's equation", cv.sn, nn, hex(dg).c_str());
            Bn S = Bn::be(sub(s, 0, cv.len)), R = Bn::be(sub(s, cv.len, cv.len));
            Bn kn = (S + (cv.q - R) * k.d) % cv.q * modinv(e, cv.q) % cv.q;
            // the source went dark before it delivered a usable nonce
            if (fired && fault == 1) c.violate("signed-without-randomness", "%s: signature made while the random source was failing", cv.sn);
            if (fired && forced && fault == 4 && (nk == 1 || nk == 5)) c.violate("signed-without-randomness", "%s: signature made although the retry had no randomness", cv.sn);
            if (used * 8 + 8 < (uint64_t)cv.bits) c.violate("nonce-entropy", "%s: %llu random bytes drawn for a %d-bit nonce", cv.sn, (unsigned long long)used, cv.bits);
            if (!forced) {
                // fresh, full-size nonces (chance of a false alarm below 2^-60)
                Bn lim; BN_lshift(lim.b, Bn(1).b, BN_num_bits(cv.q.b) - 64);
                if (kn < lim) c.violate("short-nonce", "%s: nonce of %d bits", cv.sn, BN_num_bits(kn.b));
                for (auto &n : nonces) if (n.c->q == cv.q) {
                    Bn df = kn < n.k ? n.k - kn : kn - n.k; Bn rv = cv.q - df; if (rv < df) df = rv;
                    if (df.zero()) c.violate("nonce-reused", "%s: two signatures share a nonce", cv.sn);
                    if (df < lim) c.violate("nonce-related", "%s: two nonces differ by %d bits only", cv.sn, BN_num_bits(df.b));
                    Bytes a = kn.tole(64), d2 = n.k.tole(64);
                    if (std::equal(a.begin(), a.begin() + 8, d2.begin())) c.violate("nonce-related", "%s: two nonces share their low bits", cv.sn);
                }
                nonces.push_back({ k.ka, &cv, kn });
            }
            c.logb("sig", s); c.count("signatures");
            if (do_verify(k.pk, dg, s, o.arg(6) & 3) != 1) c.violate("good-rejected", "%s: own signature rejected (nonce %s): %s", cv.sn, nn, sim::err_text().c_str());
            Sig &t = sg[nsig++ % NSIG]; t.set = true; t.key = ki; t.dg = dg; t.sg = s;
        } else if (o.k == "verify") {
            Sig &t = sg[o.mod(0, nsig < NSIG ? nsig + !nsig : NSIG)]; if (!t.set) continue;
            Key *k = &ks[t.key]; uint64_t r = o.arg(3); const Curve &cv = *k->cv; int n = cv.len;
            Bytes dg = t.dg, s = t.sg; int kind = o.mod(2, 24); const char *nm = "none";
            Bn S = Bn::be(sub(s, 0, n)), R = Bn::be(sub(s, n, n));
            auto put = [&](const Bn &a, const Bn &b) { Bytes x = a.tobe(n), y = b.tobe(n); if (!x.empty() && !y.empty()) s = cat(x, y); };
            switch (kind) {
            case 0: s[r % s.size()] ^= 1 << (r >> 16) % 8; nm = "signature bit"; break;
            case 1: dg[r % dg.size()] ^= 1 << (r >> 16) % 8; nm = "digest bit"; break;
            case 2: s.resize(s.size() - 1 - r % s.size()); nm = "truncated"; break;
            case 3: s.resize(s.size() + 1 + r % 5, r & 0x100 ? 0 : 0x41); nm = "extended"; break;
            case 4: s.insert(s.begin(), 0); s.insert(s.begin() + n + 1, 0); nm = "zero-padded"; break;
            case 5: put(Bn(), R); nm = "s=0"; break;
            case 6: put(S, Bn()); nm = "r=0"; break;
            case 7: put(Bn(), Bn()); nm = "zero"; break;
            case 8: put(S + cv.q, R); nm = "s+q"; break;
            case 9: put(S, R + cv.q); nm = "r+q"; break;
            case 10: put(R, S); nm = "swapped"; break;
            case 11: put(cv.q - S, R); nm = "negated s"; break;
            case 12: put(S, cv.q - R); nm = "negated r"; break;
            case 13: k = &ks[o.mod(1, NK)]; nm = "other key"; break;
            case 14: std::fill(s.begin(), s.end(), 0xff); nm = "all ones"; break;
            case 15: put(cv.q, R); nm = "s=q"; break;
            case 16: put(S, cv.q); nm = "r=q"; break;
            case 17: { Sig &u = sg[r % NSIG]; if (u.set && u.sg.size() == s.size()) s = u.sg; nm = "other signature"; break; }
            case 18: std::reverse(s.begin(), s.end()); nm = "reversed"; break;
            case 19: s.insert(s.begin(), 0); nm = "leading zero"; break;
            case 20: { Bytes q = cv.q.tole(dg.size()); if (!q.empty()) { Bn v = Bn::le(dg) + cv.q; Bytes w = v.tole(dg.size()); if (!w.empty()) dg = w; } nm = "digest+q"; break; }
            }
            if (!k->pk) continue;
            bool want = ref::ec_verify(*k->cv, k->Q, dg, s);
            c.op("verify"); c.mixsig(k->cv->nid * 32 + kind);
            int rc = do_verify(k->pk, dg, s, o.mod(4, 4));
            if (rc < -1) c.violate("verify-unstable", "%s: verification context: %d", cv.sn, rc);
            if ((rc == 1) != want) c.violate(want ? "good-rejected" : "bad-accepted", "%s: signature (%s) %s: %s", k->cv->sn, nm, want ? "is valid but was rejected" : "does not satisfy the equation but was accepted", sim::err_text().c_str());
            if (kind < 20) { std::string q = std::string("fault.tampered_") + nm; for (auto &ch : q) if (ch == ' ') ch = '_'; c.count(q); }
            (want ? okv : rej) = true; if (rej) c.nontrivial = true;
            
            sim::err_text();
        } else if (o.k == "raw") {
            // bytes from the wire, in place of a digest or a signature
            Key &k = ks[o.mod(0, NK)]; if (!k.pk) continue;
            uint64_t r = o.arg(2); int kind = o.mod(1, 12);
            Bytes dg = derive_bytes(p.seed, r, k.dlen()), s = derive_bytes(p.seed, r + 1, k.siglen());
            if (kind < 4) s.resize(r % (2 * k.siglen())); else if (kind < 6) { s.assign(k.siglen(), 0); s[r % s.size()] = 1; }
            else if (kind < 9) { static const int l[] = { 0, 1, 20, 28, 31, 33, 48, 63, 65, 128 }; dg.assign(l[r % 10], (uint8_t)r); }
            c.op(kind >= 6 && kind < 9 ? "verify_odd_digest" : "verify_raw");
            bool want = (dg.size() == 32 || dg.size() == 64) && ref::ec_verify(*k.cv, k.Q, dg, s);
            if ((do_verify(k.pk, dg, s, 0) == 1) != want) c.violate("bad-accepted", "%s: random bytes accepted as a signature", k.cv->sn);
            if (kind >= 6 && kind < 9 && k.priv) {
                EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(k.pk, NULL); uint8_t b[128]; size_t l = sizeof b;
                c.op("sign_odd_digest");
                if (EVP_PKEY_sign_init(x) == 1 && EVP_PKEY_sign(x, b, &l, dg.data(), dg.size()) == 1) c.violate("odd-digest-signed", "%s: digest of %zu bytes signed", k.cv->sn, dg.size());
                EVP_PKEY_CTX_free(x);
            }
            c.count("fault.garbage"); sim::err_text();
        }
    }
    for (auto &k : ks) EVP_PKEY_free(k.pk);
    for (auto x : bin) EVP_PKEY_free(x);
}
RegScenario r1({ "C08", "sign", 1, gen, exec, true });
RegProp p1({ "C08", "exploration",
    "A run is a seeded history of key generation and import (every curve, extreme private keys), signing through both interfaces, and verification of signatures altered in transit, replayed under other keys and digests, or made of garbage. The random source hands out degenerate, out-of-range and ordinary nonces and fails at chosen requests. Every signature is checked against the standard's equation on an independent curve implementation, its nonce is recovered and compared with all others, and the verifier's verdict must equal the equation's. Non-trivial: at least one signature made and accepted and one altered signature judged in the same run.",
    { "gost_ec_sign.c", "gost_pmeth.c", "gost_ameth.c", "ecp_id_*.c", "libcrypto BN and EVP layers" },
    { "random source", "channel between the parties" },
    { "reference: GOST R 34.10 equations over libcrypto's generic curve arithmetic, checked against published vectors" },
    6000, 300000 });
}
