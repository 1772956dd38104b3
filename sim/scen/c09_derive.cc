// C09: both parties of a key agreement derive the same, standard, key.
#include "../ec.h"
extern "C" int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len, const unsigned char *key, size_t keylen,
    const unsigned char *label, size_t label_len, const unsigned char *seed, size_t seed_len, const size_t representation);
namespace {
enum { NK = 4, NX = 3 };
enum { M_VKO256, M_VKO512, M_PLAIN };
struct X { EVP_PKEY_CTX *x = nullptr; int key = -1; int mode = M_PLAIN; Bytes ukm; bool have_peer = false; Pt peer; bool unknown = false; };
void gen(Rng &r, Plan &p, bool th) {
    int steps = 4 + r.below(th ? 40 : 16), nk = 2 + r.below(NK - 1);
    long long ka = r.below(4), cv = r.below(20); bool mixed = r.chance(1, 4);
    auto key = [&](int s) { p.add("key", { s, mixed && r.chance(1, 3) ? (long long)r.below(4) : ka, mixed && r.chance(1, 2) ? (long long)r.below(20) : cv, (long long)r.below(3), (long long)r.below(12), (long long)(r.next() >> 40) }); };
    for (int i = 0; i < nk; i++) key(i);
    auto ukm = [&](std::vector<long long> pre) { pre.insert(pre.end(), { (long long)r.below(12), (long long)r.below(40), (long long)(r.next() >> 40), (long long)r.below(2) }); return pre; };
    for (int i = 0; i < steps; i++) {
        switch (r.below(17)) {
        case 15: case 16: { // one context serving several derivations
            long long X = r.below(NX), a = r.below(nk), b = r.below(nk), m = r.below(4);
            p.add("ctx", { X, a }); if (m < 3) p.add("mode", { X, m, (long long)r.below(2) });
            p.add("peer", { X, b });
            for (int n = 1 + r.below(4); n-- > 0;) {
                if (r.chance(4, 5)) p.add("ukm", ukm({ X }));
                if (r.chance(1, 5)) p.add("mode", { X, (long long)r.below(3), 0 });
                if (r.chance(1, 6)) p.add("peer", { X, (long long)r.below(nk) });
                if (r.chance(1, 6)) { long long Y = r.below(NX); p.add("dup", { X, Y }); if (r.chance(1, 2)) X = Y; }
                p.add("derive", { X, (long long)r.below(2) });
            }
            break;
        }
        case 0: key(r.below(nk)); break;
        case 14: p.add("nopriv", { (long long)r.below(nk), (long long)r.below(3) }); break;
        // a complete exchange: two keys, mode, ukm, what the transport does
        case 1: case 2: case 3: case 4: case 5: p.add("exchange", { (long long)r.below(nk), (long long)r.below(nk), (long long)r.below(5), (long long)r.below(12), (long long)r.below(40), (long long)(r.next() >> 40), (long long)(r.chance(1, 2) ? r.below(12) : 0), (long long)(r.next() >> 30) }); break;
        case 6: p.add("ctx", { (long long)r.below(NX), (long long)r.below(nk) }); break;
        case 7: p.add("mode", { (long long)r.below(NX), (long long)r.below(5), (long long)r.below(2) }); break;
        case 8: p.add("ukm", ukm({ (long long)r.below(NX) })); break;
        case 9: p.add("peer", { (long long)r.below(NX), (long long)r.below(nk) }); break;
        case 10: case 11: p.add("derive", { (long long)r.below(NX), (long long)r.below(2) }); break;
        case 12: p.add("dup", { (long long)r.below(NX), (long long)r.below(NX) }); break;
        case 13: p.add("kdf", { (long long)r.below(4), (long long)r.below(8), (long long)r.below(80), (long long)r.below(20), (long long)r.below(20), (long long)(r.next() >> 40), (long long)r.below(8) }); break;
        }
    }
}
// keying material: kinds cover zero, one, multiples of q, all-ones, every length
Bytes mkukm(const Plan &p, const Curve &cv, int kind, int len, long long t, int mode) {
    if (mode == 2) len = 8; else if (mode == 3) len = 32;
    else if (mode == 4) len = len % 41; else if (mode < 2) len = 1 + len % 32;
    Bytes b = derive_bytes(p.seed, 0x09000000 + t, len);
    switch (kind % 12) {
    case 0: std::fill(b.begin(), b.end(), 0); break;
    case 1: std::fill(b.begin(), b.end(), 0); if (len) b[0] = 1; break;
    case 2: { Bytes q = cv.q.tole(32); if (!q.empty() && len == 32) b = q; break; }
    case 3: std::fill(b.begin(), b.end(), 0xff); break;
    case 4: for (int i = 0; i < len && i < 16; i++) b[i] = 0; break;
    case 5: for (int i = 16; i < len; i++) b[i] = 0; break;
    }
    return b;
}
Bytes expect(const Key &k, const Pt &Q, int mode, const Bytes &ukm) {
    if (ukm.empty()) return {};
    if (Q.inf) return {};
    if (mode == M_VKO256) return ref::vko(*k.cv, k.d, Q, ukm, 256);
    if (mode == M_VKO512) return ref::vko(*k.cv, k.d, Q, ukm, 512);
    if (ukm.size() == 8) return ref::vko(*k.cv, k.d, Q, ukm, k.ka == KA_2001 || k.ka == KA_2001DH ? 94 : 256);
    if (ukm.size() == 32 && (k.ka == KA_256 || k.ka == KA_512)) return ref::keg(*k.cv, k.d, Q, ukm, k.ka == KA_512);
    return {};
}
bool set_mode(EVP_PKEY_CTX *x, int mode, bool str) {
    if (str) return EVP_PKEY_CTX_ctrl_str(x, "vko", mode == M_VKO256 ? "256" : mode == M_VKO512 ? "512" : "0") > 0;
    return EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_DERIVE, SIM_PKEY_CTRL_SET_VKO, mode == M_VKO256 ? NID_id_GostR3411_2012_256 : mode == M_VKO512 ? NID_id_GostR3411_2012_512 : 0, NULL) > 0;
}
bool set_ukm(EVP_PKEY_CTX *x, const Bytes &u, bool str) {
    if (str) return EVP_PKEY_CTX_ctrl_str(x, "ukmhex", hex(u).c_str()) > 0;
    Buf b(u, 1);
    return EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_IV, u.size(), b.p) > 0;
}
// runs derive; checks sizes; empty on failure
Bytes derive(EVP_PKEY_CTX *x, bool query, Ctx &c, size_t want) {
    size_t l = 0; uint8_t b[96]; memset(b, 0xEE, sizeof b);
    if (query) {
        int q = EVP_PKEY_derive(x, NULL, &l);
        if (q == 1 && want && l != want) c.violate("size", "key of %zu bytes announced, %zu expected", l, want);
        if (q != 1 && want) c.violate("derive-failed", "size query refused: %s", sim::err_text().c_str());
    }
    l = 64;
    int rc = EVP_PKEY_derive(x, b, &l);
    if (rc != 1) { sim::err_text(); return {}; }
    if (l != 32 && l != 64) c.violate("size", "derive returned %zu bytes", l);
    if (b[l] != 0xEE) c.violate("overrun", "derive wrote more than %zu bytes", l);
    return Bytes(b, b + l);
}
// a public key as received: SubjectPublicKeyInfo bytes, possibly changed on the way
EVP_PKEY *receive(const Plan &p, const Key &k, int tamper, uint64_t r, Pt &Q, bool &altered, Ctx &c) {
    const Curve &cv = *k.cv; int n = cv.len; Bytes xy = cv.pubLE(k.Q); altered = false; Q = k.Q;
    auto setpt = [&](const Pt &P) { if (!P.inf) xy = cv.pubLE(P); };
    switch (tamper) {
    case 1: xy[r % xy.size()] ^= 1 << (r >> 8) % 8; break;
    case 2: setpt(cv.G); break;
    case 3: { Pt N = k.Q; N.y = cv.p - N.y; setpt(N); break; }
    case 4: setpt(cv.mulg(Bn(2 + r % 100))); break;
    case 5: std::fill(xy.begin(), xy.end(), 0); break;
    case 6: { Bytes y(xy.begin() + n, xy.end()), x2(xy.begin(), xy.begin() + n); xy = cat(y, x2); break; }
    case 7: case 8: // small-order points, alone or added, on the curves with a cofactor
        if (cv.h > 1) {
            for (int i = 0; i < 30; i++) {
                Bn x = Bn::be(derive_bytes(p.seed, r + i, n)) % cv.p; EC_POINT *e = EC_POINT_new(cv.g); Pt P;
                if (EC_POINT_set_compressed_coordinates(cv.g, e, x.b, r & 1, NULL) == 1) { P.inf = false; EC_POINT_get_affine_coordinates(cv.g, e, P.x.b, P.y.b, NULL); }
                EC_POINT_free(e); ERR_clear_error();
                if (P.inf) continue;
                Pt T = cv.mul(cv.q, P); if (T.inf) continue;
                setpt(tamper == 7 ? T : cv.add(k.Q, T)); c.count(tamper == 7 ? "fault.small_order_point" : "fault.coset_point"); break;
            }
        }
        break;
    case 9: xy[xy.size() - 1] ^= 0x80; break;
    case 10: { Bytes x2 = (Bn::le(sub(xy, 0, n)) + cv.p).tole(n); if (!x2.empty()) xy = cat(x2, sub(xy, n, n)); break; }  // same point, unreduced coordinate
    }
    altered = xy != cv.pubLE(k.Q);
    if (altered) c.count("fault.public_key_altered");
    Bytes d = pub_der(k.ka, cv, xy); const uint8_t *q = d.data();
    if (tamper == 11) { d.resize(d.size() - 1 - r % 20); altered = true; c.count("fault.public_key_truncated"); q = d.data(); }
    EVP_PKEY *pk = d2i_PUBKEY(NULL, &q, d.size());
    if (pk) { Bn x; key_read(pk, x, Q); }
    sim::err_text();
    return pk;
}
void exec(const Plan &p, Ctx &c) {
    Key ks[NK]; X xs[NX]; std::vector<EVP_PKEY *> bin;
    for (auto &o : p.ops) {
        if (o.k == "key") {
            Key &k = ks[o.mod(0, NK)]; int ka = o.mod(1, 4); const auto &cs = ka_curves(ka);
            const Curve &cv = curve(cs[o.mod(2, cs.size())]); int how = o.mod(3, 3); EVP_PKEY *pk;
            c.mixsig(cv.nid);
            if (how < 2 && ka != KA_2001DH) { c.op("keygen"); pk = key_gen(ka, cv, how); }
            else {
                Bn d = Bn::be(derive_bytes(p.seed, o.arg(5), cv.len)) % cv.q;
                switch (o.mod(4, 12)) { case 0: d = Bn(1); break; case 1: d = cv.q - Bn(1); break; case 2: d = Bn(2 + o.mod(5, 99)); break; }
                if (d.zero()) d = Bn(1);
                c.op("key_import"); pk = key_import(ka, cv, d);
            }
            std::string why = pk ? key_check(pk, cv) : "no key";
            if (!why.empty()) c.violate("bad-key", "%s on %s: %s", OBJ_nid2sn(ka_nid(ka)), cv.sn, why.c_str());
            if (k.pk) bin.push_back(k.pk);
            for (auto &x : xs) if (x.key == (int)o.mod(0, NK)) { EVP_PKEY_CTX_free(x.x); x = X(); }
            k.pk = pk; k.ka = ka; k.cv = &cv; key_read(pk, k.d, k.Q); k.priv = true;
        } else if (o.k == "exchange") {
            Key &a = ks[o.mod(0, NK)], &b = ks[o.mod(1, NK)]; if (!a.pk || !b.pk) continue;
            int mode = o.mod(2, 5), tamper = o.mod(6, 12); uint64_t r = o.arg(7);
            bool same = a.cv == b.cv && a.ka == b.ka;
            Bytes u = mkukm(p, *a.cv, o.arg(3), o.mod(4, 64), o.arg(5), mode), u2 = u;
            int m = mode == 0 ? M_VKO256 : mode == 1 ? M_VKO512 : M_PLAIN;
            if (tamper == 0 && (r & 7) == 7 && !u2.empty()) { u2[r / 8 % u2.size()] ^= 1 << (r >> 20) % 8; c.count("fault.ukm_altered"); }
            c.mixsig(a.cv->nid * 8 + mode); c.mixsig(tamper * 64 + u.size());
            Bytes got[2];
            for (int side = 0; side < 2; side++) {
                Key &me = side ? b : a, &him = side ? a : b; const Bytes &U = side ? u2 : u;
                Pt Q; bool alt; c.op("receive_public");
                EVP_PKEY *peer = receive(p, him, side ? tamper : 0, r, Q, alt, c);
                if (!peer) { if (!alt) c.violate("pub-refused", "public key on %s refused", him.cv->sn); continue; }
                if (!him.cv->on(Q) && !Q.inf) c.violate("off-curve", "a public key off the curve was accepted (%s)", him.cv->sn);
                if (!alt && (Q.inf || Q.x != him.Q.x || Q.y != him.Q.y)) c.violate("pub-differs", "public key on %s changed in transport", him.cv->sn);
                EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(me.pk, r & 1 ? lib_engine() : NULL);
                c.op(side ? "derive_b" : "derive_a");
                if (EVP_PKEY_derive_init(x) != 1) c.violate("derive-failed", "derive init refused: %s", sim::err_text().c_str());
                bool order = r & 2, ok;
                if (order) { ok = EVP_PKEY_derive_set_peer(x, peer) == 1; }
                if (!set_mode(x, m, r & 4)) c.violate("ctrl-refused", "mode %d refused", m);
                bool uok = set_ukm(x, U, (r >> 3) & 1);
                if (U.size() > 32 && uok) c.violate("ukm-too-long", "%zu bytes of keying material accepted", U.size());
                if (U.size() <= 32 && !U.empty() && !uok) c.violate("ctrl-refused", "keying material of %zu bytes refused: %s", U.size(), sim::err_text().c_str());
                if (!order) ok = EVP_PKEY_derive_set_peer(x, peer) == 1;
                if (!ok && same && !alt) c.violate("peer-refused", "peer on %s refused: %s", me.cv->sn, sim::err_text().c_str());
                if (ok && a.cv->nid != b.cv->nid) c.violate("foreign-peer", "a peer key on %s accepted for a key on %s", him.cv->sn, me.cv->sn);
                Bytes w = ok && uok ? expect(me, Q, m, U) : Bytes();
                Bytes g = derive(x, (r >> 4) & 1 && !w.empty(), c, w.size());
                if (!ok || !uok) { if (!g.empty()) c.violate("derived-without", "key derived without %s", ok ? "keying material" : "a peer"); }
                else if (g != w) {
                    if (g.empty()) { c.violate("derive-failed", "%s mode %d, %zu bytes of keying material, tampering %d: derive refused: %s", me.cv->sn, m, U.size(), tamper, sim::err_text().c_str()); }
                    c.violate(w.empty() ? "degenerate-key" : "wrong-key", "%s %s mode %d, %zu bytes of keying material %s: derived %s, standard says %s", OBJ_nid2sn(ka_nid(me.ka)), me.cv->sn, m, U.size(), hex(U).c_str(), hex(g).c_str(), w.empty() ? "failure" : hex(w).c_str());
                }
                got[side] = g; c.logb("key", g);
                EVP_PKEY_CTX_free(x); EVP_PKEY_free(peer);
            }
            sim::err_text();
            if (same && u == u2 && tamper == 0) {
                if (got[0] != got[1]) c.violate("parties-differ", "%s: the two parties derived different keys", a.cv->sn);
                if (!got[0].empty()) { c.count("agreements"); c.nontrivial = true; }
            } else c.count("disturbed_exchanges");
        } else if (o.k == "ctx") {
            X &x = xs[o.mod(0, NX)]; int ki = o.mod(1, NK); if (!ks[ki].pk) continue;
            EVP_PKEY_CTX_free(x.x); x = X(); x.key = ki; x.x = EVP_PKEY_CTX_new(ks[ki].pk, NULL);
            c.op("derive_init"); if (EVP_PKEY_derive_init(x.x) != 1) c.violate("derive-failed", "derive init refused");
        } else if (o.k == "mode") {
            X &x = xs[o.mod(0, NX)]; if (!x.x) continue;
            int m = o.mod(1, 5); c.op("set_mode");
            if (m < 3) { if (!set_mode(x.x, m, o.arg(2))) c.violate("ctrl-refused", "mode %d refused", m); x.mode = m; }
            else if (m == 3) { if (EVP_PKEY_CTX_ctrl(x.x, -1, EVP_PKEY_OP_DERIVE, SIM_PKEY_CTRL_SET_VKO, NID_sha256, NULL) > 0) c.violate("bad-mode", "VKO with a foreign digest accepted"); }
            else if (EVP_PKEY_CTX_ctrl_str(x.x, "vko", "384") > 0) c.violate("bad-mode", "VKO 384 accepted");
            sim::err_text();
        } else if (o.k == "ukm") {
            X &x = xs[o.mod(0, NX)]; if (!x.x) continue;
            int md = x.mode == M_PLAIN ? (o.arg(2) & 1 ? 2 : o.arg(2) & 2 ? 3 : 4) : x.mode;
            Bytes u = mkukm(p, *ks[x.key].cv, o.arg(1), o.arg(2), o.arg(3), md);
            c.op("set_ukm"); bool ok = set_ukm(x.x, u, o.arg(4));
            if (u.size() > 32) { if (ok) c.violate("ukm-too-long", "%zu bytes of keying material accepted", u.size()); }
            else if (u.empty()) { if (ok) x.ukm.clear(); }
            else { if (!ok) c.violate("ctrl-refused", "keying material refused"); x.ukm = u; }
            sim::err_text();
        } else if (o.k == "peer") {
            X &x = xs[o.mod(0, NX)]; Key &k = ks[o.mod(1, NK)]; if (!x.x || !k.pk) continue;
            EVP_PKEY *pk = pub_import(k.ka, *k.cv, k.Q);
            c.op("set_peer");
            bool ok = EVP_PKEY_derive_set_peer(x.x, pk) == 1, same = k.cv == ks[x.key].cv && k.ka == ks[x.key].ka;
            if (ok && k.cv->nid != ks[x.key].cv->nid) c.violate("foreign-peer", "a peer on another curve accepted");
            if (!ok && same) c.violate("peer-refused", "peer refused: %s", sim::err_text().c_str());
            if (ok) { x.have_peer = true; x.peer = k.Q; }
            EVP_PKEY_free(pk); sim::err_text();
        } else if (o.k == "dup") {
            X &x = xs[o.mod(0, NX)], &y = xs[o.mod(1, NX)]; if (!x.x || &x == &y) continue;
            c.op("dup"); EVP_PKEY_CTX *d = EVP_PKEY_CTX_dup(x.x); if (!d) c.violate("copy-failed", "context not duplicated: %s", sim::err_text().c_str());
            EVP_PKEY_CTX_free(y.x); y = x; y.x = d; c.count("copies");
        } else if (o.k == "derive") {
            X &x = xs[o.mod(0, NX)]; if (!x.x) continue;
            Key &k = ks[x.key];
            c.op(!x.have_peer ? "derive_no_peer" : x.ukm.empty() ? "derive_no_ukm" : "derive");
            Bytes w = x.have_peer ? expect(k, x.peer, x.mode, x.ukm) : Bytes();
            c.mixsig(x.mode * 4 + x.have_peer * 2 + !w.empty()); c.mixsig(x.ukm.size());
            Bytes g = derive(x.x, o.arg(1) && !w.empty(), c, w.size());
            if (g != w) c.violate(g.empty() ? "derive-failed" : !x.have_peer ? "derived-without" : w.empty() ? "degenerate-key" : "wrong-key", "%s mode %d, %zu bytes of keying material, peer %d: got %s want %s", k.cv->sn, x.mode, x.ukm.size(), x.have_peer, hex(g).c_str(), hex(w).c_str());
            c.count(w.empty() ? "refused_derivations" : "context_derivations");
        } else if (o.k == "nopriv") {
            // a party that holds only public keys
            Key &k = ks[o.mod(0, NK)]; if (!k.pk) continue;
            EVP_PKEY *pk = pub_import(k.ka, *k.cv, k.Q); EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(pk, NULL);
            c.op("derive_no_private");
            if (EVP_PKEY_derive_init(x) == 1) {
                set_mode(x, o.mod(1, 3), false); set_ukm(x, derive_bytes(p.seed, 1, o.mod(1, 3) == 2 ? 8 : 32), false);
                if (EVP_PKEY_derive_set_peer(x, pk) == 1 && !derive(x, false, c, 0).empty()) c.violate("derived-without", "key derived without a private key");
            }
            EVP_PKEY_CTX_free(x); EVP_PKEY_free(pk); sim::err_text();
        } else if (o.k == "kdf") {
            size_t R = 1 + o.mod(0, 4), n = 32 * (1 + o.mod(1, 6)); if (o.arg(1) == 6) n = 0; if (o.arg(1) == 7) n = 32 + 1 + o.arg(2) % 31;
            Bytes key = derive_bytes(p.seed, o.arg(5), o.arg(6) == 0 ? 1 + o.mod(2, 90) : 32), lab = derive_bytes(p.seed, o.arg(5) + 1, o.mod(3, 20)), seed = derive_bytes(p.seed, o.arg(5) + 2, o.mod(4, 20));
            Buf out(n + 8, 0); memset(out.p, 0xEE, n + 8);
            c.op("kdf_tree"); c.mixsig(R * 16 + n / 32);
            int rc = gost_kdftree2012_256(out.p, n, key.data(), key.size(), lab.data(), lab.size(), seed.data(), seed.size(), R);
            if (n == 0 || n % 32) { if (rc > 0) c.violate("bad-length", "KDF tree made %zu bytes", n); sim::err_text(); continue; }
            if (rc <= 0) c.violate("derive-failed", "KDF tree refused: %s", sim::err_text().c_str());
            Bytes w; uint32_t L = n * 8; Bytes lr; for (int s = 24; s >= 0; s -= 8) if (!lr.empty() || (L >> s)) lr.push_back(L >> s);
            for (uint32_t i = 1; i <= n / 32; i++) {
                Bytes m; for (int j = R - 1; j >= 0; j--) m.push_back(i >> (8 * j));
                m = cat(m, lab); m.push_back(0); m = cat(cat(m, seed), lr); w = cat(w, ref::hmac(256, key, m));
            }
            if (memcmp(out.p, w.data(), n)) c.violate("wrong-key", "KDF tree (R %zu, %zu bytes, key %zu, label %zu, seed %zu) differs from the standard", R, n, key.size(), lab.size(), seed.size());
            if (out.p[n] != 0xEE) c.violate("overrun", "KDF tree wrote too much");
            c.count("kdf_trees");
        }
    }
    for (auto &x : xs) EVP_PKEY_CTX_free(x.x);
    for (auto &k : ks) EVP_PKEY_free(k.pk);
    for (auto x : bin) EVP_PKEY_free(x);
}
RegScenario r1({ "C09", "agreement", 1, gen, exec, true });
RegProp p1({ "C09", "exploration",
    "A run is a seeded history of exchanges between parties with keys on every curve: public keys travel as SubjectPublicKeyInfo and are altered, truncated, negated, replaced by small-order or foreign points; keying material of every length (zero, multiples of the group order, one, altered); every derivation (VKO 2001 and 2012 256/512, KEG both sizes, KDF tree); contexts reused, re-targeted, duplicated, or missing a peer or keying material. Each result is compared with an independent reference, or must be a failure. Non-trivial: two parties derived the same standard key.",
    { "gost_ec_keyx.c", "gost_keyexpimp.c KDF tree", "gost_pmeth.c", "gost_ameth.c", "ecp_id_*.c" },
    { "random source", "channel between the parties" },
    { "reference VKO, KEG and KDF tree over libcrypto's generic curve arithmetic, checked against RFC 7836 vectors", "KEG: an all-zero UKM counts as 1" },
    8000, 300000 });
}
