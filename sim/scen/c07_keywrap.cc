// C07: transported and wrapped keys arrive intact or are rejected.
#include "../transport.h"
namespace {
enum { NK = 4, NB = 6, NC = 3 };
enum { T_CP = 0, T_MAGMA = 1, T_KUZ = 2 };
struct Blob { bool set = false; int key = -1, kind = 0, sender = -1; bool no_ukm = false, zero_tail = false; Bytes der, cek, ukm; };
struct Rc { EVP_PKEY_CTX *x = nullptr; int key = -1, kind = -1, peer = -1; Bytes ukm; };
int kind_nid(int kind, uint64_t alias) {
    static const int cp[] = { 0, NID_id_Gost28147_89 }, m[] = { NID_magma_ctr, NID_magma_ctr_acpkm, NID_magma_ctr_acpkm_omac }, k[] = { NID_kuznyechik_ctr, NID_kuznyechik_ctr_acpkm, NID_kuznyechik_ctr_acpkm_omac };
    return kind == T_CP ? cp[alias % 2] : kind == T_MAGMA ? m[alias % 3] : k[alias % 3];
}
bool set_kind(EVP_PKEY_CTX *x, int kind, uint64_t alias) {
    int n = kind_nid(kind, alias);
    return !n || EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_CIPHER, n, NULL) > 0;
}
// checks a blob made by the engine against the standard, as the recipient would
std::string judge(const Key &k, const Blob &b, const Key *snd, const Bytes &ukm_ctx) {
    Node n; if (!parse(b.der, n)) return "not DER";
    Pt E; Bytes ukm;
    if (b.kind == T_CP) {
        if (n.kids.size() != 2 || n.kids[0].kids.size() != 2 || n.kids[1].kids.size() < 2) return "not a key transport structure";
        Node &kai = n.kids[1]; bool eph = kai.kids.size() == 3;
        if (eph == (snd != nullptr)) return eph ? "ephemeral key present for a static sender" : "no ephemeral key";
        if (eph) { if (!spki_point(k, retag(emit(kai.kids[1]), 0x30), E)) return "ephemeral key not on the recipient's curve"; } else E = snd->Q;
        ukm = kai.kids.back().body; if (ukm.size() != 8) return "UKM of wrong size";
        int sbox = md_of(k.ka) == 94 ? ref::S_A : ref::S_Z;
        Bytes kek = ref::vko(*k.cv, k.d, E, ukm, md_of(k.ka));
        Bytes w = ref::cp_wrap(sbox, kek, ukm, b.cek);
        if (emit(kai.kids[0]) != der_oid(sbox == ref::S_A ? "id-Gost28147-89-CryptoPro-A-ParamSet" : "id-tc26-gost-28147-param-Z")) return "wrong cipher parameters";
        if (n.kids[0].kids[0].body != sub(w, 8, 32)) return "wrapped key differs from the standard's";
        if (n.kids[0].kids[1].body != sub(w, 40, 4)) return "key MAC differs from the standard's";
    } else {
        if (n.kids.size() != 3) return "not a PSKeyTransport structure";
        if (!spki_point(k, emit(n.kids[1]), E)) return "ephemeral key not on the recipient's curve";
        if (snd && (E.x != snd->Q.x || E.y != snd->Q.y)) return "not the static sender's key";
        ukm = n.kids[2].body; if (ukm.size() != 32) return "UKM of wrong size";
        Bytes e = ref::keg(*k.cv, k.d, E, ukm, k.ka == KA_512); if (e.size() != 64) return "degenerate export keys";
        Bytes x = ref::kexp15(b.kind == T_KUZ, b.cek, sub(e, 32, 32), sub(e, 0, 32), sub(ukm, 24, b.kind == T_KUZ ? 8 : 4));
        if (n.kids[0].body != x) return "exported key differs from the standard's";
    }
    if (!ukm_ctx.empty() && memcmp(ukm.data(), ukm_ctx.data(), ukm.size())) return "not the keying material that was set";
    return "";
}
void gen(Rng &r, Plan &p, bool th) {
    int nk = 1 + r.below(NK), ka = r.below(4); bool mix = r.chance(1, 3), kexp = r.chance(1, 4);
    auto R = [&]() { return (long long)(r.next() >> 40); };
    int cv = r.below(20);
    for (int i = 0; i < nk; i++) p.add("key", { i, mix ? (long long)r.below(4) : ka, r.chance(3, 4) ? cv : (long long)r.below(20), R() });
    int steps = 5 + r.below(th ? 30 : 14); bool faults = r.chance(1, 3);
    for (int i = 0; i < steps; i++) {
        if (kexp && r.chance(1, 2)) { p.add("kexp", { (long long)r.below(2), (long long)r.below(9), R(), (long long)r.below(8), (long long)r.below(2), R() }); continue; }
        switch (r.below(12)) {
        case 0: case 1: case 2:
            // recipient, transport, keying material, sender, key bytes, key length, random-source fault, allocation fault
            p.add("send", { (long long)r.below(nk), (long long)r.below(3), (long long)r.below(6), r.chance(1, 4) ? (long long)r.below(nk) : -1, R(), (long long)(r.chance(1, 8) ? 1 + r.below(4) : 0), (long long)(faults && r.chance(1, 4) ? 1 + r.below(3) : 0), (long long)(faults && r.chance(1, 3) ? 1 + r.below(90) : 0), (long long)r.below(8) });
            break;
        case 3: p.add("craft", { (long long)r.below(nk), (long long)r.below(3), (long long)r.below(6), r.chance(1, 4) ? (long long)r.below(nk) : -1, R(), (long long)r.below(4) }); break;
        case 4: p.add("ctx", { (long long)r.below(NC), (long long)r.below(nk), (long long)r.below(3), R(), r.chance(1, 3) ? (long long)r.below(nk) : -1 }); break;
        default:
            // blob, context (or fresh), tampering and its seed, recipient, allocation fault
            p.add("recv", { (long long)r.below(NB), (long long)r.below(NC + 1), (long long)(r.chance(1, 3) ? 0 : r.below(16)), (long long)(r.next() >> 24), r.chance(1, 8) ? (long long)r.below(nk) : -1, (long long)(faults && r.chance(1, 3) ? 1 + r.below(90) : 0), (long long)r.below(8) });
        }
    }
}
void exec(const Plan &p, Ctx &c) {
    Key ks[NK]; Blob bs[NB]; Rc cs[NC]; int nb = 0; std::vector<EVP_PKEY *> bin; bool good = false, bad = false;
    auto compatible = [&](const Key &a, const Key &b) { return a.ka == b.ka && a.cv == b.cv; };
    // one unwrapping attempt; empty on failure
    auto unwrap = [&](EVP_PKEY_CTX *x, const Bytes &in, size_t room, bool &ok) {
        uint8_t out[96]; memset(out, 0xEE, sizeof out); size_t l = room; Buf b(in, 1);
        int rc = EVP_PKEY_decrypt(x, out, &l, b.p, b.n);
        ok = rc == 1;
        if (ok && l > room) c.violate("size", "decrypt says %zu bytes, %zu offered", l, room);
        for (size_t i = room; i < sizeof out; i++) if (out[i] != 0xEE) c.violate("overrun", "decrypt wrote past the %zu bytes offered", room);
        return ok ? Bytes(out, out + l) : Bytes();
    };
    for (auto &o : p.ops) {
        if (o.k == "key") {
            int ki = o.mod(0, NK); Key &k = ks[ki]; int ka = o.mod(1, 4); const auto &cl = ka_curves(ka);
            const Curve &cv = curve(cl[o.mod(2, cl.size())]);
            Bn d = Bn::be(derive_bytes(p.seed, o.arg(3), cv.len)) % cv.q; if (d.zero()) d = Bn(1);
            c.op("key_import"); c.mixsig(cv.nid * 4 + ka);
            EVP_PKEY *pk = key_import(ka, cv, d); if (!pk) c.violate("bad-key", "private key on %s refused", cv.sn);
            if (k.pk) bin.push_back(k.pk);
            for (auto &b : bs) if (b.key == ki || b.sender == ki) b = Blob();
            for (auto &x : cs) if (x.key == ki || x.peer == ki) { EVP_PKEY_CTX_free(x.x); x = Rc(); }
            k.pk = pk; k.ka = ka; k.cv = &cv; k.priv = true; key_read(pk, k.d, k.Q);
        } else if (o.k == "send") {
            int ki = o.mod(0, NK); Key &k = ks[ki]; if (!k.pk) continue;
            int kind = o.mod(1, 3), us = o.mod(2, 6), keylen = 32, rf = o.arg(6), af = o.arg(7); uint64_t r = o.arg(4);
            int si = o.arg(3) >= 0 ? (int)o.mod(3, NK) : -1; if (si >= 0 && (!ks[si].pk || !compatible(ks[si], k))) si = -1;
            switch (o.mod(5, 5)) { case 1: keylen = 31; break; case 2: keylen = 33; break; case 3: keylen = 16; break; case 4: keylen = 64; break; }
            Bytes ukm; if (us == 1 || us == 2) ukm = derive_bytes(p.seed, 0x77 + r, kind == T_CP ? 8 : 32);
            if (us == 2) std::fill(ukm.begin(), ukm.end(), 0); if (us == 3) ukm = derive_bytes(p.seed, 0x78 + r, 32);
            Bytes cek = derive_bytes(p.seed, 0x07000000 + r, keylen); if (r % 7 == 0) std::fill(cek.begin(), cek.end(), r & 8 ? 0 : 0xff);
            bool supported = kind == T_CP ? us != 2 : k.ka == KA_256 || k.ka == KA_512;
            EVP_PKEY *pub = pub_import(k.ka, *k.cv, k.Q);
            EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(pub, o.arg(8) & 1 ? lib_engine() : NULL);
            c.op("encrypt_init"); c.mixsig(kind * 32 + us * 4 + (si >= 0) * 2 + (keylen != 32));
            if (EVP_PKEY_encrypt_init(x) != 1) c.violate("encrypt-failed", "encrypt init refused");
            if (!set_kind(x, kind, r)) c.violate("ctrl-refused", "transport kind refused");
            if (!ukm.empty() && EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_IV, ukm.size(), ukm.data()) <= 0) c.violate("ctrl-refused", "UKM refused");
            if (si >= 0 && EVP_PKEY_derive_set_peer(x, ks[si].pk) != 1) c.violate("peer-refused", "static sender key refused: %s", sim::err_text().c_str());
            size_t qlen = 0, l = 0; uint8_t out[1024]; memset(out, 0xEE, sizeof out);
            if (o.arg(8) & 2) {
                c.op("encrypt_query");
                if (EVP_PKEY_encrypt(x, NULL, &qlen, cek.data(), cek.size()) != 1) { if (supported && keylen == 32) c.violate("encrypt-failed", "size query refused: %s", sim::err_text().c_str()); qlen = 0; }
            }
            l = qlen ? qlen : sizeof out - 8; size_t room = l;
            if ((o.arg(8) & 4) && qlen && r % 5 == 0) {
                size_t sl = qlen - 1 - r % 20; c.op("encrypt_small");
                if (EVP_PKEY_encrypt(x, out, &sl, cek.data(), cek.size()) == 1) c.violate("size", "blob of %zu bytes written where %zu were offered", qlen, sl);
                for (auto b : out) if (b != 0xEE) { break; }
                memset(out, 0xEE, sizeof out);
            }
            c.op(keylen == 32 ? "encrypt" : "encrypt_badlen");
            if (rf) { sim::rnd.calls = 0; sim::rnd.fail_from = rf - 1; sim::rnd.fail_count = 1000; }
            if (af) { sim::Faults::arm(1 + af % 3, (af - 1) / 3, 1); }
            int rc = EVP_PKEY_encrypt(x, out, &l, cek.data(), cek.size());
            sim::Faults::disarm(); sim::rnd.fail_from = -1;
            bool fired = (rf && sim::rnd.failed) || (af && sim::Faults::fired()); sim::rnd.failed = 0;
            if (fired) c.count(rf ? "fault.random_source" : "fault.allocation");
            for (size_t i = room; i < sizeof out; i++) if (out[i] != 0xEE) c.violate("overrun", "encrypt wrote past the buffer");
            if (rc != 1) {
                if (supported && keylen == 32 && !fired) c.violate("encrypt-failed", "%s on %s transport %d: %s", OBJ_nid2sn(ka_nid(k.ka)), k.cv->sn, kind, sim::err_text().c_str());
                sim::err_text();
                if (fired) { // the same objects work once the fault is gone
                    l = sizeof out - 8; c.op("encrypt_retry");
                    rc = EVP_PKEY_encrypt(x, out, &l, cek.data(), cek.size());
                    if (rc != 1 && supported && keylen == 32) c.violate("retry-failed", "encryption after a failure refused: %s", sim::err_text().c_str());
                }
            }
            if (rc == 1) {
                Blob b; b.set = true; b.key = ki; b.kind = kind; b.sender = kind == T_CP ? si : -1; b.cek = cek; b.der.assign(out, out + l);
                if (keylen != 32) c.violate("unrecoverable", "a %d-byte key was wrapped into a blob that carries a 32-byte key", keylen);
                if (!supported) c.violate("unsupported", "blob made under a degenerate secret or with 2018 transport for a 2001 key");
                std::string why = judge(k, b, si >= 0 ? &ks[si] : nullptr, ukm);
                if (!why.empty()) c.violate("wrong-blob", "%s on %s transport %d%s: %s", OBJ_nid2sn(ka_nid(k.ka)), k.cv->sn, kind, si >= 0 ? " static sender" : "", why.c_str());
                if (qlen && l != qlen) c.count("query_inexact");
                if (qlen && l > qlen) c.violate("size", "blob of %zu bytes, %zu announced", l, qlen);
                if (kind != T_CP) { Node n; parse(b.der, n); b.ukm = n.kids[2].body; }
                bs[nb++ % NB] = b; c.count("blobs_sent"); c.logb("blob", b.der);
            }
            EVP_PKEY_CTX_free(x); EVP_PKEY_free(pub); sim::err_text();
        } else if (o.k == "craft") {
            // a sender that follows the standard, with choices this engine's sender does not make
            int ki = o.mod(0, NK); Key &k = ks[ki]; if (!k.pk) continue;
            int kind = o.mod(1, 3); uint64_t r = o.arg(4); int si = o.arg(3) >= 0 ? (int)o.mod(3, NK) : -1;
            if (si >= 0 && (!ks[si].pk || !compatible(ks[si], k))) si = -1;
            if (kind != T_CP && k.ka != KA_256 && k.ka != KA_512) kind = T_CP;
            Blob b; b.set = true; b.key = ki; b.kind = kind; b.cek = derive_bytes(p.seed, 0x07100000 + r, 32);
            b.ukm = derive_bytes(p.seed, 0x79 + r, kind == T_CP ? 8 : 32); if (r % 5 == 0) std::fill(b.ukm.begin(), b.ukm.begin() + (kind == T_CP ? 8 : 16), 0);
            Bn de = Bn::be(derive_bytes(p.seed, 0x7a + r, k.cv->len)) % k.cv->q; if (de.zero()) de = Bn(1);
            if (si >= 0) de = ks[si].d;
            Bytes spki = pub_der(k.ka, *k.cv, k.cv->pubLE(k.cv->mulg(de)));
            if (kind == T_CP) { if (si >= 0) { spki.clear(); b.sender = si; } b.der = wrap_cp(k, de, spki, ref::S_TEST + o.mod(2, 6), b.ukm, b.cek); }
            else {
                b.no_ukm = o.arg(5) == 0;
                if (r % 3 == 1) { Bytes e = ref::keg(*k.cv, de, k.Q, b.ukm, k.ka == KA_512); if (e.size() == 64) b.cek = zero_tail_cek(kind == T_KUZ, sub(e, 0, 32), sub(b.ukm, 24, kind == T_KUZ ? 8 : 4), r); b.zero_tail = true; }
                b.der = wrap_18(k, de, spki, kind == T_KUZ, b.ukm, !b.no_ukm, b.cek); }
            if (b.der.empty()) continue;
            bs[nb++ % NB] = b; c.count("blobs_crafted"); c.mixsig(900 + kind * 8 + o.mod(2, 6));
        } else if (o.k == "ctx") {
            Rc &x = cs[o.mod(0, NC)]; int ki = o.mod(1, NK); if (!ks[ki].pk) continue;
            EVP_PKEY_CTX_free(x.x); x = Rc(); x.key = ki; x.kind = o.mod(2, 3); x.x = EVP_PKEY_CTX_new(ks[ki].pk, NULL);
            c.op("decrypt_init"); if (EVP_PKEY_decrypt_init(x.x) != 1 || !set_kind(x.x, x.kind, o.arg(3))) c.violate("decrypt-failed", "decrypt init refused");
            if (o.arg(4) >= 0) {
                int si = o.mod(4, NK);
                if (ks[si].pk && compatible(ks[si], ks[ki])) {
                    EVP_PKEY *pub = pub_import(ks[si].ka, *ks[si].cv, ks[si].Q);
                    if (EVP_PKEY_derive_set_peer(x.x, pub) != 1) c.violate("peer-refused", "sender's key refused: %s", sim::err_text().c_str());
                    x.peer = si; EVP_PKEY_free(pub);
                }
            }
        } else if (o.k == "recv") {
            Blob &b = bs[o.mod(0, NB)]; if (!b.set) continue;
            int ci = o.mod(1, NC + 1), tamper = o.mod(2, 16), af = o.arg(5); uint64_t r = o.arg(3);
            Rc tmp, *x = ci < NC && cs[ci].x && cs[ci].kind == b.kind ? &cs[ci] : nullptr;
            int ki = x ? x->key : o.arg(4) >= 0 && ks[o.mod(4, NK)].pk ? (int)o.mod(4, NK) : b.key;
            Key &k = ks[ki];
            if (!x) {
                x = &tmp; x->key = ki; x->kind = b.kind; x->x = EVP_PKEY_CTX_new(k.pk, o.arg(6) & 1 ? lib_engine() : NULL);
                if (EVP_PKEY_decrypt_init(x->x) != 1 || !set_kind(x->x, b.kind, r)) c.violate("decrypt-failed", "decrypt init refused");
                if (b.sender >= 0 && compatible(ks[b.sender], k) && r % 8) {
                    EVP_PKEY *pub = pub_import(k.ka, *k.cv, ks[b.sender].Q);
                    if (EVP_PKEY_derive_set_peer(x->x, pub) == 1) x->peer = b.sender; EVP_PKEY_free(pub);
                }
                if (b.no_ukm && r % 4) { if (EVP_PKEY_CTX_ctrl(x->x, -1, -1, EVP_PKEY_CTRL_SET_IV, 32, b.ukm.data()) <= 0) c.violate("ctrl-refused", "UKM refused"); x->ukm = b.ukm; }
            }
            bool authentic = false; Bytes in = b.der; Node n; parse(in, n); std::vector<Node *> lv; leaves(n, lv); bool crypt = kind_nid(b.kind, 0) == 0;
            switch (tamper) {
            case 1: in[r % in.size()] ^= 1 << (r >> 20) % 8; break;
            case 2: in.resize(r % in.size()); break;
            case 3: in = cat(in, derive_bytes(p.seed, r, 1 + r % 9)); break;
            case 4: { Node *q = lv[r % lv.size()]; int d = (int)((r >> 8) % 5); if (d == 0) q->body.clear(); else if (d == 1 && !q->body.empty()) q->body.pop_back(); else if (d == 2) q->body.push_back(r >> 12); else if (d == 3) q->body.resize(q->body.size() / 2); else q->body.resize(q->body.size() * 2 + 1, 0x41); in = emit(n); break; }
            case 5: { Node *q = lv[r % lv.size()]; if (!q->body.empty()) q->body[(r >> 8) % q->body.size()] ^= 1 << (r >> 20) % 8; in = emit(n); break; }
            case 6: case 7: case 8: { // the ephemeral key is replaced
                Node *q = nullptr; std::vector<Node> *home = nullptr; size_t at = 0; uint8_t tg = 0x30;
                if (b.kind == T_CP) { if (n.kids.size() == 2 && n.kids[1].kids.size() == 3) { home = &n.kids[1].kids; at = 1; tg = 0xA0; } }
                else if (n.kids.size() >= 2) { home = &n.kids; at = 1; }
                if (!home) break; q = &(*home)[at];
                int what = tamper == 6 ? 7 + r % 3 : r % 7; Bytes s;
                if (what == 0) { // RSA
                    Bytes m = derive_bytes(p.seed, r, 64); m[0] = 0x40; m[63] |= 1;
                    Bytes bs2 = der(0x30, cat(der(2, m), Bytes{ 2, 3, 1, 0, 1 })); bs2.insert(bs2.begin(), 0);
                    s = der(0x30, cat(der(0x30, cat(der_oid("rsaEncryption"), Bytes{ 5, 0 })), der(3, bs2)));
                } else if (what == 1 || what == 2) { // a NIST curve
                    const char *cn = what == 1 ? "prime256v1" : "secp521r1"; EC_GROUP *g = EC_GROUP_new_by_curve_name(OBJ_sn2nid(cn));
                    Bytes pt(200); pt.resize(EC_POINT_point2oct(g, EC_GROUP_get0_generator(g), POINT_CONVERSION_UNCOMPRESSED, pt.data(), 200, NULL)); EC_GROUP_free(g);
                    pt.insert(pt.begin(), 0); s = der(0x30, cat(der(0x30, cat(der_oid("id-ecPublicKey"), der_oid(cn))), der(3, pt)));
                } else if (what == 3) s = der(0x30, cat(der(0x30, der_oid("X25519")), der(3, cat(Bytes{ 0 }, derive_bytes(p.seed, r, 32)))));
                else if (what == 4) { int ka = r / 8 % 4; auto &cl = ka_curves(ka); const Curve &cv = curve(cl[(r >> 20) % cl.size()]); s = pub_der(ka, cv, cv.pubLE(cv.G)); }
                else if (what == 5) { s = pub_der(k.ka, *k.cv, Bytes(2 * k.cv->len)); }
                else if (what == 6) { s = der(0x30, cat(der(0x30, cat(der_oid("id-ecPublicKey"), der(0x30, Bytes()))), der(3, Bytes{ 0, 4, 1, 2 }))); }
                else if (what == 7) { home->erase(home->begin() + at); q = nullptr; }
                else if (what == 8) { Key &z = ks[r / 8 % NK]; if (z.pk) s = pub_der(z.ka, *z.cv, z.cv->pubLE(z.Q)); }
                else { s = pub_der(k.ka, *k.cv, k.cv->pubLE(k.cv->mulg(Bn(1 + r / 16 % 50)))); }
                if (q && !s.empty()) { Node e; if (parse(retag(s, tg), e)) *q = e; }
                in = emit(n); c.count("fault.ephemeral_key_replaced"); break;
            }
            case 9: { Blob &z = bs[(r >> 30) % NB]; Node m; if (!z.set || !parse(z.der, m)) break; std::vector<Node *> l2; leaves(m, l2); int i = r % lv.size(); if (i < (int)l2.size()) *lv[i] = *l2[i]; in = emit(n); break; }
            case 10: if (b.kind == T_CP && n.kids.size() == 2) { static const char *sn[] = { "id-Gost28147-89-CryptoPro-A-ParamSet", "id-Gost28147-89-CryptoPro-B-ParamSet", "id-Gost28147-89-TestParamSet", "id-tc26-gost-28147-param-Z", "magma-ctr", "sha256" }; Node e; if (parse(der_oid(sn[r % 6]), e)) n.kids[1].kids[0] = e; in = emit(n); }
                else if (n.kids.size() == 3) { if (r & 1) n.kids.pop_back(); else { int d = r / 2 % 4; Bytes &u = n.kids[2].body; if (d == 0) u.resize(8); else if (d == 1) u.resize(33); else if (d == 2) u.resize(300, 7); else u.clear(); } in = emit(n); } break;
            case 11: in = derive_bytes(p.seed, r, r % 300); break;
            case 12: in.clear(); break;
            case 13: { Blob &z = bs[(r >> 8) % NB]; if (z.set) in = z.der; break; }
            case 14: { Node *q = &n.kids[0]; if (!q->kids.empty()) q = &q->kids[r % q->kids.size()]; if (!q->body.empty()) { q->body[(r >> 8) % q->body.size()] ^= 1 << (r >> 20) % 8; in = emit(n); authentic = true; } break; }
            case 15: { // the encrypted key with its code is some other size
                Node *q = &n.kids[0]; if (!q->kids.empty()) q = &q->kids[r % q->kids.size()]; Bytes &u = q->body; if (u.empty()) break;
                int d = (r >> 8) % 8; if (d < 3 || b.zero_tail) u.pop_back(); else if (d == 3) u.resize(u.size() - std::min<size_t>(u.size(), (r >> 11) % 20)); else if (d == 4) u.clear(); else u.resize(u.size() + 1 + (r >> 11) % 12, 0);
                in = emit(n); authentic = in != b.der; c.count("fault.encrypted_key_resized"); break; }
            }
            bool altered = in != b.der; if (altered) c.count("fault.blob_altered");
            bool right = ki == b.key && (b.sender < 0 || x->peer == b.sender) && (!b.no_ukm || x->ukm == b.ukm) && (b.no_ukm || x->ukm.empty());
            size_t room = r % 11 == 0 ? r / 16 % 32 : 32 + r % 3;
            c.mixsig(2000 + b.kind * 512 + tamper * 32 + (x != &tmp) * 16 + right * 8 + (b.sender >= 0) * 4 + b.no_ukm * 2 + (room < 32));
            c.op(altered ? (tamper < 6 ? "decrypt_altered" : "decrypt_spliced") : "decrypt"); bool ok;
            if (af) sim::Faults::arm(1 + af % 3, (af - 1) / 3, 1);
            Bytes g = unwrap(x->x, in, room, ok);
            sim::Faults::disarm(); bool fired = af && sim::Faults::fired(); if (fired) c.count("fault.allocation");
            std::string err = sim::err_text();
            // another genuine blob for this recipient is not an alteration
            const Blob *as = &b; if (altered) for (auto &z : bs) if (z.set && z.der == in && ((compatible(ks[z.key], k) && ks[z.key].d == k.d) || (z.sender >= 0 && z.sender == ki && x->peer == z.key))) as = &z;   // static Diffie-Hellman is symmetric
            if (ok && g != as->cek) c.violate(ki == b.key ? "wrong-key" : "foreign-key", "%s on %s transport %d tampering %d: a different key was reported as good (%zu bytes)", OBJ_nid2sn(ka_nid(k.ka)), k.cv->sn, b.kind, tamper, g.size());
            if (ok && room < 32) c.violate("size", "key written into %zu bytes", room);
            if (!ok && !altered && right && room >= 32 && !fired) c.violate("good-rejected", "%s on %s transport %d%s%s: good blob refused: %s", OBJ_nid2sn(ka_nid(k.ka)), k.cv->sn, b.kind, x != &tmp ? " reused context" : "", b.sender >= 0 ? " static sender" : "", err.c_str());
            if (ok && authentic) c.violate("altered-accepted", "%s transport %d: blob with an altered encrypted key or authentication code was accepted", k.cv->sn, b.kind);
            if (ok && !altered) { c.count("recovered"); good = true; } else if (!ok) { c.count("rejected"); bad = true; }
            // the good blob afterwards, through the same context
            if (!ok && right) {
                c.op("decrypt_after_reject");
                g = unwrap(x->x, b.der, 32, ok);
                if (!ok) c.violate("good-rejected-after", "%s transport %d: good blob refused after a rejected one (tampering %d): %s", k.cv->sn, b.kind, tamper, sim::err_text().c_str());
                if (g != b.cek) c.violate("wrong-key", "good blob gave a different key after a rejected one");
                c.count("recovered_after_reject");
            }
            c.logb("key", g);
            EVP_PKEY_CTX_free(tmp.x); sim::err_text();
        } else if (o.k == "kexp") {
            bool kuz = o.mod(0, 2); int tamper = o.mod(1, 9); uint64_t r = o.arg(2); int chunks = o.mod(3, 8); int L = kuz ? 48 : 40, ivl = kuz ? 8 : 4;
            Bytes kk = derive_bytes(p.seed, 0x7e000000 + r, 64), iv = derive_bytes(p.seed, 0x7f000000 + r, 8), cek = derive_bytes(p.seed, r, 32);
            Bytes w = ref::kexp15(kuz, cek, sub(kk, 32, 32), sub(kk, 0, 32), sub(iv, 0, ivl)), in = w;
            EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); EVP_CIPHER_CTX_set_flags(x, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
            const EVP_CIPHER *ci = eng_cipher(OBJ_sn2nid(kuz ? "kuznyechik-kexp15" : "magma-kexp15"));
            c.op("kexp_init"); c.mixsig(5000 + kuz * 256 + tamper * 16 + chunks);
            if (o.arg(4)) { // the sending direction is not offered: it must not pretend
                uint8_t b[128]; int l = 0, l2 = 0;
                if (EVP_EncryptInit_ex(x, ci, lib_engine(), kk.data(), iv.data()) == 1) {
                    int r1 = EVP_EncryptUpdate(x, b, &l, cek.data(), 32), r2 = r1 == 1 ? EVP_EncryptFinal_ex(x, b + (l > 0 ? l : 0), &l2) : 0;
                    if (r1 == 1 && r2 == 1 && Bytes(b, b + std::max(0, l + l2)) != w) c.violate("wrong-blob", "key export reported success with %d bytes", l + l2);
                }
                sim::err_text();
            }
            int d = r >> 8;
            switch (tamper) {
            case 1: in[d % L] ^= 1 << (r & 7); break;
            case 2: if (r % 3 == 1) { cek = zero_tail_cek(kuz, sub(kk, 0, 32), sub(iv, 0, ivl), r); in = w = ref::kexp15(kuz, cek, sub(kk, 32, 32), sub(kk, 0, 32), sub(iv, 0, ivl)); in.pop_back(); } else in.resize(d % L); break;
            case 3: in = cat(in, derive_bytes(p.seed, r + 1, 1 + d % 60)); break;
            case 4: iv[d % ivl] ^= 1 << (r & 7); break;
            case 5: kk[d % 64] ^= 1 << (r & 7); break;
            case 6: { Bytes w2 = ref::kexp15(kuz, derive_bytes(p.seed, r + 2, 32), sub(kk, 32, 32), sub(kk, 0, 32), sub(iv, 0, ivl)); std::copy(w2.begin() + 32, w2.end(), in.begin() + 32); break; }
            case 7: in = w; for (int i = 32; i < L; i++) in[i] = 0; break;
            }
            bool altered = tamper && tamper < 8;
            auto go = [&](const Bytes &msg, const Bytes &v, const Bytes &key, Bytes &out, uint64_t s) {
                c.op("kexp_unwrap"); out.clear();
                if (EVP_DecryptInit_ex(x, ci, lib_engine(), key.data(), v.data()) != 1) { c.violate("init-failed", "key import init refused: %s", sim::err_text().c_str()); }
                size_t off = 0; uint8_t b[256]; int l; bool ok = true;
                while (off < msg.size() && ok) {
                    size_t n = chunks == 0 ? msg.size() : chunks < 4 ? 1 + mix64(s, off) % (8 * chunks) : chunks == 4 ? 1 : chunks == 5 ? 32 : chunks == 6 ? 39 : 16;
                    n = std::min(n, msg.size() - off); Buf q(sub(msg, off, n), 1); memset(b, 0xEE, sizeof b); l = 0;
                    ok = EVP_DecryptUpdate(x, b, &l, q.p, n) == 1; off += n;
                    if (ok && (l < 0 || l > 64)) c.violate("size", "update produced %d bytes", l);
                    if (ok) out.insert(out.end(), b, b + l);
                }
                l = 0; memset(b, 0xEE, sizeof b);
                if (ok) { ok = EVP_DecryptFinal_ex(x, b, &l) == 1; if (ok) out.insert(out.end(), b, b + std::max(l, 0)); }
                sim::err_text();
                return ok;
            };
            Bytes out; bool ok = go(in, iv, kk, out, r);
            const char *nm = kuz ? "kuznyechik-kexp15" : "magma-kexp15";
            if (altered && ok && in != w) { if (out != cek) c.violate(out.empty() ? "reject-unreported" : "wrong-key", "%s: altered blob (tampering %d, %zu bytes): success reported with %zu bytes", nm, tamper, in.size(), out.size()); }
            else if (altered && ok && out != cek) c.violate(out.empty() ? "reject-unreported" : "wrong-key", "%s: wrong key or IV (tampering %d): success reported with %zu bytes", nm, tamper, out.size());
            if (ok && altered && (in != w || tamper > 3)) c.violate("altered-accepted", "%s: altered blob, key or IV (tampering %d) accepted", nm, tamper);
            if (!altered && (!ok || out != cek)) c.violate(ok ? "wrong-key" : "good-rejected", "%s: good blob gave %s, %zu bytes", nm, ok ? "success" : "failure", out.size());
            c.count(ok ? "imports" : "imports_rejected"); (ok ? good : bad) = true;
            if (o.arg(5) & 1) {
                kk = derive_bytes(p.seed, 0x7e000000 + r, 64); iv = derive_bytes(p.seed, 0x7f000000 + r, 8);
                if (!go(w, iv, kk, out, r + 1) || out != cek) c.violate("good-rejected-after", "%s: good blob after another one gave %zu bytes", nm, out.size());
            }
            EVP_CIPHER_CTX_free(x);
        }
    }
    if (good && bad) c.nontrivial = true;
    for (auto &x : cs) EVP_PKEY_CTX_free(x.x);
    for (auto &k : ks) EVP_PKEY_free(k.pk);
    for (auto x : bin) EVP_PKEY_free(x);
}
RegScenario r1({ "C07", "transport", 1, gen, exec, true });
RegProp p1({ "C07", "exploration",
    "A run is a seeded history of senders wrapping 32-byte keys for recipients on every curve (CryptoPro and 2018 transport, ephemeral and static sender keys, keying material set or drawn), plus senders that follow the standard independently with other S-boxes and omitted fields, and a channel that flips, truncates, extends, splices and re-lengthens fields, replaces or drops the ephemeral key by keys of other curves and algorithms, and hands blobs to the wrong recipient; recipients use fresh or long-lived contexts, short buffers and failing allocations, and retry the good blob after a rejected one. The symmetric key-import ciphers get the same treatment under every fragmentation. Each blob made is opened by an independent reference; each unwrapping must fail or give the key sent. Non-trivial: at least one key recovered and one blob rejected.",
    { "gost_ec_keyx.c", "gost_keywrap.c", "gost_keyexpimp.c", "gost_asn1.c", "gost_pmeth.c" },
    { "random source", "memory allocator", "channel between the parties" },
    { "reference VKO, KEG, CryptoPro wrap and KExp15; accidental MAC collisions (2^-32) are not considered" },
    9000, 300000 });
}
