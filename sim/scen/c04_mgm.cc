// C04: MGM authenticated encryption: exact, and tampering never decrypts.
#include "../lib.h"
namespace {
enum { NS = 4 };
const char *names[] = { "magma-mgm", "kuznyechik-mgm" };
struct S {
    EVP_CIPHER_CTX *c = nullptr;
    bool live = false, tag_given = false; int alg = -1; bool enc = true; bool init = false;
    Bytes key, nonce, aad, in, out, tag; int upd = 0, msgs = 0; bool have_key = false;
    int n() const { return alg ? 16 : 8; }
};
const EVP_CIPHER *ci(int a) { return ENGINE_get_cipher(lib_engine(), OBJ_txt2nid(names[a])); }
Bytes mkkey(const Plan &p, long long t) { return derive_bytes(p.seed, 0x4b040000 + t, 32); }
// nonces include those whose derived counters start next to a carry
Bytes mknonce(const Plan &p, long long t, bool kuz, const Bytes &key) {
    int n = kuz ? 16 : 8;
    Bytes r = derive_bytes(p.seed, 0x4e040000 + t, n);
    switch (t % 6) {
    case 0: return Bytes(n, 0xff);
    case 1: return Bytes(n, 0);
    case 2: case 3: {
        auto b = ref::mkblock(kuz, key.data());
        for (int k = 0; k < 16; k++) {
            Bytes y = derive_bytes(p.seed, 0x4f040000 + t * 100 + k, n), x(n);
            int lo = t % 6 == 2 ? n / 2 : 0, keep = 1 + t % 3;
            for (int i = 0; i < n / 2; i++) y[lo + i] = 0xff;
            y[lo + n / 2 - 1] = (uint8_t)(0x100 - keep);
            b->dec(y.data(), x.data());
            if (t % 6 == 2 ? !(x[0] & 0x80) : (x[0] & 0x80)) { x[0] &= 0x7f; return x; }
        }
        return r;
    }
    }
    return r;
}
void gen(Rng &r, Plan &p, bool th) {
    int ns = 1 + r.below(NS), steps = 6 + r.below(th ? 50 : 24);
    bool faults = r.chance(1, 4);
    int only = r.chance(1, 2) ? (int)r.below(2) : -1;
    int maxcls = r.pick(std::vector<int>{ 3, 4, 7, 9, 12 });
    auto init = [&](int s) {
        p.add("init", { s, only >= 0 ? only : (long long)r.below(2), (long long)r.below(12), (long long)r.below(40), (long long)r.below(256), faults ? (long long)r.below(6) : 0 });
    };
    for (int i = 0; i < ns; i++) init(i);
    for (int i = 0; i < steps; i++) {
        int s = r.below(ns);
        switch (r.below(20)) {
        case 0: init(s); break;
        case 1: p.add("copy", { s, (long long)r.below(ns), faults ? (long long)r.below(8) : 0 }); break;
        case 2: case 3: p.add("fin", { s, (long long)r.below(12), (long long)(r.next() >> 40) }); break;
        case 4: p.add("re", { s, (long long)r.below(4), (long long)r.below(12), (long long)r.below(40), (long long)r.below(8) }); break;
        case 5: p.add("bad", { s, (long long)r.below(8) }); break;
        case 6: p.add("tag", { s }); break;
        case 7: case 8: case 9: case 10: p.add("aad", { s, (long long)r.below(maxcls), (long long)r.below(4000), (long long)r.below(16), (long long)(r.next() >> 40) }); break;
        default: p.add("upd", { s, (long long)r.below(maxcls), (long long)r.below(4000), (long long)r.below(16), (long long)r.below(3), (long long)(r.next() >> 40) });
        }
    }
}
Bytes expect(const S &s, Bytes &tag) {
    auto b = ref::mkblock(s.alg, s.key.data());
    return ref::mgm(*b, s.nonce, s.aad, s.enc, s.in, tag);
}
void start(S &s) { s.aad.clear(); s.in.clear(); s.out.clear(); s.upd = 0; s.live = true; s.msgs++; }
void fin(S &s, const Plan &p, int tamper, uint64_t r, Ctx &c) {
    Bytes tag, want = expect(s, tag); int n = s.n(), ol = 0;
    uint8_t ob[32];
    if (s.enc) {
        c.op("mgm_final_enc");
        if (EVP_EncryptFinal_ex(s.c, ob, &ol) != 1) c.violate("final-failed", "%s: encrypt final refused: %s", names[s.alg], sim::err_text().c_str());
        if (ol) c.violate("final-length", "%s: final wrote %d", names[s.alg], ol);
        if (s.out != want) c.violate("stream-mismatch", "%s: ciphertext of %zu bytes (aad %zu, %d updates, message %d) differs", names[s.alg], s.in.size(), s.aad.size(), s.upd, s.msgs);
        int tl = 1 + r % n; uint8_t t[32]; memset(t, 0xEE, sizeof t);
        if (r & 0x100) tl = n;
        if (EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_AEAD_GET_TAG, n + 1, t) > 0) c.violate("bad-tag-size", "%s: a tag of %d bytes handed out", names[s.alg], n + 1);
        if (EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_AEAD_GET_TAG, tl, t) != 1) c.violate("tag-refused", "%s: tag of %d bytes refused: %s", names[s.alg], tl, sim::err_text().c_str());
        if (t[tl] != 0xEE) c.violate("tag-overrun", "%s: more than %d tag bytes written", names[s.alg], tl);
        if (memcmp(t, tag.data(), tl)) c.violate("tag-mismatch", "%s: tag of %zu+%zu bytes (message %d, nonce %s): got %s want %s", names[s.alg], s.aad.size(), s.in.size(), s.msgs, hex(s.nonce).c_str(), hex(t, tl).c_str(), hex(tag).c_str());
        c.logb("tag", tag); s.tag_given = true;   // it stays in the context
        // the nonce is not used again
        if (EVP_EncryptUpdate(s.c, ob, &ol, tag.data(), 1) == 1) c.violate("nonce-reused", "%s: update accepted after the final step", names[s.alg]);
    } else {
        bool bad = true; Bytes t2 = tag;
        switch (tamper) {
        case 0: { Bytes a2 = s.aad; if (a2.empty()) a2.push_back(0); else a2[r % a2.size()] ^= 1 << (r >> 32) % 8; S q = s; q.aad = a2; expect(q, t2); c.count("fault.aad_altered"); break; }
        case 1: { S q = s; if (q.in.empty()) q.in.push_back(0); else q.in[r % q.in.size()] ^= 1 << (r >> 32) % 8; expect(q, t2); c.count("fault.ciphertext_altered"); break; }
        case 2: { S q = s; if (q.in.empty()) q.aad.push_back(0); else q.in.pop_back(); expect(q, t2); c.count("fault.ciphertext_truncated"); break; }
        case 3: { S q = s; q.nonce[r % n] ^= (r % n) ? 0x80 : 1; expect(q, t2); c.count("fault.nonce_altered"); break; }
        case 4: t2[r % n] ^= 1 << (r >> 32) % 8; c.count("fault.tag_altered"); break;
        case 5: { S q = s; if (!q.aad.empty()) { q.in.insert(q.in.begin(), q.aad.back()); q.aad.pop_back(); } else if (!q.in.empty()) { q.aad.push_back(q.in[0]); q.in.erase(q.in.begin()); } else t2[0] ^= 1; if (q.in != s.in) expect(q, t2); c.count("fault.boundary_moved"); break; }
        case 6: { S q = s; q.in.push_back(0); expect(q, t2); c.count("fault.ciphertext_extended"); break; }
        default: bad = false;
        }
        if (t2 == tag) bad = false;   // the tag of an empty message does not depend on the nonce
        bool notag = !s.tag_given && tamper == 7;
        if (notag) { bad = true; c.count("fault.tag_missing"); }
        else if (EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_AEAD_SET_TAG, n, t2.data()) != 1) c.violate("tag-refused", "%s: setting the tag refused", names[s.alg]);
        s.tag_given = !notag;
        c.op(bad ? "mgm_final_tampered" : "mgm_final_dec");
        int rc = EVP_DecryptFinal_ex(s.c, ob, &ol);
        if (bad && rc == 1) c.violate(notag ? "missing-tag-accepted" : "tampered-accepted", "%s: final accepted a message altered in transit (kind %d, aad %zu, data %zu)", names[s.alg], tamper, s.aad.size(), s.in.size());
        if (!bad && rc != 1) c.violate("good-tag-rejected", "%s: tag of %zu+%zu bytes (%d updates, message %d, nonce %s) rejected", names[s.alg], s.aad.size(), s.in.size(), s.upd, s.msgs, hex(s.nonce).c_str());
        if (s.out != want) c.violate("stream-mismatch", "%s: plaintext of %zu bytes (aad %zu, %d updates) differs", names[s.alg], s.in.size(), s.aad.size(), s.upd);
        c.logb("tag", t2);
    }
    sim::err_text();
    c.count("finals"); if (s.upd >= 2 && (s.in.size() || s.aad.size())) c.nontrivial = true;
    s.live = false;
}
void exec(const Plan &p, Ctx &c) {
    S ss[NS];
    for (auto &s : ss) s.c = EVP_CIPHER_CTX_new();
    for (auto &o : p.ops) {
        S &s = ss[o.mod(0, NS)];
        int ol = 0;
        if (o.k == "init") {
            int a = o.mod(1, 2); long long f = o.arg(4);
            S n; n.c = s.c; n.alg = a; n.enc = f & 1; n.key = mkkey(p, o.arg(2)); n.nonce = mknonce(p, o.arg(3), a, n.key); n.have_key = n.init = true; n.msgs = s.msgs;
            if ((f & 2) || s.alg != a) EVP_CIPHER_CTX_reset(s.c); else { n.tag_given = s.tag_given; c.count("reused_contexts"); }
            int phase = (f >> 2) % 5, fault = o.arg(5);
            if (fault > 0) { sim::Faults::arm(1, fault - 1, 1); sim::al.engine_only = false; }
            c.op("mgm_init"); c.mixsig(a * 16 + phase * 2 + n.enc);
            const uint8_t *k = n.key.data(), *iv = n.nonce.data(); int enc = n.enc; EVP_CIPHER_CTX *x = s.c;
            ENGINE *e = lib_engine();
            auto I = [&](const EVP_CIPHER *cc, const uint8_t *kk, const uint8_t *ii) { return EVP_CipherInit_ex(x, cc, cc ? e : NULL, kk, ii, enc) == 1; };
            int rc = 1;
            switch (phase) {
            case 0: rc = I(ci(a), k, iv); break;
            case 1: rc = I(ci(a), NULL, NULL) && EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_IVLEN, n.n(), NULL) == 1 && I(NULL, k, iv); break;
            case 2: rc = I(ci(a), NULL, iv) && I(NULL, k, NULL); break;
            case 3: rc = I(ci(a), k, NULL) && I(NULL, NULL, iv); break;
            case 4: rc = I(ci(a), NULL, NULL) && I(NULL, NULL, iv) && I(NULL, k, NULL); break;
            }
            // a reused context already has a key: the nonce was taken for it and is kept for the new key as well
            sim::Faults::disarm();
            bool fired = fault > 0 && sim::Faults::fired();
            if (fired) c.count("fault.alloc_in_init");
            if (rc != 1) {
                if (!fired) c.violate("init-failed", "%s phase %d: init refused: %s", names[a], phase, sim::err_text().c_str());
                EVP_CIPHER_CTX_free(s.c); s = S(); s.c = EVP_CIPHER_CTX_new(); sim::err_text(); continue;
            }
            s = n; start(s);
        } else if (o.k == "aad" && s.live && s.in.empty()) {
            Bytes d = mkdata(p.seed, o.arg(4), chunk_len(o.arg(1), o.arg(2)), o.arg(4) % DK_N);
            Buf b(d, o.mod(3, 16));
            c.op("mgm_aad"); c.mixsig(s.alg); c.mixsig(s.aad.size() % 16); c.mixsig(d.size() > 48 ? 48 + d.size() % 16 : d.size());
            if (EVP_CipherUpdate(s.c, NULL, &ol, b.p, b.n) != 1) c.violate("update-failed", "%s: associated data refused: %s", names[s.alg], sim::err_text().c_str());
            s.aad = cat(s.aad, d); s.upd++;
        } else if (o.k == "aad" && s.live) {
            Bytes d = derive_bytes(p.seed, o.arg(4), 1 + o.mod(2, 40));
            c.op("mgm_late_aad");
            if (EVP_CipherUpdate(s.c, NULL, &ol, d.data(), d.size()) == 1) c.violate("late-aad-accepted", "%s: associated data accepted after %zu bytes of data", names[s.alg], s.in.size());
            sim::err_text(); c.count("fault.late_aad");
        } else if (o.k == "upd" && s.live) {
            Bytes d = mkdata(p.seed, o.arg(5), chunk_len(o.arg(1), o.arg(2)), o.arg(5) % DK_N);
            Buf b(d, o.mod(3, 16)), ob(d.size(), (o.mod(3, 16) * 7 + 3) % 16);
            bool inplace = o.arg(4) == 1; uint8_t *out = inplace ? b.p : ob.p;
            c.op("mgm_update"); c.mixsig(s.alg * 2 + s.enc); c.mixsig(s.in.size() % 16); c.mixsig(s.aad.size() % 16); c.mixsig(d.size() > 48 ? 48 + d.size() % 16 : d.size());
            if (EVP_CipherUpdate(s.c, out, &ol, b.p, b.n) != 1) c.violate("update-failed", "%s: update of %zu refused: %s", names[s.alg], d.size(), sim::err_text().c_str());
            if (ol != (int)d.size()) c.violate("update-length", "%s: %d bytes out for %zu", names[s.alg], ol, d.size());
            if (!inplace && b.get() != d) c.violate("input-modified", "%s: update changed its input", names[s.alg]);
            s.in = cat(s.in, d); s.out.insert(s.out.end(), out, out + d.size()); s.upd++;
        } else if (o.k == "copy" && s.init) {
            S &d = ss[o.mod(1, NS)];
            if (&d == &s) continue;
            int fault = o.arg(2);
            if (fault > 0) { sim::Faults::arm(1, fault - 1, 1); sim::al.engine_only = false; }
            c.op("mgm_copy");
            int rc = EVP_CIPHER_CTX_copy(d.c, s.c);
            sim::Faults::disarm();
            bool fired = fault > 0 && sim::Faults::fired();
            if (fired) c.count("fault.alloc_in_copy");
            if (rc != 1) {
                if (!fired) c.violate("copy-failed", "%s: copy refused: %s", names[s.alg], sim::err_text().c_str());
                EVP_CIPHER_CTX_free(d.c); d = S(); d.c = EVP_CIPHER_CTX_new(); sim::err_text(); continue;
            }
            c.count("copies");
            EVP_CIPHER_CTX *x = d.c; d = s; d.c = x;
        } else if (o.k == "re" && s.init) {
            // next message on the same channel: new nonce, new key, or both
            int what = 1 + o.mod(1, 3); if (!s.live && what == 2) what = 3;
            bool enc = o.arg(4) & 1 ? !s.enc : s.enc;
            Bytes key = what & 2 ? mkkey(p, o.arg(2)) : s.key;
            Bytes iv = mknonce(p, o.arg(3), s.alg, key);
            c.op("mgm_reinit"); c.mixsig(100 + what);
            if (EVP_CipherInit_ex(s.c, NULL, NULL, what & 2 ? key.data() : NULL, what & 1 ? iv.data() : NULL, enc) != 1)
                c.violate("init-failed", "%s: re-init refused: %s", names[s.alg], sim::err_text().c_str());
            if (what & 1) s.nonce = iv;
            s.key = key; s.enc = enc; start(s); c.count("reinits");
        } else if (o.k == "tag" && s.live && !s.enc) {
            Bytes t = derive_bytes(p.seed, 3, s.n());
            c.op("mgm_early_tag");
            if (EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_AEAD_SET_TAG, s.n(), t.data()) != 1) c.violate("tag-refused", "%s: setting the tag before the data refused", names[s.alg]);
            s.tag_given = true;
        } else if (o.k == "bad" && s.live) {
            Bytes t = derive_bytes(p.seed, 4, 40); uint8_t b[40];
            c.op("mgm_misuse"); c.count("misuses");
            switch (o.mod(1, 8)) {
            case 0: if (EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_AEAD_SET_TAG, s.n() - 1, t.data()) > 0) c.violate("bad-tag-size", "%s: short tag accepted", names[s.alg]); break;
            case 1: if (EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_AEAD_SET_TAG, s.n() + 1, t.data()) > 0) c.violate("bad-tag-size", "%s: long tag accepted", names[s.alg]); break;
            case 2: if (s.enc && EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_AEAD_SET_TAG, s.n(), t.data()) > 0) c.violate("bad-tag-size", "%s: tag accepted on the sending side", names[s.alg]); break;
            case 3: if (!s.enc && EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_AEAD_GET_TAG, s.n(), b) > 0) c.violate("tag-leaked", "%s: tag handed out on the receiving side", names[s.alg]); break;
            case 4: if (EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_AEAD_SET_IVLEN, 0, NULL) > 0) c.violate("bad-nonce-size", "%s: empty nonce accepted", names[s.alg]); break;
            case 5: { // no key
                EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l;
                EVP_CipherInit_ex(x, ci(s.alg), lib_engine(), NULL, t.data(), s.enc);
                if (EVP_CipherUpdate(x, b, &l, t.data(), 8) == 1) c.violate("keyless-update", "%s: data accepted without a key", names[s.alg]);
                if (EVP_CipherFinal_ex(x, b, &l) == 1) c.violate("keyless-final", "%s: final accepted without a key", names[s.alg]);
                EVP_CIPHER_CTX_free(x); break; }
            case 6: { // no nonce
                EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l;
                EVP_CipherInit_ex(x, ci(s.alg), lib_engine(), t.data(), NULL, s.enc);
                if (EVP_CipherUpdate(x, b, &l, t.data(), 8) == 1) c.violate("nonceless-update", "%s: data accepted without a nonce", names[s.alg]);
                if (EVP_CipherFinal_ex(x, b, &l) == 1) c.violate("nonceless-final", "%s: final accepted without a nonce", names[s.alg]);
                EVP_CIPHER_CTX_free(x); break; }
            case 7: { // a nonce of another size is refused, or taken for exactly what it is
                EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l = s.n() == 8 ? 16 : 12;
                if (EVP_CipherInit_ex(x, ci(s.alg), lib_engine(), NULL, NULL, s.enc) == 1 && EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_IVLEN, l, NULL) > 0) {
                    Buf nb(sub(t, 0, l), 0);
                    EVP_CipherInit_ex(x, NULL, NULL, t.data(), nb.p, s.enc);
                }
                EVP_CIPHER_CTX_free(x); break; }
            }
            sim::err_text();
        } else if (o.k == "fin" && s.live) fin(s, p, o.mod(1, 12), o.arg(2), c);
    }
    for (auto &s : ss) if (s.live) fin(s, p, 11, 0x100, c);
    for (auto &s : ss) EVP_CIPHER_CTX_free(s.c);
}
RegScenario r1({ "C04", "channel", 1, gen, exec, true });
RegProp p1({ "C04", "exploration",
    "A run is a seeded history of up to 4 interleaved MGM sessions (both ciphers, sending and receiving), associated data and data cut into chunks of every class and alignment, nonces chosen to start the derived counters next to a carry, mid-stream copies, further messages on the same context with new nonce/key, contexts reused after errors, misuse that must be refused, allocation faults in init and copy; the channel alters tag, nonce, associated data, ciphertext, lengths or the boundary between them. Ciphertext and tag are compared with an independent one-shot reference; an altered message must be rejected, an intact one accepted. Non-trivial: a session finalised after at least two pieces of real data.",
    { "gost_gost2015.c MGM", "gost_crypt.c and gost_grasshopper_cipher.c MGM ciphers", "libcrypto EVP layer" },
    { "memory allocator", "channel between the parties" },
    { "reference MGM written from RFC 9058, checked against its vectors", "messages up to a few tens of kilobytes" },
    25000, 800000 });
}
