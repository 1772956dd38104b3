// C05: CTR-ACPKM-OMAC round-trips and rejects tampering.
#include "../lib.h"
namespace {
enum { NS = 4 };
const char *names[] = { "magma-ctr-acpkm-omac", "kuznyechik-ctr-acpkm-omac" };
struct Msg { int alg; Bytes key, der, ct, tag, pt; long sect; };
struct S {
    EVP_CIPHER_CTX *c = nullptr; bool live = false, init = false; int alg = -1; bool enc = true;
    Bytes key, iv, seed, in, out, tag; long sect = 0; int upd = 0, msgs = 0;
    bool altered = false, tagunk = false; int kind = -1; Bytes todo;   // tag: the one the context holds, taken over by reused contexts
    int n() const { return alg ? 16 : 8; } int ivn() const { return alg ? 8 : 4; }
};
const EVP_CIPHER *ci(int a) { return eng_cipher(OBJ_sn2nid(names[a])); }
Bytes mkkey(const Plan &p, long long t) { return derive_bytes(p.seed, 0x4b050000 + t, 32); }
Bytes mkiv(const Plan &p, long long t, int n) { return t % 5 == 0 ? Bytes(n, 0xff) : derive_bytes(p.seed, 0x49050000 + t, n); }
size_t biglen(uint64_t cls, uint64_t r) { return cls == 12 ? 8100 + r % 300 : cls == 13 ? 262144 - 40 + r % 80 : chunk_len(cls, r); }
// one-shot reference; out gets the transformed bytes, returns the transmitted tag that belongs to them
Bytes expect(const S &s, Bytes &out) {
    Bytes k = ref::kdftree(s.key, "kdf tree", s.seed, 64);
    Bytes ke = sub(k, 0, 32), km = sub(k, 32, 32);
    auto be = ref::mkblock(s.alg, ke.data()), bm = ref::mkblock(s.alg, km.data());
    if (!s.enc) { out = ref::ctr(*be, s.iv, s.in, s.sect); }
    Bytes mac = ref::cmac(*bm, s.enc ? s.in : out);
    Bytes all = ref::ctr(*be, s.iv, cat(s.enc ? s.in : out, mac), s.sect);
    if (s.enc) out = sub(all, 0, s.in.size());
    return sub(all, s.in.size(), s.n());
}
void gen(Rng &r, Plan &p, bool th) {
    int ns = 2 + r.below(NS - 1), steps = 8 + r.below(th ? 60 : 30);
    bool faults = r.chance(1, 4);
    int only = r.chance(2, 3) ? (int)r.below(2) : -1;
    bool big = r.chance(1, 12), huge = r.chance(1, th ? 60 : 300);
    int maxcls = r.pick(std::vector<int>{ 4, 7, 9, 12 });
    auto cls = [&]() -> long long { if (huge && r.chance(1, 8)) return 13; return big && r.chance(1, 4) ? 12 : r.below(maxcls); };
    for (int i = 0; i < steps; i++) {
        int s = r.below(ns);
        switch (i == 0 ? 0 : r.below(22)) {
        case 0: case 1: p.add("send", { s, only >= 0 ? only : (long long)r.below(2), (long long)r.below(6), (long long)r.below(30), (long long)r.below(64), faults ? (long long)r.below(30) : 0, (long long)r.below(30) }); break;
        case 2: case 3: case 4: p.add("sfin", { s, (long long)r.below(8) }); break;
        case 5: case 6: case 7: p.add("recv", { s, (long long)r.below(1000), (long long)r.below(16), (long long)(r.next() >> 40), (long long)r.below(8), faults ? (long long)r.below(30) : 0 }); break;
        case 8: case 9: p.add("rfin", { s }); break;
        case 10: p.add("copy", { s, (long long)r.below(ns), faults ? (long long)r.below(8) : 0 }); break;
        case 11: p.add("re", { s, (long long)r.below(2), (long long)r.below(6), (long long)r.below(30) }); break;
        case 12: p.add("drop", { s }); break;
        case 13: p.add("nokey", { s }); break;
        case 14: case 15: case 16: p.add("dlv", { s, cls(), (long long)r.below(4000), (long long)r.below(16), (long long)r.below(2) }); break;
        default: p.add("upd", { s, cls(), (long long)r.below(4000), (long long)r.below(16), (long long)r.below(2), (long long)(r.next() >> 40) });
        }
    }
}
bool update(S &s, const Bytes &d, unsigned mis, bool inplace, Ctx &c) {
    Buf b(d, mis), ob(d.size(), (mis * 7 + 3) % 16); uint8_t *out = inplace ? b.p : ob.p; int ol = 0;
    c.op(s.enc ? "co_update_enc" : "co_update_dec"); c.mixsig(s.alg * 2 + s.enc); c.mixsig(s.in.size() % 16); c.mixsig(d.size() > 48 ? 48 + d.size() % 16 : d.size()); c.mixsig(s.in.size() / 1024);
    if (EVP_CipherUpdate(s.c, out, &ol, b.p, b.n) != 1) c.violate("update-failed", "%s: update of %zu refused: %s", names[s.alg], d.size(), sim::err_text().c_str());
    if (ol != (int)d.size()) c.violate("update-length", "%s: %d bytes out for %zu", names[s.alg], ol, d.size());
    if (!inplace && b.get() != d) c.violate("input-modified", "%s: update changed its input", names[s.alg]);
    s.in = cat(s.in, d); s.out.insert(s.out.end(), out, out + d.size()); s.upd++;
    return true;
}
int put_tag(EVP_CIPHER_CTX *c, const Bytes &tag, int how) {
    STACK_OF(X509_ATTRIBUTE) *at = sk_X509_ATTRIBUTE_new_null();
    if (how == 1) X509at_add1_attr_by_txt(&at, "signingTime", V_ASN1_OCTET_STRING, tag.data(), tag.size());
    if (how != 2) X509at_add1_attr_by_txt(&at, "1.2.643.7.1.0.6.1.1", V_ASN1_OCTET_STRING, tag.data(), tag.size());
    int rc = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PROCESS_UNPROTECTED, 0, at);
    sk_X509_ATTRIBUTE_pop_free(at, X509_ATTRIBUTE_free);
    return rc;
}
void rfin(S &s, Ctx &c, const Plan &) {
    // deliver what is still in transit
    if (!s.todo.empty()) { Bytes d = s.todo; s.todo.clear(); update(s, d, 0, false, c); }
    Bytes want, tag = expect(s, want); uint8_t ob[32]; int ol = 0;
    bool good = tag == s.tag;
    c.op(s.altered ? "co_final_tampered" : "co_final_dec");
    int rc = EVP_DecryptFinal_ex(s.c, ob, &ol);
    if (s.altered && good) good = true;           // the corruption had no effect on the message
    if (!s.altered && !good) c.violate("model", "internal: unaltered message not good");
    if (rc == 1 && !good) c.violate("tampered-accepted", "%s: final accepted a message altered in transit (kind %d, %zu bytes)", names[s.alg], s.kind, s.in.size());
    if (rc != 1 && good) c.violate("good-tag-rejected", "%s: final rejected an intact message of %zu bytes in %d updates (message %d): %s", names[s.alg], s.in.size(), s.upd, s.msgs, sim::err_text().c_str());
    if (s.out != want) c.violate("stream-mismatch", "%s: plaintext of %zu bytes in %d updates (message %d, section %ld) differs", names[s.alg], s.in.size(), s.upd, s.msgs, s.sect);
    c.logb("plain", s.out); c.count("opened"); if (s.upd >= 2 && s.in.size()) c.nontrivial = true;
    sim::err_text(); s.live = false;
}
void sfin(S &s, std::vector<Msg> &box, int how, Ctx &c) {
    // parameters may be exported before or after the data; the section size they imply holds from there on
    Bytes want, tag = expect(s, want); uint8_t ob[32]; int ol = 0;
    c.op("co_final_enc");
    if (EVP_EncryptFinal_ex(s.c, ob, &ol) != 1) c.violate("final-failed", "%s: encrypt final refused: %s", names[s.alg], sim::err_text().c_str());
    if (s.out != want) c.violate("stream-mismatch", "%s: ciphertext of %zu bytes in %d updates (message %d, section %ld) differs", names[s.alg], s.in.size(), s.upd, s.msgs, s.sect);
    STACK_OF(X509_ATTRIBUTE) *at = sk_X509_ATTRIBUTE_new_null();
    if (EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_PROCESS_UNPROTECTED, 1, at) != 1) c.violate("tag-refused", "%s: tag not handed out: %s", names[s.alg], sim::err_text().c_str());
    ASN1_OBJECT *ob1 = OBJ_txt2obj("1.2.643.7.1.0.6.1.1", 1);
    ASN1_OCTET_STRING *os = (ASN1_OCTET_STRING *)X509at_get0_data_by_OBJ(at, ob1, -3, V_ASN1_OCTET_STRING);
    Bytes got; if (os) got.assign(os->data, os->data + os->length);
    ASN1_OBJECT_free(ob1); sk_X509_ATTRIBUTE_pop_free(at, X509_ATTRIBUTE_free);
    if (got != tag) c.violate("tag-mismatch", "%s: tag of %zu bytes in %d updates (message %d, section %ld): got %s want %s", names[s.alg], s.in.size(), s.upd, s.msgs, s.sect, hex(got).c_str(), hex(tag).c_str());
    c.logb("tag", got); c.count("sealed"); if (s.upd >= 2 && s.in.size()) c.nontrivial = true;
    Bytes ukm = cat(s.iv, s.seed), der = { 0x30, (uint8_t)(ukm.size() + 2), 0x04, (uint8_t)ukm.size() };
    box.push_back(Msg{ s.alg, s.key, cat(der, ukm), s.out, got, s.in, s.sect });
    s.live = false; s.tag = got; s.tagunk = false;
}
ASN1_TYPE *mkder(const Bytes &d) { const uint8_t *q = d.data(); return d2i_ASN1_TYPE(NULL, &q, d.size()); }
// exports the parameters and learns the diversification seed from them
void learn(S &s, Ctx &c) {
    ASN1_TYPE *t = ASN1_TYPE_new();
    if (EVP_CIPHER_param_to_asn1(s.c, t) <= 0) c.violate("params-refused", "%s: parameters not exported: %s", names[s.alg], sim::err_text().c_str());
    uint8_t *d = NULL; int n = i2d_ASN1_TYPE(t, &d); Bytes der(d, d + (n > 0 ? n : 0)); OPENSSL_free(d); ASN1_TYPE_free(t);
    size_t un = s.ivn() + 8;
    if (der.size() != un + 4 || der[0] != 0x30 || der[2] != 4 || der[3] != un) c.violate("params-wrong", "%s: parameters %s", names[s.alg], hex(der).c_str());
    if (sub(der, 4, s.ivn()) != s.iv) c.violate("params-wrong", "%s: IV %s in the parameters, %s given", names[s.alg], hex(sub(der, 4, s.ivn())).c_str(), hex(s.iv).c_str());
    s.seed = sub(der, 4 + s.ivn(), 8);
    s.sect = s.alg ? 256 * 1024 : 8192;
}
void exec(const Plan &p, Ctx &c) {
    S ss[NS]; std::vector<Msg> box;
    for (auto &s : ss) s.c = EVP_CIPHER_CTX_new();
    auto fresh = [&](S &s) { EVP_CIPHER_CTX_free(s.c); s = S(); s.c = EVP_CIPHER_CTX_new(); sim::err_text(); };
    for (auto &o : p.ops) {
        S &s = ss[o.mod(0, NS)];
        if (o.k == "send") {
            S n; n.alg = o.mod(1, 2); n.c = s.c; n.key = mkkey(p, o.arg(2)); n.iv = mkiv(p, o.arg(3), n.alg ? 8 : 4); n.init = true; n.msgs = s.msgs + 1;
            long long f = o.arg(4);
            if ((f & 1) || s.alg != n.alg) EVP_CIPHER_CTX_reset(s.c); else { c.count("reused_contexts"); n.tag = s.tag; n.tagunk = s.tagunk; }
            int fault = o.arg(5);
            uint64_t rf = sim::rnd.failed;
            if (fault > 20) { sim::rnd.fail_from = sim::rnd.calls; sim::rnd.fail_count = 1000; }
            else if (fault > 0) sim::Faults::arm(1 + fault % 3, fault - 1, 1);
            int phase = (f >> 1) % 4; c.op("co_init"); c.mixsig(n.alg * 10 + phase);
            ENGINE *e = lib_engine(); EVP_CIPHER_CTX *x = s.c; const uint8_t *k = n.key.data(), *iv = n.iv.data();
            int rc;
            if (phase == 0) rc = EVP_EncryptInit_ex(x, ci(n.alg), e, k, iv) == 1;
            else if (phase == 1) rc = EVP_EncryptInit_ex(x, ci(n.alg), e, NULL, NULL) == 1 && EVP_EncryptInit_ex(x, NULL, NULL, k, iv) == 1;
            else if (phase == 2) rc = EVP_EncryptInit_ex(x, ci(n.alg), e, NULL, iv) == 1 && EVP_EncryptInit_ex(x, NULL, NULL, k, NULL) == 1;
            else rc = EVP_EncryptInit_ex(x, ci(n.alg), e, k, NULL) == 1 && EVP_EncryptInit_ex(x, NULL, NULL, NULL, iv) == 1;
            sim::Faults::disarm(); sim::rnd.fail_from = -1;
            bool fired = (fault > 0 && fault <= 20 && sim::Faults::fired()) || sim::rnd.failed > rf;
            if (fired) c.count(fault > 20 ? "fault.rng_in_init" : "fault.alloc_in_init");
            if (rc != 1) {
                if (!fired) c.violate("init-failed", "%s phase %d: init refused: %s", names[n.alg], phase, sim::err_text().c_str());
                // a context left by a failed initialisation refuses data or is as good as new after the next one
                uint8_t b[64] = { 0 }; int l; EVP_CipherUpdate(s.c, b, &l, b, 16); EVP_CipherFinal_ex(s.c, b, &l); sim::err_text();
                if (f & 32) { fresh(s); continue; }
                int al = n.alg; S q; q.c = s.c; q.alg = al; q.msgs = n.msgs; q.tag = n.tag; q.tagunk = true; s = q; continue;
            }
            if (fault > 20 && sim::rnd.failed > rf) c.violate("rng-failure-ignored", "%s: init succeeded although the random source failed", names[n.alg]);
            s = n; s.live = true;
            learn(s, c);
            if (f & 8) {
                s.sect = s.n() * (1 + o.mod(6, 30));
                if (EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_KEY_MESH, s.sect, NULL) != 1) c.violate("param-refused", "%s: section %ld refused", names[s.alg], s.sect);
                c.count("sections_set");
            }
        } else if (o.k == "upd" && s.live && s.enc) {
            Bytes d = mkdata(p.seed, o.arg(5), biglen(o.arg(1), o.arg(2)), o.arg(5) % DK_N);
            if (s.in.size() + d.size() > 700000) continue;
            update(s, d, o.mod(3, 16), o.arg(4), c);
        } else if (o.k == "sfin" && s.live && s.enc) sfin(s, box, o.arg(1), c);
        else if (o.k == "recv" && !box.empty()) {
            Msg m = box[o.mod(1, box.size())]; Msg g = m; int kind = o.mod(2, 16); uint64_t r = o.arg(3); long long f = o.arg(4);
            int ivn = m.alg ? 8 : 4, tagmode = 0; bool reject_params = false;
            switch (kind) {
            case 0: if (m.ct.empty()) break; m.ct[r % m.ct.size()] ^= 1 << (r >> 20) % 8; c.count("fault.ciphertext_altered"); break;
            case 1: m.der[4 + r % ivn] ^= 1 << (r >> 20) % 8; c.count("fault.iv_altered"); break;
            case 2: m.der[4 + ivn + r % 8] ^= 1 << (r >> 20) % 8; c.count("fault.seed_altered"); break;
            case 3: m.tag[r % m.tag.size()] ^= 1 << (r >> 20) % 8; c.count("fault.tag_altered"); break;
            case 4: tagmode = 2; c.count("fault.tag_missing"); break;
            case 5: if (!m.ct.empty()) m.ct.pop_back(); c.count("fault.ciphertext_truncated"); break;
            case 6: m.ct.push_back(r); c.count("fault.ciphertext_extended"); break;
            case 7: m.key[r % 32] ^= 1 << (r >> 20) % 8; c.count("fault.wrong_key"); break;
            case 8: m.tag.pop_back(); tagmode = 3; c.count("fault.tag_short"); break;
            case 9: m.der.pop_back(); m.der[1]--; m.der[3]--; reject_params = true; c.count("fault.params_short"); break;
            case 10: { Msg &o2 = box[r % box.size()]; if (o2.tag.size() == m.tag.size()) m.tag = o2.tag; c.count("fault.tag_swapped"); break; }
            default: break;
            }
            S n; n.alg = m.alg; n.c = s.c; n.enc = false; n.key = m.key; n.init = true; n.msgs = s.msgs + 1; n.sect = m.alg ? 256 * 1024 : 8192;
            Bytes held = s.tag;
            if ((f & 1) || s.alg != n.alg || (s.tagunk && tagmode)) { EVP_CIPHER_CTX_reset(s.c); held.clear(); } else c.count("reused_contexts");
            int fault = o.arg(5);
            ASN1_TYPE *t = mkder(m.der);
            if (fault > 0) sim::Faults::arm(1 + fault % 3, fault - 1, 1);
            c.op("co_open"); c.mixsig(50 + kind);
            int rc = EVP_DecryptInit_ex(s.c, ci(m.alg), lib_engine(), NULL, NULL) == 1, rp = 0;
            if (rc) { rp = EVP_CIPHER_asn1_to_param(s.c, t) > 0; rc = rp; }
            if (rc) rc = EVP_DecryptInit_ex(s.c, NULL, NULL, m.key.data(), NULL) == 1;
            sim::Faults::disarm(); ASN1_TYPE_free(t);
            bool fired = fault > 0 && sim::Faults::fired();
            if (fired) c.count("fault.alloc_in_open");
            if (reject_params && rp) c.violate("bad-params-accepted", "%s: parameters %s accepted", names[m.alg], hex(m.der).c_str());
            if (rc != 1) {
                if (!fired && !reject_params) c.violate("init-failed", "%s: opening refused: %s", names[m.alg], sim::err_text().c_str());
                uint8_t b[64] = { 0 }; int l; EVP_CipherUpdate(s.c, b, &l, b, 16); EVP_CipherFinal_ex(s.c, b, &l);
                fresh(s); continue;
            }
            s = n; s.live = true; s.kind = kind; s.iv = sub(m.der, 4, ivn); s.seed = sub(m.der, 4 + ivn, 8); s.tag = held;
            if (g.sect != n.sect) { s.sect = g.sect; EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_KEY_MESH, s.sect, NULL); }
            int pr = put_tag(s.c, m.tag, tagmode == 2 ? 2 : (f >> 1) & 1);
            if (pr == 1) s.tag = m.tag;
            if (tagmode ? pr == 1 : pr != 1) c.violate(tagmode ? "bad-tag-taken" : "tag-refused", "%s: tag of %zu bytes (mode %d): %d", names[m.alg], m.tag.size(), tagmode, pr);
            s.todo = m.ct; s.altered = kind < 11;
        } else if (o.k == "dlv" && s.live && !s.enc) {
            size_t n = std::min(s.todo.size(), biglen(o.arg(1), o.arg(2)));
            Bytes d = sub(s.todo, 0, n); s.todo.erase(s.todo.begin(), s.todo.begin() + n);
            update(s, d, o.mod(3, 16), o.arg(4), c);
        } else if (o.k == "rfin" && s.live && !s.enc) rfin(s, c, p);
        else if (o.k == "copy" && s.init) {
            S &d = ss[o.mod(1, NS)]; if (&d == &s) continue;
            int fault = o.arg(2);
            if (fault > 0) { sim::Faults::arm(1, fault - 1, 1); sim::al.engine_only = false; }
            c.op("co_copy");
            int rc = EVP_CIPHER_CTX_copy(d.c, s.c);
            sim::Faults::disarm();
            bool fired = fault > 0 && sim::Faults::fired(); if (fired) c.count("fault.alloc_in_copy");
            if (rc != 1) {
                if (!fired) c.violate("copy-failed", "%s: copy refused: %s", names[s.alg], sim::err_text().c_str());
                fresh(d); continue;
            }
            EVP_CIPHER_CTX *x = d.c; d = s; d.c = x; c.count("copies");
        } else if (o.k == "re" && s.init && s.enc) {
            bool newkey = o.arg(1); Bytes key = mkkey(p, o.arg(2)), iv = mkiv(p, o.arg(3), s.ivn());
            long sect = s.sect;
            c.op("co_reinit"); c.mixsig(newkey);
            if (EVP_EncryptInit_ex(s.c, NULL, NULL, newkey ? key.data() : NULL, iv.data()) != 1) c.violate("init-failed", "%s: re-init refused: %s", names[s.alg], sim::err_text().c_str());
            s.iv = iv; if (newkey) s.key = key;
            s.in.clear(); s.out.clear(); s.upd = 0; s.live = true; s.msgs++;
            Bytes old = s.seed; learn(s, c);
            if (sect != s.sect) { s.sect = sect; EVP_CIPHER_CTX_ctrl(s.c, EVP_CTRL_KEY_MESH, sect, NULL); }
            c.count(newkey ? "reinit_key" : "reinit_iv");
        } else if (o.k == "drop") { EVP_CIPHER_CTX *x = s.c; EVP_CIPHER_CTX_reset(x); s = S(); s.c = x; c.count("fault.session_abandoned"); }
        else if (o.k == "nokey") {
            int a = o.mod(0, 2), l; uint8_t b[64] = { 0 };
            EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(), *y = EVP_CIPHER_CTX_new();
            c.op("co_nokey");
            EVP_CipherInit_ex(x, ci(a), lib_engine(), NULL, b, a ^ 1);
            if (EVP_CIPHER_CTX_copy(y, x) == 1) std::swap(x, y); else c.violate("copy-failed", "%s: copy of a context without key refused", names[a]);
            if (EVP_CipherUpdate(x, b, &l, b, 16) == 1) c.violate("keyless-update", "%s: data accepted without a key", names[a]);
            if (EVP_CipherFinal_ex(x, b, &l) == 1) c.violate("keyless-final", "%s: final accepted without a key", names[a]);
            EVP_CIPHER_CTX_free(x); EVP_CIPHER_CTX_free(y); sim::err_text(); c.count("keyless");
        }
    }
    for (auto &s : ss) if (s.live) { if (s.enc) sfin(s, box, 0, c); else rfin(s, c, p); }
    for (auto &s : ss) EVP_CIPHER_CTX_free(s.c);
}
RegScenario r1({ "C05", "mailbox", 1, gen, exec, true });
RegProp p1({ "C05", "exploration",
    "A run is a seeded history of senders and receivers (up to 4 contexts, both ciphers) that exchange messages through a mailbox: parameters and tag are handed over in their transport encodings, data arrives in chunks of every class, the channel alters, truncates, extends, swaps or drops ciphertext, IV, seed, tag and parameters, contexts are copied mid-message, re-keyed, given a new IV, abandoned and reused after failures; allocations and the random source fail during initialisation and copying. Ciphertext and tag are compared with a one-shot reference (KDF tree, CTR-ACPKM, OMAC), and the final step must accept exactly the messages whose transmitted tag is the right one. Non-trivial: a message sealed or opened in at least two pieces.",
    { "gost_gost2015.c", "gost_crypt.c and gost_grasshopper_cipher.c CTR-ACPKM-OMAC", "gost_keyexpimp.c KDF tree", "gost_omac.c and MAC keys", "libcrypto EVP and X509 attribute code" },
    { "memory allocator", "random source", "channel between the parties" },
    { "reference written from R 1323565.1.017/RFC 8645, RFC 7836, R 34.13", "messages up to 700 kB" },
    16000, 500000 });
}
