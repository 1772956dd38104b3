// C06: TLS key-tree re-keying follows the record sequence number alone.
#include "../lib.h"
namespace {
const char *cnames[] = { "magma-ctr", "magma-ctr-acpkm", "kuznyechik-ctr", "kuznyechik-ctr-acpkm" };
const char *mnames[] = { "magma-mac", "kuznyechik-mac" };
struct Party {                       // one direction's state at one end
    EVP_CIPHER_CTX *c = nullptr; EVP_MD_CTX *base = nullptr, *m = nullptr; bool ready = false;
};
struct Rec { uint64_t seq; Bytes data, wire; bool etm; int mlen; };
struct Conn {
    int alg = 0; bool kuz = false; Bytes ck, iv, mk; Party p[2]; std::vector<Rec> net; uint64_t seq = 0; bool started = false;
    int n() const { return kuz ? 16 : 8; }
};
enum { NC = 2 };
// sequence numbers: near the boundaries of the tree's masks, carries, or anywhere
uint64_t mkseq(long long cls, uint64_t r, uint64_t cur) {
    static const int sh[] = { 6, 12, 19, 25, 32, 38, 8, 16, 63 };
    switch (cls % 10) {
    case 0: return r % 4;
    case 1: case 2: { uint64_t b = (uint64_t)(1 + (r >> 8) % 3) << sh[r % 9]; return b + (r >> 16) % 3 - 1; }
    case 3: return ~0ULL - r % 3;
    case 4: case 5: return cur + 1;
    case 6: return cur - 1;
    case 7: return cur ^ (1ULL << r % 64);
    case 8: return cur;
    default: return mix64(r, 77);
    }
}
void be64(uint64_t v, uint8_t *o) { for (int i = 0; i < 8; i++) o[i] = v >> (56 - 8 * i); }
void gen(Rng &r, Plan &p, bool th) {
    int nc = 1 + r.below(NC), steps = 6 + r.below(th ? 40 : 16);
    bool faults = r.chance(1, 4);
    auto init = [&](int i) { p.add("open", { i, (long long)r.below(4), (long long)r.below(20), (long long)r.below(20), (long long)r.below(64) }); };
    for (int i = 0; i < nc; i++) init(i);
    for (int i = 0; i < steps; i++) {
        int k = r.below(nc);
        switch (r.below(16)) {
        case 0: init(k); break;
        case 1: p.add("clone", { k, (long long)r.below(2), faults ? (long long)r.below(8) : 0 }); break;
        case 2: p.add("rekey", { k, (long long)r.below(2), (long long)r.below(4) }); break;
        case 3: p.add("bad", { k, (long long)r.below(5) }); break;
        case 4: case 5: case 6: case 7: case 8:
            p.add("recv", { k, (long long)r.below(1000), (long long)r.below(14), (long long)r.below(64), (long long)(r.next() >> 40), faults ? (long long)r.below(60) : 0 }); break;
        default:
            p.add("send", { k, (long long)r.below(10), (long long)(r.next() >> 24), (long long)r.below(CH_N), (long long)r.below(5000), (long long)r.below(64), faults ? (long long)r.below(60) : 0 });
        }
    }
}
Bytes ref_ctr(const Conn &k, uint64_t seq, const Bytes &in) {
    uint8_t s[8]; be64(seq, s);
    auto b = ref::mkblock(k.kuz, ref::tlstree(k.kuz, k.ck, s).data());
    int h = k.n() / 2; Bytes iv(k.iv); int carry = 0;
    for (int i = h - 1; i >= 0; i--) { int v = iv[i] + s[8 - h + i] + carry; iv[i] = v; carry = v >> 8; }
    return ref::ctr(*b, iv, in, k.alg & 1 ? (k.kuz ? 4096 : 1024) : 0);
}
Bytes ref_mac(const Conn &k, uint64_t seq, const Bytes &in, int len) {
    uint8_t s[8]; be64(seq, s);
    Bytes t = ref::cmac(*ref::mkblock(k.kuz, ref::tlstree(k.kuz, k.mk, s).data()), in);
    t.resize(len); return t;
}
Bytes header(uint64_t seq, size_t n) { Bytes h(13); be64(seq, h.data()); h[8] = 0x17; h[9] = h[10] = 3; h[11] = n >> 8; h[12] = n; return h; }
// the engine's MAC of one record; returns false when refused
bool eng_mac(Conn &k, Party &q, uint64_t seq, const Bytes &in, int len, int how, long long fault, uint64_t r, Bytes &out, Ctx &c) {
    uint8_t s[8]; be64(seq, s); out.assign(16, 0);
    bool ok = true;
    c.op("mac_record");
    if (EVP_MD_CTX_copy_ex(q.m, q.base) != 1) c.violate("copy-failed", "%s: MAC context of a record not copied: %s", mnames[k.kuz], sim::err_text().c_str());
    if (how & 1) { uint8_t s2[8]; be64(seq ^ (1ULL << r % 50), s2); if (EVP_MD_CTX_ctrl(q.m, EVP_MD_CTRL_TLSTREE, 0, s2) != 1) c.violate("tlstree-refused", "%s: %s", mnames[k.kuz], sim::err_text().c_str()); }
    if (fault > 0) sim::Faults::arm(1 + fault % 3, fault / 2, 1);
    ok = EVP_MD_CTX_ctrl(q.m, EVP_MD_CTRL_TLSTREE, 0, s) == 1;
    sim::Faults::disarm();
    if (fault > 0 && sim::Faults::fired()) {
        c.count("fault.mac_rekey");
        if (!ok) { sim::err_text(); if (EVP_MD_CTX_copy_ex(q.m, q.base) != 1 || EVP_MD_CTX_ctrl(q.m, EVP_MD_CTRL_TLSTREE, 0, s) != 1) c.violate("no-recovery", "%s: key tree step still refused after the fault: %s", mnames[k.kuz], sim::err_text().c_str()); }
    } else if (!ok) c.violate("tlstree-refused", "%s: sequence %llx refused: %s", mnames[k.kuz], (unsigned long long)seq, sim::err_text().c_str());
    for (size_t off = 0, first = 1; off < in.size() || first; first = 0) {
        size_t n = how & 2 ? std::min(in.size() - off, chunk_len(r, r >> 4)) : in.size() - off; r = mix64(r, off);
        Buf b(sub(in, off, n), r % 16);
        if (EVP_DigestUpdate(q.m, b.p, n) != 1) c.violate("update-failed", "%s: %s", mnames[k.kuz], sim::err_text().c_str());
        off += n;
    }
    unsigned l = 16;
    if (len < k.n() || (how & 4)) { // shorter tags are asked for as an XOF
        if (EVP_DigestFinalXOF(q.m, out.data(), len) != 1) c.violate("final-failed", "%s: XOF %d: %s", mnames[k.kuz], len, sim::err_text().c_str());
        l = len;
    } else if (EVP_DigestFinal_ex(q.m, out.data(), &l) != 1) c.violate("final-failed", "%s: %s", mnames[k.kuz], sim::err_text().c_str());
    out.resize(l);
    return true;
}
Bytes eng_crypt(Conn &k, Party &q, uint64_t seq, const Bytes &in, int how, long long fault, uint64_t r, Ctx &c, bool etm) {
    uint8_t s[8]; int arg = etm ? 0 : 1; be64(seq + arg, s); uint8_t s0[8]; memcpy(s0, s, 8);
    c.op("crypt_record");
    if (fault > 0) sim::Faults::arm(1 + fault % 3, fault / 2, 1);
    bool ok = EVP_CIPHER_CTX_ctrl(q.c, EVP_CTRL_TLSTREE, arg, s) > 0;
    sim::Faults::disarm();
    if (fault > 0 && sim::Faults::fired()) {
        c.count("fault.cipher_rekey");
        if (!ok) { sim::err_text(); if (EVP_CIPHER_CTX_ctrl(q.c, EVP_CTRL_TLSTREE, arg, s) <= 0) c.violate("no-recovery", "%s: key tree step still refused after the fault: %s", cnames[k.alg], sim::err_text().c_str()); }
    } else if (!ok) c.violate("tlstree-refused", "%s: sequence %llx (mode %d) refused: %s", cnames[k.alg], (unsigned long long)seq, arg, sim::err_text().c_str());
    if (memcmp(s, s0, 8)) c.violate("seq-modified", "%s: the caller's sequence number was changed", cnames[k.alg]);
    Bytes out;
    for (size_t off = 0; off < in.size();) {
        size_t n = how & 8 ? std::min(in.size() - off, chunk_len(r, r >> 4)) : in.size() - off; r = mix64(r, off);
        Buf b(sub(in, off, n), r % 16); int ol = 0;
        int rc = how & 16 ? (EVP_Cipher(q.c, b.p, b.p, n) > 0 || !n) : EVP_CipherUpdate(q.c, b.p, &ol, b.p, n);
        if (rc != 1) c.violate("update-failed", "%s: %s", cnames[k.alg], sim::err_text().c_str());
        out.insert(out.end(), b.p, b.p + n); off += n;
    }
    return out;
}
void open(Conn &k, int side, int f, Ctx &c) {
    Party &q = k.p[side];
    if (!q.c) { q.c = EVP_CIPHER_CTX_new(); q.base = EVP_MD_CTX_new(); q.m = EVP_MD_CTX_new(); }
    c.op("open");
    if (f & 1) EVP_CIPHER_CTX_reset(q.c);
    ENGINE *e = lib_engine();
    if (EVP_CipherInit_ex(q.c, eng_cipher(OBJ_sn2nid(cnames[k.alg])), e, k.ck.data(), k.iv.data(), side == 0) != 1) c.violate("init-failed", "%s: %s", cnames[k.alg], sim::err_text().c_str());
    EVP_MD_CTX_reset(q.base);
    const EVP_MD *md = eng_md(OBJ_sn2nid(mnames[k.kuz]));
    if (EVP_DigestInit_ex(q.base, md, e) != 1) c.violate("init-failed", "%s: %s", mnames[k.kuz], sim::err_text().c_str());
    uint8_t z[8] = { 0 };
    if ((f & 2) && EVP_MD_CTX_ctrl(q.base, EVP_MD_CTRL_TLSTREE, 0, z) == 1) c.violate("keyless-tlstree", "%s: key tree step accepted without a key", mnames[k.kuz]);
    if (f & 4) {
        EVP_PKEY *pk = EVP_PKEY_new_mac_key(OBJ_sn2nid(mnames[k.kuz]), e, k.mk.data(), 32);
        EVP_MD_CTX_reset(q.base);
        if (!pk || EVP_DigestSignInit(q.base, NULL, md, e, pk) != 1) c.violate("init-failed", "%s: sign init: %s", mnames[k.kuz], sim::err_text().c_str());
        EVP_PKEY_free(pk);
    } else if (EVP_MD_CTX_ctrl(q.base, EVP_MD_CTRL_SET_KEY, 32, (void *)k.mk.data()) != 1) c.violate("init-failed", "%s: key refused: %s", mnames[k.kuz], sim::err_text().c_str());
    sim::err_text(); q.ready = true;
}
void exec(const Plan &p, Ctx &c) {
    Conn ks[NC]; int handled = 0, outoforder = 0;
    for (auto &o : p.ops) {
        Conn &k = ks[o.mod(0, NC)];
        if (o.k == "open") {
            int alg = o.mod(1, 4); if (k.started && k.alg != alg) for (auto &q : k.p) { EVP_CIPHER_CTX_reset(q.c); }
            k.alg = alg; k.kuz = alg >= 2; long long kt = o.arg(2), vt = o.arg(3);
            k.ck = derive_bytes(p.seed, 0x600 + kt, 32); k.mk = derive_bytes(p.seed, 0x700 + kt, 32);
            if (kt == 0) { k.ck.assign(32, 0); k.mk.assign(32, 0xff); }
            k.iv = vt % 3 == 0 ? Bytes(k.n() / 2, 0xff) : derive_bytes(p.seed, 0x800 + vt, k.n() / 2);
            if (vt % 3 == 1) k.iv.back() = 0xff;
            k.net.clear(); k.seq = 0;
            for (int s = 0; s < 2; s++) open(k, s, o.arg(4) >> (3 * s), c);
            k.started = true;
        } else if (!k.started) continue;
        else if (o.k == "send") {
            uint64_t r = o.arg(2), seq = mkseq(o.arg(1), r, k.seq); int how = o.arg(5); long long fault = o.arg(6);
            Rec x; x.seq = seq; x.etm = how & 32; x.mlen = r % 5 == 0 ? 1 + r % k.n() : k.n();
            if (seq != k.seq) outoforder++;
            k.seq = seq;
            x.data = derive_bytes(p.seed, 0x900 + o.arg(2), std::min<size_t>(16384, chunk_len(o.arg(3), o.arg(4)) * (o.arg(4) % 7 == 0 ? 5 : 1)));
            Bytes mi, wire, m, want;
            if (x.etm) { // encrypt, then MAC the ciphertext
                wire = eng_crypt(k, k.p[0], seq, x.data, how, fault % 2 ? fault : 0, r, c, true);
                if (wire != ref_ctr(k, seq, x.data)) c.violate("stream-mismatch", "%s: record %llx of %zu bytes (EtM) differs", cnames[k.alg], (unsigned long long)seq, x.data.size());
                mi = cat(header(seq, wire.size()), wire);
                eng_mac(k, k.p[0], seq, mi, x.mlen, how, fault % 2 ? 0 : fault, r, m, c);
                want = ref_mac(k, seq, mi, x.mlen);
                x.wire = cat(wire, m);
            } else {
                mi = cat(header(seq, x.data.size()), x.data);
                eng_mac(k, k.p[0], seq, mi, x.mlen, how, fault % 2 ? 0 : fault, r, m, c);
                want = ref_mac(k, seq, mi, x.mlen);
                x.wire = eng_crypt(k, k.p[0], seq, cat(x.data, m), how, fault % 2 ? fault : 0, r, c, false);
                if (m == want && x.wire != ref_ctr(k, seq, cat(x.data, m))) c.violate("stream-mismatch", "%s: record %llx of %zu bytes differs", cnames[k.alg], (unsigned long long)seq, x.data.size());
            }
            if (m != want) c.violate("tag-mismatch", "%s: record %llx of %zu bytes, tag of %d: got %s want %s", mnames[k.kuz], (unsigned long long)seq, x.data.size(), x.mlen, hex(m).c_str(), hex(want).c_str());
            c.logb("wire", x.wire); k.net.push_back(x); c.count("records_sent"); handled++;
            c.mixsig(k.alg * 2 + x.etm); c.mixsig(seq); c.mixsig(x.data.size());
        } else if (o.k == "recv" && !k.net.empty()) {
            // the network reorders, duplicates and loses; the receiver may be wrong about the number
            size_t i = o.mod(1, k.net.size()); Rec x = k.net[i]; int kind = o.mod(2, 14), how = o.arg(3); uint64_t r = o.arg(4), seq = x.seq; long long fault = o.arg(5);
            if (i) c.count("fault.reordered");
            bool genuine = true;
            switch (kind) {
            case 0: seq = mkseq(7, r, seq); c.count("fault.wrong_sequence"); break;
            case 1: seq += 1; c.count("fault.wrong_sequence"); break;
            case 2: seq = mkseq(r, r >> 4, seq); c.count("fault.wrong_sequence"); break;
            case 3: x.wire[r % x.wire.size()] ^= 1 << (r >> 20) % 8; genuine = false; c.count("fault.record_altered"); break;
            case 4: k.net.erase(k.net.begin() + i); c.count("fault.lost"); continue;
            case 5: case 6: case 7: c.count("fault.duplicated"); break;                    // stays in the network
            default: k.net.erase(k.net.begin() + i);
            }
            if (seq != x.seq) genuine = false;
            if ((int)x.wire.size() < x.mlen) continue;
            Bytes pt, m, got; size_t dl = x.wire.size() - x.mlen;
            if (x.etm) {
                Bytes wire = sub(x.wire, 0, dl), mi = cat(header(seq, dl), wire);
                eng_mac(k, k.p[1], seq, mi, x.mlen, how, fault % 2 ? 0 : fault, r, m, c); got = sub(x.wire, dl, x.mlen);
                pt = eng_crypt(k, k.p[1], seq, wire, how, fault % 2 ? fault : 0, r, c, true);
            } else {
                Bytes all = eng_crypt(k, k.p[1], seq, x.wire, how, fault % 2 ? fault : 0, r, c, false);
                pt = sub(all, 0, dl); got = sub(all, dl, x.mlen);
                eng_mac(k, k.p[1], seq, cat(header(seq, dl), pt), x.mlen, how, fault % 2 ? 0 : fault, r, m, c);
            }
            bool acc = m == got;
            // a short tag matches by chance
            if (acc && !genuine && x.mlen >= 8) c.violate("wrong-record-accepted", "%s: record %llx accepted as %llx (kind %d)", cnames[k.alg], (unsigned long long)x.seq, (unsigned long long)seq, kind);
            if (!acc && genuine) c.violate("genuine-rejected", "%s: record %llx of %zu bytes rejected", cnames[k.alg], (unsigned long long)seq, dl);
            if (genuine && pt != x.data) c.violate("stream-mismatch", "%s: record %llx of %zu bytes decrypted wrongly", cnames[k.alg], (unsigned long long)seq, dl);
            if (!x.etm && pt != sub(ref_ctr(k, seq, x.wire), 0, dl)) c.violate("stream-mismatch", "%s: record %llx of %zu bytes under number %llx decrypted wrongly", cnames[k.alg], (unsigned long long)x.seq, dl, (unsigned long long)seq);
            c.count("records_received"); handled++; c.mixsig(50 + kind); c.mixsig(seq);
        } else if (o.k == "clone") {
            // the connection is moved to copies of its contexts
            Party &q = k.p[o.mod(1, 2)]; int fault = o.arg(2);
            EVP_CIPHER_CTX *nc = EVP_CIPHER_CTX_new(); EVP_MD_CTX *nb = EVP_MD_CTX_new();
            if (fault > 0) { sim::Faults::arm(1, fault - 1, 1); }
            c.op("clone");
            int rc = EVP_CIPHER_CTX_copy(nc, q.c) == 1 && EVP_MD_CTX_copy_ex(nb, q.base) == 1;
            sim::Faults::disarm(); bool fired = fault > 0 && sim::Faults::fired();
            if (fired) c.count("fault.clone");
            if (rc) { EVP_CIPHER_CTX_free(q.c); EVP_MD_CTX_free(q.base); q.c = nc; q.base = nb; c.count("clones"); }
            else { if (!fired) c.violate("copy-failed", "%s: %s", cnames[k.alg], sim::err_text().c_str()); sim::err_text(); EVP_CIPHER_CTX_free(nc); EVP_MD_CTX_free(nb); }
        } else if (o.k == "rekey") {
            Party &q = k.p[o.mod(1, 2)]; int w = o.mod(2, 4);
            c.op("reinit");
            if (EVP_CipherInit_ex(q.c, NULL, NULL, w & 1 ? k.ck.data() : NULL, w & 2 ? k.iv.data() : NULL, -1) != 1) c.violate("init-failed", "%s: re-init: %s", cnames[k.alg], sim::err_text().c_str());
            c.count("reinits");
        } else if (o.k == "bad") {
            Party &q = k.p[0]; uint8_t s[8] = { 1 }, b[64] = { 0 }; int l;
            c.op("misuse"); c.count("misuses");
            static const char *other[] = { "magma-cbc", "kuznyechik-cbc", "kuznyechik-ecb", "kuznyechik-ofb", "gost89-cnt" };
            if (o.mod(1, 5) == 0) { if (EVP_CIPHER_CTX_ctrl(q.c, EVP_CTRL_TLSTREE, 2, s) > 0) c.violate("bad-mode-accepted", "%s: sequence mode 2 accepted", cnames[k.alg]); }
            else if (o.mod(1, 5) == 1) { if (EVP_CIPHER_CTX_ctrl(q.c, EVP_CTRL_TLSTREE, -1, s) > 0) c.violate("bad-mode-accepted", "%s: sequence mode -1 accepted", cnames[k.alg]); }
            else { // a mode without a key tree refuses, and is not disturbed
                for (auto nm : other) {
                    auto *x = EVP_CIPHER_CTX_new(); const CipherAlg *a = nullptr; for (int i = 0; i < n_cipher_algs; i++) if (!strcmp(cipher_algs[i].sn, nm)) a = &cipher_algs[i];
                    Bytes iv(k.iv); iv.resize(16, 7); iv.resize(a->ivlen);
                    EVP_CipherInit_ex(x, eng_cipher(OBJ_sn2nid(nm)), lib_engine(), k.ck.data(), iv.data(), 1);
                    if (EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_TLSTREE, 0, s) > 0) c.violate("bad-mode-accepted", "%s: key tree accepted", nm);
                    EVP_CipherUpdate(x, b, &l, b, 16);
                    Bytes w = ref_cipher(*a, ref::S_A, 1, k.ck, iv, true, Bytes(16, 0));
                    if (memcmp(w.data(), b, 16)) c.violate("disturbed", "%s: a refused key tree control changed the stream", nm);
                    memset(b, 0, 16); EVP_CIPHER_CTX_free(x);
                }
            }
            sim::err_text();
        }
    }
    if (handled >= 2 && outoforder) c.nontrivial = true;
    for (auto &k : ks) for (auto &q : k.p) { EVP_CIPHER_CTX_free(q.c); EVP_MD_CTX_free(q.base); EVP_MD_CTX_free(q.m); }
}
RegScenario r1({ "C06", "records", 1, gen, exec, true });
RegProp p1({ "C06", "exploration",
    "A run is one or two connections whose two ends hold their own cipher and MAC contexts and exchange records over a network that reorders, duplicates, loses and alters them; sequence numbers walk forwards and backwards and jump around every mask boundary of both key trees, carries and the end of the range; the receiver is sometimes wrong about the number. Both conventions of the sequence control (MAC-then-encrypt and encrypt-then-MAC), fragments within a record, context copies, re-initialisation between records, wrong modes, and single faults inside the key derivation are included. Every record, tag and decryption is compared with a reference tree. Non-trivial: at least two records processed, not all in sequence order.",
    { "gost_keyexpimp.c key tree and KDF", "gost_crypt.c, gost_grasshopper_cipher.c key-tree control and CTR modes", "gost_omac.c key-tree control" },
    { "network between the two ends", "memory allocator", "calls into libcrypto (fault points)" },
    { "reference tree written from RFC 9189, checked against its vectors", "records up to 16 kB" },
    12000, 400000 });
}
