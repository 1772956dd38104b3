// Key transport as the standards describe it: the sender's and the receiver's side.
#pragma once
#include "ec.h"
#include "der.h"
namespace {
inline Bytes retag(Bytes b, uint8_t t) { b[0] = t; return b; }
inline int md_of(int ka) { return ka == KA_2001 || ka == KA_2001DH ? 94 : 256; }
inline Bytes wrap_cp(const Key &k, const Bn &d_eph, const Bytes &spki, int sbox, const Bytes &ukm, const Bytes &cek) {
    static const char *sn[] = { "id-Gost28147-89-TestParamSet", "id-Gost28147-89-CryptoPro-A-ParamSet", "id-Gost28147-89-CryptoPro-B-ParamSet", "id-Gost28147-89-CryptoPro-C-ParamSet", "id-Gost28147-89-CryptoPro-D-ParamSet", "id-tc26-gost-28147-param-Z" };
    Bytes kek = ref::vko(*k.cv, d_eph, k.Q, ukm, md_of(k.ka)); if (kek.empty()) return {};
    Bytes w = ref::cp_wrap(sbox, kek, ukm, cek);
    Bytes info = der(0x30, cat(der(4, sub(w, 8, 32)), der(4, sub(w, 40, 4))));
    Bytes kai = der_oid(sn[sbox - ref::S_TEST]);
    if (!spki.empty()) kai = cat(kai, retag(spki, 0xA0));
    kai = cat(kai, der(4, ukm));
    return der(0x30, cat(info, der(0xA0, kai)));
}
inline Bytes wrap_18(const Key &k, const Bn &d_eph, const Bytes &spki, bool kuz, const Bytes &ukm, bool put_ukm, const Bytes &cek) {
    Bytes e = ref::keg(*k.cv, d_eph, k.Q, ukm, k.ka == KA_512); if (e.size() != 64) return {};
    Bytes x = ref::kexp15(kuz, cek, sub(e, 32, 32), sub(e, 0, 32), sub(ukm, 24, kuz ? 8 : 4));
    Bytes b = cat(der(4, x), spki); if (put_ukm) b = cat(b, der(4, ukm));
    return der(0x30, b);
}
// a session key whose code under kmac ends in a zero byte
inline Bytes zero_tail_cek(bool kuz, const Bytes &kmac, const Bytes &iv, uint64_t seed) {
    auto m = ref::mkblock(kuz, kmac.data()); Bytes cek;
    for (int i = 0; i < 4000; i++) { cek = derive_bytes(seed, i, 32); if (ref::cmac(*m, cat(iv, cek)).back() == 0) break; }
    return cek;
}
// the point in a SubjectPublicKeyInfo of the recipient's own algorithm and curve
inline bool spki_point(const Key &k, const Bytes &spki, Pt &Q) {
    Node s; int n = k.cv->len;
    if (!parse(spki, s) || s.kids.size() != 2 || s.kids[0].kids.size() != 2 || s.kids[0].kids[1].kids.empty()) return false;
    if (emit(s.kids[0].kids[0]) != der_oid(OBJ_nid2sn(ka_nid(k.ka))) || emit(s.kids[0].kids[1].kids[0]) != der_oid(k.cv->sn)) return false;
    Bytes h = der(4, Bytes(2 * n)), &b = s.kids[1].body; size_t hl = 1 + h.size() - 2 * n;
    if (b.size() != hl + 2 * n || b[0] || memcmp(&b[1], h.data(), hl - 1)) return false;
    Q.inf = false; Q.x = Bn::le(sub(b, hl, n)); Q.y = Bn::le(sub(b, hl + n, n)); return k.cv->on(Q);
}
}
