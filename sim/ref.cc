#include "ref.h"
#include "ref_data.h"
#include <algorithm>

namespace ref {
// ------------------------------------------------------------------ GOST 28147-89
static uint32_t le32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void st32(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = v >> (8 * i); }
void Gost89::setkey(const uint8_t *key) { for (int i = 0; i < 8; i++) k[i] = le32(key + 4 * i); }
uint32_t Gost89::f(uint32_t x) const {
    uint32_t r = 0;
    for (int i = 0; i < 8; i++) r |= (uint32_t)SBOX[sb][7 - i][(x >> (4 * i)) & 15] << (4 * i);
    return r << 11 | r >> 21;
}
void Gost89::rounds(const uint8_t *in, uint8_t *out, const int *sched, int nr, bool swap) const {
    uint32_t a = le32(in), b = le32(in + 4);
    for (int i = 0; i < nr; i++) { uint32_t t = b ^ f(a + k[sched[i]]); b = a; a = t; }
    if (swap) std::swap(a, b);
    st32(out, a); st32(out + 4, b);
}
void Gost89::enc(const uint8_t *in, uint8_t *out) const {
    int s[32]; for (int i = 0; i < 32; i++) s[i] = i < 24 ? i % 8 : 31 - i;
    rounds(in, out, s, 32, true);
}
void Gost89::dec(const uint8_t *in, uint8_t *out) const {
    int s[32]; for (int i = 0; i < 32; i++) s[i] = i < 8 ? i : 7 - (i % 8);
    rounds(in, out, s, 32, true);
}
void Gost89::mac16(uint8_t *st) const {
    int s[16]; for (int i = 0; i < 16; i++) s[i] = i % 8;
    uint8_t o[8]; rounds(st, o, s, 16, false); memcpy(st, o, 8);
}
Bytes Magma::rev(const uint8_t *key) {
    Bytes r(32); for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) r[4 * i + j] = key[4 * i + 3 - j];
    return r;
}
void Magma::enc(const uint8_t *in, uint8_t *out) const {
    uint8_t t[8], o[8]; for (int i = 0; i < 8; i++) t[i] = in[7 - i];
    g.enc(t, o); for (int i = 0; i < 8; i++) out[i] = o[7 - i];
}
void Magma::dec(const uint8_t *in, uint8_t *out) const {
    uint8_t t[8], o[8]; for (int i = 0; i < 8; i++) t[i] = in[7 - i];
    g.dec(t, o); for (int i = 0; i < 8; i++) out[i] = o[7 - i];
}
static const uint8_t MESH[32] = {
    0x69,0x00,0x72,0x22,0x64,0xC9,0x04,0x23,0x8D,0x3A,0xDB,0x96,0x46,0xE9,0x2A,0xC4,
    0x18,0xFE,0xAC,0x94,0x00,0xED,0x07,0x12,0xC0,0x86,0xDC,0xC2,0xEF,0x4C,0xA9,0x2B };
static void mesh_key(Gost89 &g, uint8_t *iv) {
    uint8_t nk[32];
    for (int i = 0; i < 32; i += 8) g.dec(MESH + i, nk + i);
    g.setkey(nk);
    if (iv) g.enc(iv, iv);
}
Bytes cfb89(int sb, bool mesh, const Bytes &key, const Bytes &iv0, bool enc, const Bytes &in) {
    Gost89 g(sb, key.data()); uint8_t iv[8], ks[8]; memcpy(iv, iv0.data(), 8);
    Bytes out(in.size());
    for (size_t i = 0; i < in.size(); i++) {
        if (i % 8 == 0) {
            if (mesh && i && i % 1024 == 0) mesh_key(g, iv);
            g.enc(iv, ks);
        }
        out[i] = in[i] ^ ks[i % 8];
        iv[i % 8] = enc ? out[i] : in[i];
    }
    return out;
}
Bytes cnt89(int sb, bool mesh, const Bytes &key, const Bytes &iv0, const Bytes &in) {
    Gost89 g(sb, key.data()); uint8_t iv[8], ks[8]; memcpy(iv, iv0.data(), 8);
    Bytes out(in.size());
    if (in.size()) g.enc(iv, iv);
    for (size_t i = 0; i < in.size(); i++) {
        if (i % 8 == 0) {
            if (mesh && i && i % 1024 == 0) mesh_key(g, iv);
            uint32_t lo = le32(iv), hi = le32(iv + 4);
            lo += 0x01010101;
            uint64_t h = (uint64_t)hi + 0x01010104; if (h > 0xffffffffULL) h = (h & 0xffffffffULL) + 1;
            st32(iv, lo); st32(iv + 4, (uint32_t)h);
            g.enc(iv, ks);
        }
        out[i] = in[i] ^ ks[i % 8];
    }
    return out;
}
Bytes mac89(int sb, bool mesh, const Bytes &key, const View &in) {
    Gost89 g(sb, key.data()); Bytes st(8, 0);
    if (in.empty()) return st;
    for (size_t i = 0; i < std::max<size_t>(in.size(), 9); i += 8) {       // RFC 5830: at least two blocks
        if (mesh && i && i % 1024 == 0) mesh_key(g, nullptr);
        for (int j = 0; j < 8; j++) st[j] ^= i + j < in.size() ? in[i + j] : 0;
        g.mac16(st.data());
    }
    return st;
}
// ------------------------------------------------------------------ Kuznyechik
static uint8_t gmul(uint8_t a, uint8_t b) {
    uint8_t r = 0;
    while (b) { if (b & 1) r ^= a; a = (a << 1) ^ (a & 0x80 ? 0xC3 : 0); b >>= 1; }
    return r;
}
static uint8_t MT[256][256], PIINV[256]; static bool kinit_done = false;
static const uint8_t LV[16] = { 148,32,133,16,194,192,1,251,1,192,194,16,133,32,148,1 };
static void kinit() {
    if (kinit_done) return;
    for (int i = 0; i < 256; i++) { PIINV[PI[i]] = i; for (int j = 0; j < 256; j++) MT[i][j] = gmul(i, j); }
    kinit_done = true;
}
static void L(uint8_t *a) {
    for (int r = 0; r < 16; r++) {
        uint8_t x = 0; for (int i = 0; i < 16; i++) x ^= MT[LV[i]][a[i]];
        memmove(a + 1, a, 15); a[0] = x;
    }
}
static void Linv(uint8_t *a) {
    for (int r = 0; r < 16; r++) {
        uint8_t t = a[0]; memmove(a, a + 1, 15); a[15] = t;
        uint8_t x = 0; for (int i = 0; i < 16; i++) x ^= MT[LV[i]][a[i]];
        a[15] = x;
    }
}
Kuz::Kuz(const uint8_t *key) {
    n = 16; kinit();
    uint8_t a[16], b[16]; memcpy(a, key, 16); memcpy(b, key + 16, 16);
    memcpy(rk[0], a, 16); memcpy(rk[1], b, 16);
    for (int i = 1; i <= 32; i++) {
        uint8_t c[16] = { 0 }; c[15] = i; L(c);
        uint8_t t[16]; for (int j = 0; j < 16; j++) t[j] = PI[a[j] ^ c[j]];
        L(t); for (int j = 0; j < 16; j++) t[j] ^= b[j];
        memcpy(b, a, 16); memcpy(a, t, 16);
        if (i % 8 == 0) { memcpy(rk[i / 4], a, 16); memcpy(rk[i / 4 + 1], b, 16); }
    }
}
void Kuz::enc(const uint8_t *in, uint8_t *out) const {
    uint8_t s[16]; memcpy(s, in, 16);
    for (int i = 0; i < 9; i++) { for (int j = 0; j < 16; j++) s[j] = PI[s[j] ^ rk[i][j]]; L(s); }
    for (int j = 0; j < 16; j++) out[j] = s[j] ^ rk[9][j];
}
void Kuz::dec(const uint8_t *in, uint8_t *out) const {
    uint8_t s[16]; for (int j = 0; j < 16; j++) s[j] = in[j] ^ rk[9][j];
    for (int i = 8; i >= 0; i--) { Linv(s); for (int j = 0; j < 16; j++) s[j] = PIINV[s[j]] ^ rk[i][j]; }
    memcpy(out, s, 16);
}
// ------------------------------------------------------------------ modes
Bytes ecb(const Block &b, bool enc, const Bytes &in) {
    Bytes o(in.size());
    for (size_t i = 0; i + b.n <= in.size(); i += b.n) enc ? b.enc(&in[i], &o[i]) : b.dec(&in[i], &o[i]);
    return o;
}
Bytes cbc(const Block &b, const Bytes &iv0, bool enc, const Bytes &in) {
    Bytes o(in.size()), iv = iv0; uint8_t t[16];
    for (size_t i = 0; i + b.n <= in.size(); i += b.n) {
        if (enc) {
            for (int j = 0; j < b.n; j++) t[j] = in[i + j] ^ iv[j];
            b.enc(t, &o[i]); memcpy(iv.data(), &o[i], b.n);
        } else {
            b.dec(&in[i], t);
            for (int j = 0; j < b.n; j++) o[i + j] = t[j] ^ iv[j];
            memcpy(iv.data(), &in[i], b.n);
        }
    }
    return o;
}
Bytes cfb(const Block &b, const Bytes &iv0, bool enc, const Bytes &in) {
    Bytes o(in.size()), iv = iv0; uint8_t ks[16];
    for (size_t i = 0; i < in.size(); i++) {
        if (i % b.n == 0) b.enc(iv.data(), ks);
        o[i] = in[i] ^ ks[i % b.n];
        iv[i % b.n] = enc ? o[i] : in[i];
    }
    return o;
}
Bytes ofb(const Block &b, const Bytes &iv0, const Bytes &in) {
    Bytes o(in.size()), iv = iv0;
    for (size_t i = 0; i < in.size(); i++) {
        if (i % b.n == 0) b.enc(iv.data(), iv.data());
        o[i] = in[i] ^ iv[i % b.n];
    }
    return o;
}
static Bytes acpkm_key(const Block &b) {
    uint8_t d[32]; for (int i = 0; i < 32; i++) d[i] = 0x80 + i;
    Bytes k(32); for (int i = 0; i < 32; i += b.n) b.enc(d + i, &k[i]);
    return k;
}
Bytes ctr(const Block &b0, const Bytes &iv, const Bytes &in, size_t section) {
    std::unique_ptr<Block> own; const Block *b = &b0;
    Bytes c(b0.n, 0), o(in.size()); uint8_t ks[16];
    memcpy(c.data(), iv.data(), std::min<size_t>(iv.size(), b0.n));
    for (size_t i = 0; i < in.size(); i++) {
        if (i % b0.n == 0) {
            if (section && i && i % section == 0) { Bytes nk = acpkm_key(*b); own = b->rekey(nk.data()); b = own.get(); }
            b->enc(c.data(), ks);
            for (int j = b0.n - 1; j >= 0; j--) if (++c[j]) break;
        }
        o[i] = in[i] ^ ks[i % b0.n];
    }
    return o;
}
static void dbl(uint8_t *v, int n, uint8_t poly) {
    int c = v[0] >> 7;
    for (int i = 0; i < n; i++) v[i] = (v[i] << 1) | (i + 1 < n ? v[i + 1] >> 7 : 0);
    if (c) v[n - 1] ^= poly;
}
static uint8_t poly_of(int n) { return n == 8 ? 0x1b : 0x87; }
Bytes cmac(const Block &b, const View &in) {
    int n = b.n; Bytes k(n, 0); b.enc(k.data(), k.data());
    dbl(k.data(), n, poly_of(n));
    size_t L = in.size(), end = L; if (!L || L % n) { dbl(k.data(), n, poly_of(n)); end = L / n * n + n; }
    Bytes st(n, 0);
    for (size_t i = 0; i < end; i += n) {
        for (int j = 0; j < n; j++) st[j] ^= (i + j < L ? in[i + j] : i + j == L ? 0x80 : 0) ^ (i + n == end ? k[j] : 0);
        b.enc(st.data(), st.data());
    }
    return st;
}
Bytes kuz_acpkm_omac(const Bytes &key, const Bytes &in, size_t section, size_t tstar) {
    // R 1323565.1.017-2018 / RFC 8645 6.3.6: OMAC-ACPKM-Master, section keys of 48 bytes
    const size_t n = 16;
    size_t nblocks = std::max<size_t>(1, (in.size() + n - 1) / n);
    size_t nsec = (nblocks * n + section - 1) / section;
    Kuz master(key.data());
    Bytes iv(8, 0xff);
    Bytes mat = ctr(master, iv, Bytes(nsec * 48, 0), tstar);
    Bytes d = in; bool padded = false;
    if (d.empty() || d.size() % n) { padded = true; d.push_back(0x80); while (d.size() % n) d.push_back(0); }
    Bytes st(n, 0); std::unique_ptr<Kuz> k;
    for (size_t i = 0; i < d.size(); i += n) {
        size_t s = i / section;
        if (i % section == 0) k.reset(new Kuz(&mat[s * 48]));
        if (i + n == d.size()) {
            Bytes k1(&mat[s * 48 + 32], &mat[s * 48 + 32] + 16);
            if (padded) dbl(k1.data(), 16, 0x87);
            for (size_t j = 0; j < n; j++) st[j] ^= k1[j];
        }
        for (size_t j = 0; j < n; j++) st[j] ^= d[i + j];
        k->enc(st.data(), st.data());
    }
    return st;
}
// ------------------------------------------------------------------ MGM (RFC 9058)
static Bytes gfmul(const Bytes &x, const Bytes &y, int n) {
    Bytes r(n, 0), v = x;
    for (int bit = 0; bit < n * 8; bit++) {
        int byte = n - 1 - bit / 8;
        if (y[byte] >> (bit % 8) & 1) for (int j = 0; j < n; j++) r[j] ^= v[j];
        dbl(v.data(), n, poly_of(n));
    }
    return r;
}
static void inc_half(uint8_t *p, int len) { for (int j = len - 1; j >= 0; j--) if (++p[j]) break; }
Bytes mgm(const Block &b, const Bytes &nonce, const View &aad, bool enc, const Bytes &in, Bytes &tag) {
    int n = b.n; Bytes out(in.size());
    Bytes y = nonce; y[0] &= 0x7f; b.enc(y.data(), y.data());
    for (size_t i = 0; i < in.size(); i += n) {
        uint8_t ks[16]; b.enc(y.data(), ks);
        for (size_t j = 0; j < (size_t)n && i + j < in.size(); j++) out[i + j] = in[i + j] ^ ks[j];
        inc_half(&y[n / 2], n / 2);
    }
    const Bytes &ct = enc ? out : in;
    Bytes z = nonce; z[0] |= 0x80; b.enc(z.data(), z.data());
    Bytes sum(n, 0);
    auto absorb = [&](const uint8_t *p, size_t len) {
        Bytes blk(n, 0), h(n); memcpy(blk.data(), p, len);
        b.enc(z.data(), h.data());
        Bytes m = gfmul(h, blk, n);
        for (int j = 0; j < n; j++) sum[j] ^= m[j];
        inc_half(&z[0], n / 2);
    };
    for (size_t i = 0; i < aad.size(); i += n) absorb(&aad[i], std::min<size_t>(n, aad.size() - i));
    for (size_t i = 0; i < ct.size(); i += n) absorb(&ct[i], std::min<size_t>(n, ct.size() - i));
    uint8_t len[16] = { 0 }; uint64_t la = aad.size() * 8, lc = ct.size() * 8;
    for (int j = 0; j < n / 2; j++) { len[n / 2 - 1 - j] = la >> (8 * j); len[n - 1 - j] = lc >> (8 * j); }
    absorb(len, n);
    tag.assign(n, 0); b.enc(sum.data(), tag.data());
    return out;
}
// ------------------------------------------------------------------ Streebog
static uint64_t LT[8][256]; static bool sinit_done = false;
static void sinit() {
    if (sinit_done) return;
    for (int k = 0; k < 8; k++) for (int x = 0; x < 256; x++) {
        uint64_t r = 0;
        for (int i = 0; i < 8; i++) if (x >> (7 - i) & 1) r ^= STREEBOG_A[(7 - k) * 8 + i];
        LT[k][x] = r;      // byte k (little endian position) of the word
    }
    sinit_done = true;
}
struct V512 { uint64_t w[8]; };
static V512 LPSX(const V512 &a, const V512 &b) {
    uint8_t s[64], p[64]; V512 x, r;
    for (int i = 0; i < 8; i++) x.w[i] = a.w[i] ^ b.w[i];
    for (int i = 0; i < 64; i++) s[i] = PI[(x.w[i / 8] >> (8 * (i % 8))) & 255];
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) p[i * 8 + j] = s[j * 8 + i];
    for (int i = 0; i < 8; i++) { r.w[i] = 0; for (int j = 0; j < 8; j++) r.w[i] ^= LT[j][p[i * 8 + j]]; }
    return r;
}
static V512 gN(const V512 &N, const V512 &h, const V512 &m) {
    V512 K = LPSX(h, N), T = m;
    for (int i = 0; i < 12; i++) { T = LPSX(K, T); V512 C; memcpy(C.w, STREEBOG_C[i], 64); K = LPSX(K, C); }
    V512 r; for (int i = 0; i < 8; i++) r.w[i] = K.w[i] ^ T.w[i] ^ h.w[i] ^ m.w[i];
    return r;
}
static void add(V512 &a, const V512 &b) {
    unsigned __int128 c = 0;
    for (int i = 0; i < 8; i++) { c += a.w[i]; c += b.w[i]; a.w[i] = (uint64_t)c; c >>= 64; }
}
Bytes streebog(int bits, const View &in) {
    sinit();
    V512 h, N = {}, S = {}, Z = {};
    memset(&h, bits == 256 ? 1 : 0, sizeof h);
    size_t i = 0;
    for (; in.size() - i >= 64; i += 64) {
        V512 m; memcpy(&m, &in[i], 64);
        h = gN(N, h, m); V512 l = {}; l.w[0] = 512; add(N, l); add(S, m);
    }
    uint8_t b[64] = { 0 }; size_t r = in.size() - i; if (r) memcpy(b, &in[i], r); b[r] = 1;
    V512 m; memcpy(&m, b, 64);
    h = gN(N, h, m); V512 l = {}; l.w[0] = r * 8; add(N, l); add(S, m);
    h = gN(Z, h, N); h = gN(Z, h, S);
    Bytes o((uint8_t *)&h, (uint8_t *)&h + 64);
    if (bits == 256) return Bytes(o.begin() + 32, o.end());
    return o;
}
// ------------------------------------------------------------------ GOST R 34.11-94 (CryptoPro S-box)
typedef std::array<uint8_t, 32> W32;
static W32 A94(const W32 &y) { W32 r; for (int i = 0; i < 24; i++) r[i] = y[i + 8]; for (int i = 0; i < 8; i++) r[24 + i] = y[i] ^ y[8 + i]; return r; }
static W32 P94(const W32 &y) { W32 r; for (int i = 0; i < 4; i++) for (int k = 0; k < 8; k++) r[i + 4 * k] = y[8 * i + k]; return r; }
static W32 X94(const W32 &a, const W32 &b) { W32 r; for (int i = 0; i < 32; i++) r[i] = a[i] ^ b[i]; return r; }
static W32 psi(const W32 &y, int times) {
    W32 r = y;
    while (times--) {
        uint8_t lo = r[0] ^ r[2] ^ r[4] ^ r[6] ^ r[24] ^ r[30], hi = r[1] ^ r[3] ^ r[5] ^ r[7] ^ r[25] ^ r[31];
        for (int i = 0; i < 30; i++) r[i] = r[i + 2];
        r[30] = lo; r[31] = hi;
    }
    return r;
}
static W32 chi(int sb, const W32 &H, const W32 &M) {
    // C3 = ff00ffff000000ff ff0000ff00ffff00 ff00ff00ff00ff00 ff00ff00... (most significant byte first)
    static const uint8_t C3[32] = { 0x00,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0x00,
                                    0x00,0xff,0xff,0x00,0xff,0x00,0x00,0xff,0xff,0x00,0x00,0x00,0xff,0xff,0x00,0xff };
    W32 U = H, V = M, S;
    for (int j = 0; j < 4; j++) {
        if (j) {
            U = A94(U); if (j == 2) for (int i = 0; i < 32; i++) U[i] ^= C3[i];
            V = A94(A94(V));
        }
        W32 K = P94(X94(U, V));
        Gost89 g(sb, K.data());
        g.enc(&H[8 * j], &S[8 * j]);
    }
    return psi(X94(H, psi(X94(M, psi(S, 12)), 1)), 61);
}
Bytes gost94(const View &in, int sb) {
    W32 H{}, S{};
    auto addS = [&](const W32 &m) { int c = 0; for (int i = 0; i < 32; i++) { c += S[i] + m[i]; S[i] = c; c >>= 8; } };
    for (size_t i = 0; i < in.size(); i += 32) {
        W32 m{}; memcpy(m.data(), &in[i], std::min<size_t>(32, in.size() - i));
        H = chi(sb, H, m); addS(m);
    }
    if (in.empty()) H = chi(sb, H, W32{});
    W32 l{}; uint64_t bits = in.size() * 8ULL; for (int i = 0; i < 8; i++) l[i] = bits >> (8 * i);
    H = chi(sb, H, l); H = chi(sb, H, S);
    return Bytes(H.begin(), H.end());
}
Bytes hmac(int bits, const Bytes &key0, const Bytes &in) {
    Bytes k = key0; if (k.size() > 64) k = streebog(bits, k); k.resize(64, 0);
    Bytes a(64), b(64); for (int i = 0; i < 64; i++) { a[i] = k[i] ^ 0x36; b[i] = k[i] ^ 0x5c; }
    a.insert(a.end(), in.begin(), in.end()); Bytes h = streebog(bits, a);
    b.insert(b.end(), h.begin(), h.end()); return streebog(bits, b);
}
Bytes kdftree(const Bytes &key, const std::string &label, const Bytes &seed, size_t outlen, int R) {
    Bytes out; uint64_t L = outlen * 8; Bytes lb;
    for (int i = 7; i >= 0; i--) { uint8_t c = L >> (8 * i); if (c || !lb.empty()) lb.push_back(c); }
    for (size_t i = 1; out.size() < outlen; i++) {
        Bytes m; for (int j = R - 1; j >= 0; j--) m.push_back(i >> (8 * j));
        m.insert(m.end(), label.begin(), label.end()); m.push_back(0);
        m.insert(m.end(), seed.begin(), seed.end()); m.insert(m.end(), lb.begin(), lb.end());
        Bytes h = hmac(256, key, m); out.insert(out.end(), h.begin(), h.end());
    }
    out.resize(outlen); return out;
}
Bytes tlstree(bool kuz, const Bytes &key, const uint8_t seq[8]) {
    static const uint64_t CK[3] = { 0xFFFFFFFF00000000ULL, 0xFFFFFFFFFFF80000ULL, 0xFFFFFFFFFFFFFFC0ULL };
    static const uint64_t CM[3] = { 0xFFFFFFC000000000ULL, 0xFFFFFFFFFE000000ULL, 0xFFFFFFFFFFFFF000ULL };
    uint64_t s = 0; for (int i = 0; i < 8; i++) s = s << 8 | seq[i];
    Bytes k = key;
    for (int l = 0; l < 3; l++) {
        uint64_t v = s & (kuz ? CK[l] : CM[l]); Bytes sd(8); for (int i = 0; i < 8; i++) sd[i] = v >> (56 - 8 * i);
        k = kdftree(k, strf("level%d", l + 1), sd, 32);
    }
    return k;
}
// ------------------------------------------------------------------ key wrapping
Bytes cp_diversify(int sb, const Bytes &kek, const Bytes &ukm) {
    Bytes k = kek;
    for (int i = 0; i < 8; i++) {
        uint32_t s1 = 0, s2 = 0;
        for (int j = 0; j < 8; j++) (ukm[i] >> j & 1 ? s1 : s2) += le32(&k[4 * j]);
        Bytes iv(8); st32(&iv[0], s1); st32(&iv[4], s2);
        k = cfb89(sb, false, k, iv, true, k);
    }
    return k;
}
Bytes cp_wrap(int sb, const Bytes &kek, const Bytes &ukm, const Bytes &cek) {
    Bytes k = cp_diversify(sb, kek, ukm); Gost89 g(sb, k.data());
    Bytes o = ukm, e = ecb(g, true, cek);
    o.insert(o.end(), e.begin(), e.end());
    Bytes st = ukm;
    for (int i = 0; i < 32; i += 8) { for (int j = 0; j < 8; j++) st[j] ^= cek[i + j]; g.mac16(st.data()); }
    o.insert(o.end(), st.begin(), st.begin() + 4);
    return o;
}
Bytes kexp15(bool kuz, const Bytes &cek, const Bytes &kenc, const Bytes &kmac, const Bytes &iv) {
    auto m = mkblock(kuz, kmac.data()), e = mkblock(kuz, kenc.data());
    Bytes d = iv; d.insert(d.end(), cek.begin(), cek.end());
    Bytes t = cmac(*m, d), p = cek; p.insert(p.end(), t.begin(), t.end());
    return ctr(*e, iv, p);
}
// ------------------------------------------------------------------ self test
static Bytes H(const char *s) {
    Bytes b; int hi = -1;
    for (; *s; s++) {
        int v = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10 : -1;
        if (v < 0) continue;
        if (hi < 0) hi = v; else { b.push_back(hi << 4 | v); hi = -1; }
    }
    return b;
}
std::string selftest() {
    std::string f;
#define CK(name, a, b) do { if ((a) != (b)) f += std::string(name) + " got " + hex(a) + "; "; } while (0)
    Bytes kk = H("8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef");
    Bytes pp = H("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011");
    Kuz k(kk.data());
    CK("kuz ecb", ecb(k, true, pp), H("7f679d90bebc24305a468d42b9d4edcdb429912c6e0032f9285452d76718d08bf0ca33549d247ceef3f5a5313bd4b157d0b09ccde830b9eb3a02c4c5aa8ada98"));
    CK("kuz ecb dec", ecb(k, false, ecb(k, true, pp)), pp);
    CK("kuz ctr", ctr(k, H("1234567890abcef0"), pp), H("f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4a5eae88be6356ed3d5e877f13564a3a5cb91fab1f20cbab6d1c6d15820bdba73"));
    Bytes km = cmac(k, pp); km.resize(8);
    CK("kuz mac", km, H("336f4d296059fbe3"));
    Bytes mk = H("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff");
    Bytes mp = H("92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41");
    Magma m(mk.data());
    CK("magma ecb", ecb(m, true, mp), H("2b073f0494f372a0de70e715d3556e4811d8d9e9eacfbc1e7c68260996c67efb"));
    CK("magma ctr", ctr(m, H("12345678"), mp), H("4e98110c97b7b93c3e250d93d6e85d69136d868807b2dbef568eb680ab52a12d"));
    Bytes mm = cmac(m, mp); mm.resize(4);
    CK("magma mac", mm, H("154e7210"));
    Bytes m1; for (int i = 0; i < 63; i++) m1.push_back('0' + i % 10);
    CK("streebog256 M1", streebog(256, m1), H("9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500"));
    CK("streebog512 M1", streebog(512, m1), H("1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48"));
    std::string t = "This is message, length=32 bytes";
    CK("gost94", gost94(Bytes(t.begin(), t.end())), H("2cefc2f7b7bdc514e18ea57fa74ff357e7fa17d652c75f69cb1be7893ede48eb"));
    { Bytes m; for (int i = 0; i < 100; i++) for (char c : std::string("Test data to digest.\n")) m.push_back(c); Bytes d = gost94(m, S_TEST94); std::reverse(d.begin(), d.end()); CK("gost94 test", d, H("db9232d96cae7aaba817350ef6cf4c25604d8fd36965f78ceb3ce59fd31ccb2a")); }
    CK("gost94 empty", gost94(Bytes()), H("3f25bc1fbbce27ca10fb1958f319473ae7e17482c3b53ecf47a7e2de8aabe4c8"));
    // RFC 9058 A.1 (Kuznyechik MGM)
    Bytes tag, a = H("0202020202020202010101010101010104040404040404040303030303030303ea0505050505050505");
    Bytes P = H("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011aabbcc");
    CK("kuz mgm ct", mgm(k, H("1122334455667700ffeeddccbbaa9988"), a, true, P, tag), H("a9757b8147956e9055b8a33de89f42fc8075d2212bf9fd5bd3f7069aadc16b39497ab15915a6ba85936b5d0ea9f6851cc60c14d4d3f883d0ab94420695c76deb2c7552"));
    CK("kuz mgm tag", tag, H("cf5d656f40c34f5c46e8bb0e29fcdb4c"));
    // R 50.1.113-2016 KDF_TREE
    Bytes kin; for (int i = 0; i < 32; i++) kin.push_back(i);
    CK("kdftree", kdftree(kin, std::string("\x26\xbd\xb8\x78", 4), H("af21434145656378"), 64),
       H("22b6837845c6bef65ea71672b265831086d3c76aebe6dae91cad51d83f79d16b074c9330599d7f8d712fca54392f4ddde93751206b3584c8f43f9e6dc51531f9"));
    // RFC 8645 magma/kuz CTR-ACPKM
    Bytes ap = H("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a001133445566778899aabbcceeff0a001122445566778899aabbcceeff0a001122335566778899aabbcceeff0a0011223344");
    CK("kuz ctr acpkm", ctr(k, H("1234567890abcef0"), ap, 32), H("f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee44bceeb8f646f4c55001706275e85e800587c4df568d094393e4834afd0805046cf30f57686aeece11cfc6c316b8a896edffd07ec813636460c4f3b743423163e6409a9c282fac8d469d221e7fbd6de5d"));
#undef CK
    return f;
}
}
