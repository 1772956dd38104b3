#include "lib.h"
ENGINE *gost_e;
ENGINE *lib_engine() {
    if (!gost_e) gost_e = ENGINE_by_id("gost");
    return gost_e;
}
size_t chunk_len(uint64_t cls, uint64_t r) {
    switch (cls % CH_N) {
    case 0: return 0;
    case 1: return 1 + r % 3;
    case 2: return 1 + r % 15;
    case 3: { static const size_t k[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65 }; return k[r % 12]; }
    case 4: return 8 * (1 + r % 16);
    case 5: return 16 * (1 + r % 16);
    case 6: return 64 * (1 + r % 8);
    case 7: return 1 + r % 130;
    case 8: return 1 + r % 700;
    case 9: { static const size_t k[] = { 1016, 1023, 1024, 1025, 1032, 2048, 4095, 4096, 4097, 512, 1040, 256 }; return k[r % 12]; }
    case 10: return 1 + r % 3000;
    default: return 8 * (r % 200) + r % 2;
    }
}
size_t msg_len(Rng &r, bool thorough) {
    switch (r.below(10)) {
    case 0: return r.below(4);
    case 1: return r.below(40);
    case 2: case 3: return r.below(140);
    case 4: return 8 * r.below(40);
    case 5: return 1024 * (1 + r.below(3)) + r.range(-9, 9);
    case 6: return 4096 * (1 + r.below(2)) + r.range(-17, 17);
    case 7: return r.below(3000);
    case 8: return r.below(thorough ? 20000 : 6000);
    default: return r.below(600);
    }
}
Bytes mkdata(uint64_t seed, uint64_t tag, size_t n, unsigned kind) {
    Bytes b = derive_bytes(seed, tag, n);
    Rng r(mix64(seed, tag + 99));
    switch (kind % DK_N) {
    case 1: std::fill(b.begin(), b.end(), 0xff); break;
    case 2: std::fill(b.begin(), b.end(), 0); break;
    case 3: // carry-prone: words from a few values
        for (size_t i = 0; i < n; i += 8) {
            int w = r.below(6);
            for (size_t j = i; j < i + 8 && j < n; j++)
                b[j] = w <= 2 ? 0xff : w == 3 ? 0 : w == 4 ? (j == i) : b[j];
        }
        break;
    case 4: for (size_t i = 0; i < n; i++) b[i] = 0xff - (r.below(40) == 0); break;
    case 5: for (size_t i = 0; i < n; i++) b[i] &= r.chance(1, 3) ? 0x80 : 0xff; break;
    }
    return b;
}
const EVP_MD *eng_md(int nid) { return ENGINE_get_digest(lib_engine(), nid); }
const EVP_CIPHER *eng_cipher(int nid) { return ENGINE_get_cipher(lib_engine(), nid); }
const CipherAlg cipher_algs[] = {
    { "gost89", 1, 8, CK_GOST89, false, CM_CFB89 },
    { "gost89-cbc", 8, 8, CK_GOST89, false, CM_CBC89 },
    { "gost89-cnt", 1, 8, CK_GOST89, false, CM_CNT89 },
    { "gost89-cnt-12", 1, 8, CK_GOST89, false, CM_CNT89 },
    { "magma-ecb", 8, 0, CK_KUZMAGMA, false, CM_ECB },
    { "magma-cbc", 8, 8, CK_KUZMAGMA, false, CM_CBC },
    { "magma-ctr", 1, 4, CK_KUZMAGMA, false, CM_CTR },
    { "magma-ctr-acpkm", 1, 4, CK_KUZMAGMA, false, CM_ACPKM },
    { "kuznyechik-ecb", 16, 0, CK_KUZMAGMA, true, CM_ECB },
    { "kuznyechik-cbc", 16, 16, CK_KUZMAGMA, true, CM_CBC },
    { "kuznyechik-cfb", 1, 16, CK_KUZMAGMA, true, CM_CFB },
    { "kuznyechik-ofb", 1, 16, CK_KUZMAGMA, true, CM_OFB },
    { "kuznyechik-ctr", 1, 8, CK_KUZMAGMA, true, CM_CTR },
    { "kuznyechik-ctr-acpkm", 1, 8, CK_KUZMAGMA, true, CM_ACPKM },
};
const int n_cipher_algs = sizeof cipher_algs / sizeof *cipher_algs;
const char *sbox_names[] = { nullptr, nullptr, "id-Gost28147-89-TestParamSet", "id-Gost28147-89-CryptoPro-A-ParamSet",
    "id-Gost28147-89-CryptoPro-B-ParamSet", "id-Gost28147-89-CryptoPro-C-ParamSet", "id-Gost28147-89-CryptoPro-D-ParamSet",
    "id-tc26-gost-28147-param-Z" };
Bytes ref_cipher(const CipherAlg &a, int sbox, long mesh, const Bytes &key, const Bytes &iv, bool enc, const Bytes &in) {
    switch (a.mode) {
    case CM_CFB89: return ref::cfb89(sbox, mesh != 0, key, iv, enc, in);
    case CM_CNT89: return ref::cnt89(sbox, mesh != 0, key, iv, in);
    case CM_CBC89: return ref::cbc(ref::Gost89(sbox, key.data()), iv, enc, in);
    }
    auto b = ref::mkblock(a.kuz, key.data());
    switch (a.mode) {
    case CM_ECB: return ref::ecb(*b, enc, in);
    case CM_CBC: return ref::cbc(*b, iv, enc, in);
    case CM_CFB: return ref::cfb(*b, iv, enc, in);
    case CM_OFB: return ref::ofb(*b, iv, in);
    case CM_CTR: return ref::ctr(*b, iv, in, 0);
    default: return ref::ctr(*b, iv, in, mesh);
    }
}
