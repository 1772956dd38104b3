// Messages so long that their length in bits or bytes no longer fits 32 bits, counters that carry into their top byte, and
// the longest message a mode allows. The message is a 16 MB pattern mapped again and again; what it must give was computed
// once by the references (SIM_BIGTAB=FILE writes the table anew).
#include "../lib.h"
#include <sys/mman.h>
#include <unistd.h>
namespace {
const size_t PAT = 1 << 24;
const uint8_t *message(size_t n) {
    size_t k = n / PAT + 1; int fd = memfd_create("message", 0); Bytes d = derive_bytes(0xb16b16, 1, PAT);
    if (fd < 0 || write(fd, d.data(), PAT) != (ssize_t)PAT) _exit(71);
    uint8_t *b = (uint8_t *)mmap(NULL, k * PAT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) _exit(72);
    for (size_t i = 0; i < k; i++) if (mmap(b + i * PAT, PAT, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(73);
    close(fd); return b;
}
uint8_t at(size_t i) { static Bytes d = derive_bytes(0xb16b16, 1, PAT); return d[i % PAT]; }
Bytes key() { return derive_bytes(0xb16b16, 2, 32); }
struct Case { const char *prop, *alg; size_t len; const char *want; };
const Case table[] = {
#include "../bigtab.inc"
};
const Case *find(const char *prop, int i) { for (auto &t : table) if (!strcmp(t.prop, prop) && !i--) return &t; return NULL; }
int many(const char *prop) { int n = 0; for (auto &t : table) n += !strcmp(t.prop, prop); return n; }
Bytes reference(const std::string &a, const uint8_t *m, size_t n) {
    ref::View v(m, n); Bytes k = key();
    if (a == "md_gost94") return ref::gost94(v);
    if (a == "md_gost12_256") return ref::streebog(256, v);
    if (a == "md_gost12_512") return ref::streebog(512, v);
    if (a == "gost-mac") return sub(ref::mac89(ref::S_A, true, k, v), 0, 4);
    if (a == "gost-mac-12") return sub(ref::mac89(ref::S_Z, true, k, v), 0, 4);
    if (a == "magma-mac") return ref::cmac(*ref::mkblock(false, k.data()), v);
    if (a == "kuznyechik-mac") return ref::cmac(*ref::mkblock(true, k.data()), v);
    if (a == "kuznyechik-ctr-acpkm-omac") return ref::kuz_acpkm_omac(k, Bytes(m, m + n));
    if (a == "magma-mgm") { Bytes t; ref::mgm(*ref::mkblock(false, k.data()), sub(k, 0, 8), v, true, Bytes(), t); return t; }
    return {};
}
// pieces of the message: one, two, or many
std::vector<size_t> pieces(size_t n, int how, uint64_t r, size_t most) {
    std::vector<size_t> v; Rng g(r);
    if (how % 3 == 0 && n <= most) return { n };
    for (size_t left = n; left;) { size_t c = how % 3 == 2 ? 1 + g.below(1 << 20) : how % 3 == 1 && v.empty() ? 1 + g.below(100) : most; c = std::min(std::min(c, left), most); v.push_back(c); left -= c; }
    return v;
}
void gen(Rng &r, Plan &p, bool th) { int n = std::max(1, many(p.prop.c_str())); p.add("long", { (long long)(sim::run_index % n), (long long)((sim::run_index / n + r.below(3)) % 3), (long long)(r.next() >> 40) }); }
void exec(const Plan &p, Ctx &c) {
    for (auto &o : p.ops) {
        int n = many(p.prop.c_str()); const Case *t = find(p.prop.c_str(), o.mod(0, n)); const uint8_t *m = message(t->len); Bytes out(64), k = key(); bool ok; c.op(t->alg);
        if (const char *tab = getenv("SIM_BIGTAB")) { FILE *f = fopen(tab, "a"); fprintf(f, "{ \"%s\", \"%s\", %zuULL, \"%s\" },\n", t->prop, t->alg, t->len, hex(reference(t->alg, m, t->len)).c_str()); fclose(f); continue; }
        int how = o.mod(1, 3); c.mixsig(o.mod(0, n) * 4 + how); std::vector<size_t> ps; size_t pos = 0;
        if (p.prop == "C04") {
            EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l; ps = pieces(t->len, *t->want ? how & 2 : how & 1, o.arg(2), 0x7ffffff0);
            ok = EVP_EncryptInit_ex(x, eng_cipher(OBJ_txt2nid(t->alg)), NULL, k.data(), k.data()) == 1;
            bool split = !*t->want && ps.size() > 1; void *to = split ? mmap(NULL, t->len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : NULL;   // the rest is data
            for (size_t s : ps) { ok = ok && EVP_EncryptUpdate(x, split && pos ? (uint8_t *)to : NULL, &l, m + pos, s) == 1; pos += s; }
            if (to) munmap(to, t->len);
            if (!*t->want) {
                if (ok) c.violate("too-long-accepted", "%s: %zu bytes of associated data%s accepted: their number of bits does not fit the block of lengths", t->alg, t->len, split ? " and data" : "");
                sim::err_text(); EVP_CIPHER_CTX_free(x); c.count("too_long_refused"); c.nontrivial = true; continue;
            }
            out.resize(8); ok = ok && EVP_EncryptFinal_ex(x, out.data(), &l) == 1 && EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 8, out.data()) == 1; EVP_CIPHER_CTX_free(x);
        } else {
            EVP_MD_CTX *x = EVP_MD_CTX_new(); unsigned l = 0; ps = pieces(t->len, how, o.arg(2), ~0ULL); ok = EVP_DigestInit_ex(x, eng_md(OBJ_txt2nid(t->alg)), NULL) == 1;
            if (p.prop == "C03") ok = ok && EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_SET_KEY, 32, k.data()) == 1;
            for (size_t s : ps) { ok = ok && EVP_DigestUpdate(x, m + pos, s) == 1; pos += s; }
            ok = ok && EVP_DigestFinal_ex(x, out.data(), &l) == 1; out.resize(l); EVP_MD_CTX_free(x);
        }
        if (!ok || hex(out) != t->want) c.violate("long-message", "%s of %zu bytes in %zu pieces: %s%s, should be %s", t->alg, t->len, ps.size(), ok ? hex(out).c_str() : "refused: ", ok ? "" : sim::err_text().c_str(), t->want);
        c.nontrivial = true; c.count("long_messages"); c.count("long_message_MB", t->len >> 20); c.logb(t->alg, out); munmap((void *)m, (t->len / PAT + 1) * PAT);
    }
}
// counter mode: the reference computes any part of the stream, so a few places are compared
struct Cc { const char *alg; bool kuz; size_t section; };
const Cc cs[] = { { "magma-ctr", false, 0 }, { "kuznyechik-ctr", true, 0 }, { "magma-ctr-acpkm", false, 1024 }, { "kuznyechik-ctr-acpkm", true, 4096 } };
void gen_ctr(Rng &r, Plan &p, bool th) { p.add("long", { (long long)(sim::run_index % 4), (long long)r.below(1 << 20), (long long)(r.next() >> 40), (long long)r.below(2) }); }
void exec_ctr(const Plan &p, Ctx &c) {
    for (auto &o : p.ops) {
        const Cc &a = cs[o.mod(0, 4)]; int n = a.kuz ? 16 : 8; size_t len = ((size_t)n << 24) + (o.arg(1) & 0xfffff) + 100; Bytes k = derive_bytes(p.seed, 0xb16, 32), iv = derive_bytes(p.seed, 0xb17, n / 2), out(1 << 22), in(1 << 22); c.op(a.alg);
        std::vector<size_t> marks; for (size_t b = 1 << 8; b <= 1 << 24; b <<= 8) marks.push_back(b * n);
        auto b = ref::mkblock(a.kuz, k.data()); auto cur = ref::mkblock(a.kuz, k.data()); size_t sec = 0;
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); Rng g(o.arg(2)); if (EVP_CipherInit_ex(x, eng_cipher(OBJ_txt2nid(a.alg)), NULL, k.data(), iv.data(), o.mod(3, 2)) != 1) c.violate("init-failed", "%s: %s", a.alg, sim::err_text().c_str());
        for (size_t pos = 0; pos < len;) {
            size_t s = std::min<size_t>(len - pos, 1 + g.below(out.size())); int l = 0; for (size_t i = 0; i < s; i++) in[i] = at(pos + i);
            if (EVP_CipherUpdate(x, out.data(), &l, in.data(), s) != 1 || (size_t)l != s) c.violate("update-failed", "%s: %zu bytes at %zu: %s", a.alg, s, pos, sim::err_text().c_str());
            auto look = [&](size_t i) {
                if (i < pos || i >= pos + s) return; size_t blk = i / n; uint8_t ctr[16] = { 0 }, ks[16]; memcpy(ctr, iv.data(), n / 2); for (int j = 0; j < n / 2; j++) ctr[n - 1 - j] = j < 8 ? blk >> (8 * j) : 0;
                if (a.section) while (sec < i / a.section) { Bytes d(32); for (int j = 0; j < 32; j++) d[j] = 0x80 + j; cur = [&] { Bytes e(32); for (int j = 0; j < 32; j += n) cur->enc(&d[j], &e[j]); return cur->rekey(e.data()); }(); sec++; }
                cur->enc(ctr, ks); if (out[i - pos] != (uint8_t)(in[i - pos] ^ ks[i % n])) c.violate("stream-mismatch", "%s differs from the reference %zu bytes (%zu blocks) into the stream", a.alg, i, blk);
            };
            std::vector<size_t> look_at; for (size_t mk : marks) for (size_t i = mk - 40; i < mk + 40; i++) look_at.push_back(i); for (int i = 0; i < 50; i++) look_at.push_back(pos + g.below(s)); for (size_t i = pos + s - std::min<size_t>(s, 20); i < pos + s; i++) look_at.push_back(i);
            std::sort(look_at.begin(), look_at.end()); for (size_t i : look_at) look(i); pos += s;
        }
        EVP_CIPHER_CTX_free(x); c.nontrivial = true; c.count("long_messages"); c.count("long_message_MB", len >> 20); c.mixsig(o.mod(0, 4)); c.log("%s", a.alg);
    }
}
RegScenario r1({ "C01", "long", 0, gen, exec, true, 3, 9 });
RegScenario r2({ "C03", "long", 0, gen, exec, true, 4, 12 });
RegScenario r3({ "C04", "long", 0, gen, exec, true, 6, 14 });
RegScenario r4({ "C02", "long", 0, gen_ctr, exec_ctr, true, 4, 12 });
}
