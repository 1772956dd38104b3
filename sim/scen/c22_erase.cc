// C22: memory that is released holds no keys.
// The allocator is the seam: every block given back while an operation runs, fails and is taken down is searched for the
// secrets the operation worked with, which the references compute independently.
#include "../ops.h"
#include <set>
#include <openssl/provider.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
extern "C" int GOST_provider_init(const OSSL_CORE_HANDLE *, const OSSL_DISPATCH *, const OSSL_DISPATCH **, void **);
namespace {
OpArgs args(const Op &o, size_t at, uint64_t seed) { OpArgs a; a.seed = mix64(seed, o.arg(at + 4)); for (int i = 0; i < 4; i++) a.v[i] = (unsigned)o.arg(at + i); return a; }
void reseed(uint64_t s) { sim::rnd = sim::RandState(); sim::rnd.prng.reseed(mix64(s, 0x0b5e55ed)); sim::rnd.recording = true; }
struct Guard { ~Guard() { sim::Faults::disarm(); sim::rnd.fail_from = -1; sim::secrets.on = false; sim::track_end(); } };
void gen(Rng &r, Plan &p, bool th) {
    int n = 1 + r.below(th ? 6 : 3);
    for (int i = 0; i < n; i++) {
        std::vector<long long> a{ (long long)pick_op(r.next(), false) };
        for (int j = 0; j < 4; j++) a.push_back(r.below(1 << 20));
        a.push_back(r.next() >> 40);
        a.push_back(r.below(5));                        // kind of fault: none, allocation, library call, either, random source
        a.push_back(r.chance(1, 3) ? 1 + r.below(4) : 1);
        a.push_back(r.below(4));                        // bit 0: retry on the same objects, bit 1: everything later fails
        a.push_back(r.next() >> 40);                    // where
        a.push_back(2 + r.below(th ? 20 : 6));          // attempts
        p.add("erase", a);
    }
}
// the engine asked for the memory or gave it back, itself or as a number or string of libcrypto's; buffers of libcrypto's own
// readers and writers and of the harness are theirs to erase
bool of_the_engine(const std::string &h) {
    auto file = [&](const char *w) { size_t i = h.find(w); i = i == std::string::npos ? h.size() : i + strlen(w); return h.substr(i, h.find(':', i) - i); };
    std::string by = file("allocated at "), to = file("released at ");
    auto eng = [](const std::string &f) { return f.compare(0, 4, "gost") == 0 || f.compare(0, 6, "ecp_id") == 0; };
    return eng(by) || eng(to) || to == "asn1_lib.c" || to == "bn_lib.c";
}
void watch(std::vector<std::pair<std::string, Bytes>> v) {
    auto &S = sim::secrets; S.needles.clear(); S.hits.clear();
    for (auto &s : v) for (size_t i = 0; i + 16 <= s.second.size(); i += 16) {
        Bytes f(s.second.begin() + i, s.second.begin() + i + 16); if (std::set<uint8_t>(f.begin(), f.end()).size() < 5) continue;
        S.needles.push_back({ s.first, f }); std::reverse(f.begin(), f.end()); S.needles.push_back({ s.first, f });
    }
    S.on = true;
}
void judge(Ctx &c, const char *name, const OpArgs &a, const std::string &how) {
    auto &S = sim::secrets; S.on = false;
    for (auto &h : S.hits) {
        if (!of_the_engine(h)) { c.count("seen_elsewhere"); continue; }
        c.violate(("left:" + h.substr(0, h.find(' '))).c_str(), "%s(%u,%u,%u,%u)%s: %s", name, a.v[0], a.v[1], a.v[2], a.v[3], how.c_str(), h.c_str());
    }
    c.count("blocks_searched", S.released); c.count("bytes_searched", S.bytes); S.released = S.bytes = 0; S.hits.clear();
}
void exec(const Plan &p, Ctx &c) {
    for (auto &o : p.ops) {
        Guard gd; OpObj x; OpArgs a = args(o, 1, p.seed); int op = o.mod(0, n_eng_ops); const EngOp &e = eng_ops[op]; std::string nm = e.name;
        int kind = o.mod(6, 5), cnt = 1 + o.mod(7, 4), mode = o.mod(8, 4), reps = std::min<uint64_t>(o.mod(10, 64), 40); uint64_t s = mix64(a.seed, 5); Bytes out;
        c.op(("prepare_" + nm).c_str()); op_material(op, a);
        // what the secrets are
        for (int i = 0; i < 2; i++) { x.release(); out.clear(); reseed(s); c.op(("undisturbed_" + nm).c_str()); if (!e.act(x, a, out)) out.clear(); sim::err_text(); }
        x.release(); auto sec = op_secrets(op, a, sim::rnd.record, out);
        c.count(sec.empty() ? "operations_without_secrets" : ("secrets_of." + nm).c_str()); c.mixsig(nm); for (int i = 0; i < 4; i++) c.mixsig(a.v[i] % 12);
        if (sec.empty()) continue;
        sim::track_begin(); watch(sec); reseed(s); out.clear();
        sim::Faults::arm(kind == 4 ? 0 : kind, -1, 0); bool ok = e.act(x, a, out); sim::Faults::disarm(); uint64_t points = kind == 4 ? sim::rnd.calls : kind ? sim::Faults::points() : 0;
        x.release(); judge(c, e.name, a, ""); sim::track_end(); sim::err_text();
        c.nontrivial = true; c.log("%s %d", e.name, ok); if (!points) continue;
        for (int i = 0; i < reps; i++) {
            uint64_t pos = (uint64_t)(o.arg(9) + i * 0x9e37) % points; long long n = (mode & 2) ? 1000000 : cnt;
            sim::track_begin(); watch(sec); reseed(s); out.clear(); c.op(("faulty_" + nm).c_str());
            if (kind == 4) { sim::rnd.fail_from = pos; sim::rnd.fail_count = n; } else sim::Faults::arm(kind, pos, n);
            ok = e.act(x, a, out); sim::Faults::disarm(); sim::rnd.fail_from = -1;
            uint64_t f = kind == 4 ? sim::rnd.failed : sim::Faults::fired(); std::string w = kind == 4 ? "random source" : !sim::al.last.empty() ? "allocation at " + sim::al.last : sim::dep.last; sim::err_text();
            if (f) c.count(kind == 4 ? "fault.random_source" : sim::al.failed ? "fault.allocation" : "fault.library_call"); c.mixsig(pos * 8 + kind);
            c.log("%s fault kind %d at %llu: %d", e.name, kind, (unsigned long long)pos, ok);
            if (!ok && (mode & 1)) { c.op(("same_objects_" + nm).c_str()); reseed(s); out.clear(); x.reused = true; e.act(x, a, out); sim::err_text(); c.count("retried_same_objects"); }
            c.op(("release_" + nm).c_str()); x.release(); judge(c, e.name, a, " after " + w + " failed"); sim::track_end(); sim::err_text();
        }
    }
}
// the provider front end: contexts that hold keys, copied, keyed again, failing, taken down
const char *pcn[] = { "gost89", "gost89-cnt", "gost89-cnt-12", "gost89-cbc", "kuznyechik-ecb", "kuznyechik-cbc", "kuznyechik-ctr", "magma-cbc", "magma-ctr", "magma-ctr-acpkm", "kuznyechik-ctr-acpkm", "magma-ctr-acpkm-omac",
    "kuznyechik-ctr-acpkm-omac", "magma-mgm", "kuznyechik-mgm" };
const char *pmn[] = { "gost-mac", "gost-mac-12", "magma-mac", "kuznyechik-mac", "kuznyechik-ctr-acpkm-omac" };
void pgen(Rng &r, Plan &p, bool th) {
    int n = 2 + r.below(th ? 12 : 6);
    for (int i = 0; i < n; i++) p.add("ctx", { (long long)r.below(2), (long long)r.below(1 << 16), (long long)r.below(64), (long long)r.below(1 << 20), (long long)r.below(3), (long long)(r.next() >> 40), (long long)(1 + r.below(8)) });
}
void pexec(const Plan &p, Ctx &c) {
    Guard gd; ENGINE_unregister_ciphers(lib_engine()); ENGINE_unregister_digests(lib_engine());
    OSSL_PROVIDER *df = OSSL_PROVIDER_load(NULL, "default"), *P = NULL;
    if (!df || OSSL_PROVIDER_add_builtin(NULL, "gostprov", GOST_provider_init) != 1 || !(P = OSSL_PROVIDER_load(NULL, "gostprov"))) c.violate("load-failed", "the provider does not load: %s", sim::err_text().c_str());
    for (auto &o : p.ops) {
        bool mac = o.mod(0, 2); int alg = o.mod(1, mac ? 5 : 15), how = o.mod(2, 64), kind = o.mod(4, 3); size_t len = 1 + o.mod(3, 3000);
        const char *nm = mac ? pmn[alg] : pcn[alg]; c.op(("fetch_" + std::string(nm)).c_str()); EVP_MAC *fm = mac ? EVP_MAC_fetch(NULL, nm, NULL) : NULL; EVP_CIPHER *fc = mac ? NULL : EVP_CIPHER_fetch(NULL, nm, NULL);
        if (!fm && !fc) c.violate("not-offered", "the provider does not offer %s", nm);
        Bytes k1 = derive_bytes(mix64(p.seed, o.arg(5)), 1, 32), k2 = derive_bytes(mix64(p.seed, o.arg(5)), 2, 32), iv = derive_bytes(p.seed, 3, 16), d = derive_bytes(p.seed, 4, len), b(len + 64); iv[0] &= 0x7f; bool done = false;
        auto run = [&] {
            int l = 0; size_t n = 0; bool ok = false; done = false;
            if (mac) {
                EVP_MAC_CTX *x = EVP_MAC_CTX_new(fm), *y = NULL;
                ok = x && EVP_MAC_init(x, k1.data(), 32, NULL) == 1 && EVP_MAC_update(x, d.data(), len) == 1;
                if (ok && (how & 1)) { y = EVP_MAC_CTX_dup(x); ok = y && EVP_MAC_update(y, d.data(), len) == 1; }
                if (ok && (how & 2)) ok = EVP_MAC_init(x, k2.data(), 32, NULL) == 1 && EVP_MAC_update(x, d.data(), len) == 1;
                if (ok && (how & 4)) ok = EVP_MAC_final(x, b.data(), &n, b.size()) == 1;
                if (ok && (how & 8)) ok = EVP_MAC_init(x, NULL, 0, NULL) == 1;
                done = ok; EVP_MAC_CTX_free(x); EVP_MAC_CTX_free(y);
            } else {
                EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(), *y = EVP_CIPHER_CTX_new();
                ok = x && y && EVP_CipherInit_ex2(x, fc, k1.data(), iv.data(), how & 16 ? 1 : 0, NULL) == 1; if (ok) EVP_CIPHER_CTX_set_padding(x, 0);
                ok = ok && EVP_CipherUpdate(x, b.data(), &l, d.data(), len / 16 * 16) == 1;
                if (ok && (how & 1)) ok = EVP_CIPHER_CTX_copy(y, x) == 1;
                if (ok && (how & 2)) ok = EVP_CipherInit_ex2(x, how & 32 ? fc : NULL, k2.data(), iv.data(), -1, NULL) == 1;
                if (ok && (how & 4)) EVP_CipherFinal_ex(x, b.data(), &l);
                if (ok && (how & 8)) ok = EVP_CIPHER_CTX_reset(x) == 1;
                done = ok; EVP_CIPHER_CTX_free(x); EVP_CIPHER_CTX_free(y);
            }
            sim::err_text();
        };
        run(); std::vector<std::pair<std::string, Bytes>> sec{ { "key", k1 }, { "key", k2 } }; OpArgs a; a.v[0] = how; a.v[1] = len;
        c.op(nm); c.mixsig(std::string(nm)); c.mixsig(how); c.mixsig(len);
        sim::track_begin(); watch(sec); sim::Faults::arm(kind, -1, 0); run(); sim::Faults::disarm(); uint64_t points = kind ? sim::Faults::points() : 0; judge(c, nm, a, " from the provider"); sim::track_end();
        c.log("%s %d", nm, done); c.count(done ? "provider_ok" : "provider_refused"); c.nontrivial = true;
        for (int i = 0; points && i < o.mod(6, 9); i++) {
            uint64_t pos = (uint64_t)(o.arg(5) + i * 0x9e37) % points;
            c.op(("faulty_" + std::string(nm)).c_str()); sim::track_begin(); watch(sec); sim::Faults::arm(kind, pos, 1); sim::al.engine_only = true; run(); sim::Faults::disarm();
            if (sim::Faults::fired()) c.count(sim::al.failed ? "fault.provider_allocation" : "fault.provider_library_call"); judge(c, nm, a, " from the provider, with a failure"); sim::track_end();
        }
        EVP_MAC_free(fm); EVP_CIPHER_free(fc);
    }
    OSSL_PROVIDER_unload(P); OSSL_PROVIDER_unload(df);
}
RegScenario r2({ "C22", "provider", 1, pgen, pexec, true });
RegScenario r1({ "C22", "erase", 4, gen, exec, true });
RegProp p1({ "C22", "exploration",
    "A run takes a few of 30 operations (ciphers, AEAD, MACs, key generation, signatures, agreement, transport and wrapping both ways, reading and writing private keys in every form) with seeded arguments; references compute the secrets it works with (private and ephemeral keys, nonces, content and MAC keys, shared points, agreed and derived keys). Every heap block released while the operation runs and its objects are taken down is searched for them, undisturbed and with an allocation, a library call or the random source failing at seeded points, with retries on the same objects; distinct = hash of operations, arguments and fault positions; non-trivial: an operation with secrets was watched",
    { "the engine", "the provider front end", "libcrypto" }, { "memory allocator (blocks are searched when released)", "random source", "libcrypto functions called by the engine, when failing" },
    { "stack memory is not searched", "buffers of libcrypto's own readers and writers and of the caller are theirs to erase" }, 9000, 300000 });
}
