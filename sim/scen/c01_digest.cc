// C01: digests depend only on the bytes delivered.
#include "../lib.h"
namespace {
struct Alg { int nid; int len; int block; };
const Alg algs[] = { { NID_id_GostR3411_2012_256, 32, 64 }, { NID_id_GostR3411_2012_512, 64, 64 }, { NID_id_GostR3411_94, 32, 32 } };
Bytes refhash(int a, const Bytes &m) { return a == 0 ? ref::streebog(256, m) : a == 1 ? ref::streebog(512, m) : ref::gost94(m); }
enum { NS = 4 };
struct S { EVP_MD_CTX *c = nullptr; bool live = false; int alg = -1; Bytes data; int upd = 0; };

void gen(Rng &r, Plan &p, bool th) {
    int ns = 1 + r.below(NS), steps = 6 + r.below(th ? 40 : 22);
    bool faults = r.chance(1, 3);
    int only = r.chance(1, 2) ? (int)r.below(3) : -1;
    int maxcls = r.pick(std::vector<int>{ 6, 8, 9, 12 });
    int kinds = r.chance(1, 2) ? 1 : DK_N;
    auto alg = [&] { return only >= 0 ? only : (int)r.below(3); };
    for (int i = 0; i < ns; i++) p.add("init", { i, alg(), (long long)r.below(3), 0 });
    for (int i = 0; i < steps; i++) {
        int s = r.below(ns);
        switch (r.below(16)) {
        case 0: p.add("init", { s, alg(), (long long)r.below(3), faults ? (long long)r.below(5) : 0 }); break;
        case 1: p.add("copy", { s, (long long)r.below(ns), faults ? (long long)r.below(6) : 0, (long long)r.below(2) }); break;
        case 2: p.add("fin", { s, (long long)r.below(2) }); break;
        case 3: p.add("reset", { s, (long long)r.below(2) }); break;
        default: {
            long long cls = r.below(maxcls);
            if (r.chance(1, 4)) p.add("align", { s, (long long)r.below(2), (long long)r.below(5) - 2, (long long)r.below(kinds), (long long)r.below(16), (long long)(r.next() >> 40) });
            else p.add("upd", { s, cls, (long long)r.below(4000), (long long)r.below(kinds), (long long)r.below(16), (long long)(r.next() >> 40) });
        }
        }
    }
}
void deliver(S &s, const Bytes &d, unsigned mis, Ctx &c) {
    Buf b(d, mis);
    c.op("digest_update");
    int rc = EVP_DigestUpdate(s.c, b.p, b.n);
    if (rc != 1) { s.live = false; c.count("update_refused"); return; }
    s.data.insert(s.data.end(), d.begin(), d.end());
    s.upd++;
    c.mixsig(s.alg); c.mixsig(s.data.size() % algs[s.alg].block); c.mixsig(d.size() > 64 ? 65 : d.size());
}
void check(S &s, Ctx &c, bool ex) {
    uint8_t out[EVP_MAX_MD_SIZE]; unsigned n = 0;
    memset(out, 0xEE, sizeof out);
    c.op("digest_final");
    int rc = ex ? EVP_DigestFinal_ex(s.c, out, &n) : EVP_DigestFinal(s.c, out, &n);
    if (rc != 1) c.violate("final-failed", "final refused on a healthy session of alg %d", s.alg);
    Bytes want = refhash(s.alg, s.data), got(out, out + n);
    if (n != (unsigned)algs[s.alg].len) c.violate("digest-length", "alg %d returned %u bytes", s.alg, n);
    if (got != want) c.violate("digest-mismatch", "alg %d, %zu bytes in %d updates: got %s want %s", s.alg, s.data.size(), s.upd, hex(got).c_str(), hex(want).c_str());
    for (size_t i = n; i < sizeof out; i++) if (out[i] != 0xEE) c.violate("digest-overrun", "alg %d wrote past its %u bytes", s.alg, n);
    c.logb("digest", got);
    c.count("finals");
    if (s.upd >= 2 && s.data.size()) c.nontrivial = true;
    s.live = false;
    if (!ex) s.alg = -1;
}
void exec(const Plan &p, Ctx &c) {
    S ss[NS];
    for (auto &s : ss) s.c = EVP_MD_CTX_new();
    for (auto &o : p.ops) {
        S &s = ss[o.mod(0, NS)];
        if (o.k == "init") {
            int a = o.mod(1, 3), how = o.mod(2, 3);
            if (o.arg(3) > 0) { sim::Faults::arm(1, o.arg(3) - 1, 1); sim::al.engine_only = false; }
            c.op("digest_init"); c.mixsig(100 + a);
            int rc;
            const EVP_MD *md = eng_md(algs[a].nid);
            if (how == 0 || s.alg != a) rc = EVP_DigestInit_ex(s.c, md, lib_engine());
            else if (how == 1) rc = EVP_DigestInit_ex(s.c, md, NULL);
            else rc = EVP_DigestInit_ex(s.c, NULL, NULL);
            sim::Faults::disarm();
            if (sim::Faults::fired()) c.count("fault.alloc_in_init");
            if (rc != 1) {
                if (!sim::Faults::fired()) c.violate("init-failed", "init of alg %d refused: %s", a, sim::err_text().c_str());
                EVP_MD_CTX_reset(s.c); s.live = false; s.alg = -1; continue;
            }
            s.live = true; s.alg = a; s.data.clear(); s.upd = 0;
        } else if (o.k == "upd" && s.live) {
            deliver(s, mkdata(p.seed, o.arg(5), chunk_len(o.arg(1), o.arg(2)), o.arg(3)), o.mod(4, 16), c);
        } else if (o.k == "align" && s.live) {
            // bring the total near a block boundary, then one or more whole blocks
            size_t bs = algs[s.alg].block;
            long long n = (long long)(bs - s.data.size() % bs) % bs + (long long)bs * o.arg(1) + o.arg(2);
            if (n < 0) n = 0;
            deliver(s, mkdata(p.seed, o.arg(5), n, o.arg(3)), o.mod(4, 16), c);
        } else if (o.k == "copy" && s.live) {
            S &d = ss[o.mod(1, NS)];
            if (&d == &s) continue;
            if (o.arg(2) > 0) { sim::Faults::arm(1, o.arg(2) - 1, 1); sim::al.engine_only = false; }
            c.op("digest_copy");
            int rc = o.arg(3) ? EVP_MD_CTX_copy(d.c, s.c) : EVP_MD_CTX_copy_ex(d.c, s.c);
            sim::Faults::disarm();
            if (sim::Faults::fired()) c.count("fault.alloc_in_copy");
            c.mixsig(200 + s.upd % 8);
            if (rc != 1) {
                if (!sim::Faults::fired()) c.violate("copy-failed", "copy refused: %s", sim::err_text().c_str());
                EVP_MD_CTX_free(d.c); d = S(); d.c = EVP_MD_CTX_new(); continue;
            }
            c.count("copies");
            EVP_MD_CTX *dc = d.c; d = s; d.c = dc;
        } else if (o.k == "fin" && s.live) check(s, c, o.arg(1));
        else if (o.k == "reset") {
            c.op("digest_reset"); c.count("fault.session_abandoned");
            if (o.arg(1)) { EVP_MD_CTX_free(s.c); s.c = EVP_MD_CTX_new(); } else EVP_MD_CTX_reset(s.c);
            s.live = false; s.alg = -1;
        }
    }
    for (auto &s : ss) if (s.live) check(s, c, true);
    for (auto &s : ss) EVP_MD_CTX_free(s.c);
}

// Delivery through a file source that may fail: a digest BIO over a simulated reader.
struct Src { Bytes d; size_t off; Rng r; long long fail_at; int mode; uint64_t shorts, fails; };
int src_read(BIO *b, char *out, int n) {
    Src *s = (Src *)BIO_get_data(b);
    BIO_clear_retry_flags(b);
    if (n <= 0) return 0;
    if (s->fail_at >= 0 && (long long)s->off >= s->fail_at) { s->fails++; if (s->mode) { BIO_set_retry_read(b); s->fail_at = -1; } return -1; }
    size_t k = std::min<size_t>(n, s->d.size() - s->off);
    if (s->fail_at >= 0) k = std::min<size_t>(k, s->fail_at - s->off);
    if (k > 1 && s->r.chance(2, 3)) { k = 1 + s->r.below(k); s->shorts++; }
    memcpy(out, s->d.data() + s->off, k); s->off += k;
    return (int)k;
}
long src_ctrl(BIO *, int cmd, long, void *) { return cmd == BIO_CTRL_FLUSH ? 1 : 0; }
void gen_bio(Rng &r, Plan &p, bool th) {
    p.add("bio", { (long long)r.below(3), (long long)msg_len(r, th), (long long)r.below(DK_N), (long long)(r.next() >> 40),
                   r.chance(1, 2) ? -1 : (long long)r.below(3000), (long long)r.below(2), (long long)r.below(1500) + 1 });
}
void exec_bio(const Plan &p, Ctx &c) {
    for (auto &o : p.ops) {
        int a = o.mod(0, 3);
        Src s{ mkdata(p.seed, o.arg(3), o.mod(1, 40000), o.arg(2)), 0, Rng(p.seed + 5), o.arg(4), (int)o.mod(5, 2), 0, 0 };
        BIO_METHOD *m = BIO_meth_new(BIO_TYPE_SOURCE_SINK | 90, "sim source");
        BIO_meth_set_read(m, src_read); BIO_meth_set_ctrl(m, src_ctrl);
        BIO *src = BIO_new(m), *md = BIO_new(BIO_f_md());
        BIO_set_data(src, &s); BIO_set_init(src, 1);
        c.op("bio_digest");
        if (BIO_set_md(md, eng_md(algs[a].nid)) <= 0) c.violate("init-failed", "BIO_set_md: %s", sim::err_text().c_str());
        BIO_push(md, src);
        Bytes buf(o.mod(6, 4096) + 1); size_t got = 0; bool failed = false;
        for (int guard = 0; guard < 100000; guard++) {
            int n = BIO_read(md, buf.data(), buf.size());
            c.steps++;
            if (n > 0) got += n;
            else if (n < 0 && BIO_should_retry(md)) continue;
            else { failed = n < 0; break; }
        }
        c.count("fault.short_read", s.shorts); c.count("fault.read_error", s.fails);
        uint8_t out[64]; EVP_MD_CTX *x; BIO_get_md_ctx(md, &x); unsigned n = 0;
        if (EVP_DigestFinal_ex(x, out, &n) != 1) c.violate("final-failed", "final refused");
        Bytes want = refhash(a, sub(s.d, 0, got));
        if (Bytes(out, out + n) != want) c.violate("digest-mismatch", "alg %d over %zu delivered bytes (source failed: %d)", a, got, failed);
        if (!failed && got != s.d.size()) c.violate("delivery-lost", "%zu of %zu bytes", got, s.d.size());
        c.logb("digest", out, n); c.mixsig(a); c.mixsig(got % 64); c.mixsig(s.shorts); c.mixsig(s.fails);
        c.nontrivial |= s.shorts > 0;
        BIO_free_all(md); BIO_meth_free(m);
    }
}
RegScenario r1({ "C01", "sessions", 6, gen, exec, true });
RegScenario r2({ "C01", "source", 1, gen_bio, exec_bio, true });
RegProp p1({ "C01", "exploration",
    "A run is a seeded history of up to 4 interleaved digest sessions (init, update in chunks of every class around the block size at every alignment, copy, abandon, re-init, final; allocation faults in init and copy; failing and short reads from a simulated source), each final compared with an independent one-shot reference over exactly the bytes delivered. Non-trivial: some session finalised after at least two updates of real data.",
    { "gosthash2012.c", "gosthash.c", "gost_md2012.c", "gost_md.c", "gost89.c", "gost_eng.c registration", "libcrypto EVP digest layer" },
    { "memory allocator", "byte source (BIO)", "random source" },
    { "the reference digests were written from the standards and pass the published vectors", "messages up to 40000 bytes, a few of 512 MB and 4 GB" },
    9000, 400000 });
}
