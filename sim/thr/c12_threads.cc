// C12: threads with their own objects get the results they would get alone, under every schedule.
#include "thr.h"
#include "../ops.h"
#include <sys/wait.h>
#include <unistd.h>
#include <stdlib.h>
#include <map>
namespace {
struct Out { bool ok = false; Bytes out; std::string err; };
struct TOp { int op; OpArgs a; uint64_t seed; std::string name; };
void put(Bytes &o, const void *p, size_t n) { o.push_back(n >> 8); o.push_back(n); o.insert(o.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
void puti(Bytes &o, int v) { put(o, &v, sizeof v); }
// ---- operations beyond the library's
// a key keeps the name of its curve, whatever other keys on curves with the same parameters do
bool x_names(OpObj &o, const OpArgs &a, Bytes &out) {
    int ka = a.v[0] % 4; auto &cs = ka_curves(ka); const Curve &c = curve(cs[a.v[1] % cs.size()]);
    o.k = a.v[2] & 1 ? key_gen(ka, c, a.v[2] & 2) : key_import(ka, c, Bn::be(derive_bytes(a.seed, 1, c.len)) % c.q);
    if (!o.k) return false;
    for (int i = 0; i < 2; i++) {
        const EC_KEY *e = (const EC_KEY *)EVP_PKEY_get0(o.k); puti(out, e ? EC_GROUP_get_curve_name(EC_KEY_get0_group(e)) : -1);
        uint8_t *d = NULL; int l = i2d_PUBKEY(o.k, &d); if (l > 0) put(out, d, l); OPENSSL_free(d);
        if (i == 0 && a.v[2] & 4) { o.k2 = key_import(ka, curve(cs[a.v[3] % cs.size()]), Bn(77)); if (!o.k2) return false; puti(out, EVP_PKEY_get_bits(o.k2)); }
    }
    return true;
}
bool x_lookup(OpObj &o, const OpArgs &a, Bytes &out) {
    for (int i = 0; i < 6; i++) {
        const CipherAlg &ca = cipher_algs[(a.v[0] + i) % n_cipher_algs]; const EVP_CIPHER *c = a.v[1] & 1 ? EVP_get_cipherbyname(ca.sn) : ENGINE_get_cipher(lib_engine(), OBJ_sn2nid(ca.sn)); if (!c) return false;
        puti(out, EVP_CIPHER_get_nid(c)); puti(out, EVP_CIPHER_get_block_size(c)); puti(out, EVP_CIPHER_get_iv_length(c));
        static const int mds[] = { NID_id_GostR3411_94, NID_id_GostR3411_2012_256, NID_id_GostR3411_2012_512, NID_id_Gost28147_89_MAC, NID_gost_mac_12, NID_magma_mac, NID_kuznyechik_mac };
        const EVP_MD *m = ENGINE_get_digest(lib_engine(), mds[(a.v[2] + i) % 7]); if (!m) return false; puti(out, EVP_MD_get_type(m)); puti(out, EVP_MD_get_size(m));
    }
    ENGINE *e = ENGINE_by_id("gost"); bool ok = e && ENGINE_init(e); if (ok) ENGINE_finish(e); ENGINE_free(e);
    return ok;
}
// many small digests and ciphers in a row: the inner loops under frequent switches
bool x_stream(OpObj &o, const OpArgs &a, Bytes &out) {
    const CipherAlg &ca = cipher_algs[a.v[0] % n_cipher_algs]; Bytes k = derive_bytes(a.seed, 1, 32), iv = derive_bytes(a.seed, 2, 16), d = derive_bytes(a.seed, 3, 48 * (1 + a.v[1] % 60)); uint8_t b[4096]; int l = 0, n = 0;
    o.ci = EVP_CIPHER_CTX_new(); if (EVP_CipherInit_ex(o.ci, eng_cipher(OBJ_sn2nid(ca.sn)), lib_engine(), k.data(), iv.data(), a.v[2] & 1) != 1) return false; EVP_CIPHER_CTX_set_padding(o.ci, 0);
    for (size_t i = 0; i < d.size(); i += 48) { if (EVP_CipherUpdate(o.ci, b + n, &l, d.data() + i, 48) != 1) return false; n += l; }
    put(out, b, n);
    static const int mds[] = { NID_id_GostR3411_94, NID_id_GostR3411_2012_256, NID_id_GostR3411_2012_512 }; unsigned u = 0;
    o.md = EVP_MD_CTX_new(); if (EVP_DigestInit_ex(o.md, eng_md(mds[a.v[3] % 3]), lib_engine()) != 1) return false;
    for (size_t i = 0; i < d.size(); i += 24) EVP_DigestUpdate(o.md, d.data() + i, 24);
    if (EVP_DigestFinal_ex(o.md, b, &u) != 1) return false; put(out, b, u); return true;
}
struct X { const char *name; bool (*act)(OpObj &, const OpArgs &, Bytes &); } xops[] = { { "names", x_names }, { "lookup", x_lookup }, { "stream", x_stream } };
enum { NX = 3, MAXT = 4 };
Out perform(const TOp &t) {
    Out r; OpObj o; sim::rnd = sim::RandState(); sim::rnd.prng.reseed(t.seed); thr::op_name(t.name.c_str());
    if (t.op < NX) r.ok = xops[t.op].act(o, t.a, r.out);
    else { op_material(t.op - NX, t.a); sim::rnd = sim::RandState(); sim::rnd.prng.reseed(t.seed + 1); r.ok = eng_ops[t.op - NX].act(o, t.a, r.out); }
    r.err = sim::err_text(); o.release(); ERR_clear_error();
    return r;
}
typedef std::vector<std::vector<Out>> All;
// what libcrypto keeps for itself once per process, more or less of it as its own first uses fall
bool infrastructure(const std::string &f) {
    static const char *n[] = { "stack.c", "lhash.c", "property", "provider", "core_", "context.c", "ex_data.c", "sparse_array.c", "evp_fetch.c", "initthread.c", "threads_" };
    for (auto *x : n) if (!f.compare(0, strlen(x), x)) return true;
    return f.find("meth.c:") != std::string::npos && f.compare(0, 4, "gost");
}
std::map<std::string, int> live_map() { // what is still allocated, by place
    std::map<std::string, int> m; std::string l; sim::track_live(&l); size_t i = 0, j;
    while ((j = l.find("; ", i)) != std::string::npos) { std::string e = l.substr(i, j - i); size_t k = e.rfind(" x"); if (!infrastructure(e)) m[e.substr(0, k)] += atoi(e.c_str() + k + 2); i = j + 2; }
    return m;
}
thr::Result go(const std::vector<std::vector<TOp>> &ops, const std::vector<thr::Switch> &s, All &all, std::map<std::string, int> &live, bool verbose) {
    all.assign(ops.size(), {}); std::vector<std::function<void()>> b;
    for (size_t t = 0; t < ops.size(); t++) { all[t].reserve(ops[t].size()); b.push_back([&, t] { for (auto &o : ops[t]) all[t].push_back(perform(o)); }); }
    sim::track_begin(); thr::Result r = thr::run(b, s, verbose); live = live_map(); sim::track_end();
    return r;
}
void gen(Rng &r, Plan &p, bool th) {
    auto N = [&](int n) { return (long long)r.below(n); };
    int nt = 2 + r.below(3), per = 1 + r.below(th ? 4 : 2), mode = r.below(8);
    if (r.chance(1, 3)) p.add("env", { 1 + N(3), N(4) });
    long long op = 0, v[4]; uint64_t s = r.next() >> 40;
    auto draw = [&] { op = r.chance(1, 3) ? N(NX) : NX + pick_op(r.next(), false); for (auto &x : v) x = N(1 << 20); };
    draw();
    for (int i = 0; i < per; i++) for (int t = 0; t < nt; t++) {
        // the same operation everywhere on other data, now and then on the same data; with some parameters changed; or anything
        if (mode < 4) { if (t == 0) draw(); } else if (mode < 6) { if (t == 0) draw(); else for (auto &x : v) if (r.chance(1, 3)) x = N(1 << 20); } else draw();
        p.add("do", { t, op, v[0], v[1], v[2], v[3], (long long)(mode == 0 ? s : r.next() >> 40) });
    }
    // one kind of point per schedule, since a rare kind holds up the switches after it
    int sc = r.below(5), on = r.chance(1, 2) ? 0 : 1 + r.below(2);
    static const int lim[3][6] = { { 3, 25, 200, 2000, 20000, 100000 }, { 1, 1, 2, 2, 5, 30 }, { 2, 5, 20, 80, 300, 3000 } };
    for (int i = 0, n = 1 + r.below(th ? 120 : 40); i < n; i++) p.add("sw", { N(lim[on][r.chance(2, 3) ? sc : r.below(6)]), N(12), on });
}
void exec(const Plan &p, Ctx &c) {
    static const char *env[] = { "GOST_PK_FORMAT", "GOST_PBE_HMAC", "CRYPT_PARAMS" };
    static const char *val[3][4] = { { "LEGACY_PK_WRAP", "NULL", "nonsense", "LEGACY_PK_WRAP" }, { "md_gost12_256", "md_gost94", "md_gost12_512", "md_gost12_256" }, { "id-Gost28147-89-CryptoPro-B-ParamSet", "id-tc26-gost-28147-param-Z", "id-Gost28147-89-CryptoPro-D-ParamSet", "id-Gost28147-89-CryptoPro-A-ParamSet" } };
    std::vector<std::vector<TOp>> ops; std::vector<thr::Switch> sw;
    curve(0); lib_engine();
    for (auto &o : p.ops) {
        if (o.k == "env") { int i = (o.arg(0) + 2) % 3; setenv(env[i], val[i][o.mod(1, 4)], 1); c.count("environment_settings"); }
        else if (o.k == "do") {
            size_t t = o.mod(0, MAXT); if (ops.size() <= t) ops.resize(t + 1);
            TOp x; x.op = o.mod(1, NX + n_eng_ops); if (x.op >= NX && !eng_ops[x.op - NX].thread_ok) continue;
            for (int i = 0; i < 4; i++) x.a.v[i] = (unsigned)o.arg(2 + i);
            x.a.seed = mix64(p.seed, o.arg(6)); x.seed = mix64(x.a.seed, 7); x.name = x.op < NX ? xops[x.op].name : eng_ops[x.op - NX].name; ops[t].push_back(x); c.count("operations"); c.count("op." + x.name);
        } else if (o.k == "sw") sw.push_back({ (uint32_t)o.arg(0), (uint32_t)o.arg(1), (uint32_t)o.mod(2, 3) });
    }
    if (ops.empty()) return;
    // alone: the same threads, one after the other, in a process of their own
    int pf[2]; if (pipe(pf)) _exit(7);
    c.op("alone");
    pid_t kid = fork();
    if (!kid) {
        close(pf[0]); All all; std::map<std::string, int> live; go(ops, {}, all, live, false); Bytes b;
        auto w = [&](const void *q, uint32_t n) { b.insert(b.end(), (uint8_t *)&n, (uint8_t *)&n + 4); b.insert(b.end(), (const uint8_t *)q, (const uint8_t *)q + n); };
        for (auto &t : all) for (auto &o : t) { uint8_t k = o.ok; w(&k, 1); w(o.out.data(), o.out.size()); w(o.err.data(), o.err.size()); }
        for (auto &l : live) { w(l.first.data(), l.first.size()); w(&l.second, 4); }
        size_t at = 0; while (at < b.size()) { ssize_t n = write(pf[1], b.data() + at, b.size() - at); if (n <= 0) break; at += n; }
        _exit(0);
    }
    close(pf[1]); Bytes b; uint8_t buf[65536]; ssize_t n; while ((n = read(pf[0], buf, sizeof buf)) > 0) b.insert(b.end(), buf, buf + n); close(pf[0]);
    int st; waitpid(kid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) c.violate("crash-alone", "the threads run one after the other died: %d", st);
    size_t at = 0; auto rd = [&]() { Bytes x; if (at + 4 > b.size()) return x; uint32_t k; memcpy(&k, b.data() + at, 4); at += 4; x.assign(b.begin() + at, b.begin() + at + k); at += k; return x; };
    All want(ops.size()), got; std::map<std::string, int> wl, gl;
    for (size_t t = 0; t < ops.size(); t++) for (size_t i = 0; i < ops[t].size(); i++) { Out o; Bytes k = rd(); o.ok = k.size() && k[0]; o.out = rd(); Bytes e = rd(); o.err.assign(e.begin(), e.end()); want[t].push_back(o); }
    while (at < b.size()) { Bytes k = rd(), v = rd(); int x = 0; if (v.size() == 4) memcpy(&x, v.data(), 4); wl[std::string(k.begin(), k.end())] = x; }
    c.op("together");
    thr::Result r = go(ops, sw, got, gl, c.verbose);
    c.steps += r.points; c.count("points", r.points); c.count("fault.preemption", r.preemptions); c.count("waits_for_a_lock", r.blocked); c.count("accesses_to_globals", r.globals); c.count("accesses_to_foreign_memory", r.foreign);
    c.mixsig(r.sig); c.nontrivial = r.preemptions > 0;
    for (size_t t = 0; t < ops.size(); t++) for (size_t i = 0; i < ops[t].size(); i++) {
        Out &g = got[t][i], &w = want[t][i]; TOp &o = ops[t][i]; c.count(w.ok ? "succeeded_alone" : "refused_alone"); c.logb(o.name.c_str(), g.out);
        if (g.ok != w.ok) c.violate("verdict-differs", "thread %zu, operation %zu, %s(%u,%u,%u,%u): %s together, %s alone: %s%s", t, i, o.name.c_str(), o.a.v[0], o.a.v[1], o.a.v[2], o.a.v[3], g.ok ? "succeeds" : "fails", w.ok ? "succeeds" : "fails", g.err.c_str(), w.err.c_str());
        if (g.ok && g.out != w.out) { size_t j = 0; while (j < g.out.size() && j < w.out.size() && g.out[j] == w.out[j]) j++; c.violate("result-differs", "thread %zu, operation %zu, %s(%u,%u,%u,%u): %zu bytes together, %zu alone, first difference at %zu", t, i, o.name.c_str(), o.a.v[0], o.a.v[1], o.a.v[2], o.a.v[3], g.out.size(), w.out.size(), j); }
    }
    std::string more; for (auto &l : gl) { auto it = wl.find(l.first); int a = it == wl.end() ? 0 : it->second; if (l.second > a) more += strf("%s: %d, %d alone; ", l.first.c_str(), l.second, a); }
    if (!more.empty()) c.violate("leak", "more is left allocated than after the same operations one after the other: %s", more.c_str());
}
RegScenario r({ "C12", "threads", 1, gen, exec, true });
RegProp pr({ "C12", "exploration", "A run is 2 to 4 threads, each doing its own operations (any of the engine's 28 concurrent-safe operations, key and curve names, look-ups, streams) on its own objects in a process in which nothing was used before, under a seeded schedule of preemptions at single accesses to writable globals or another thread's memory, allocations, releases and library calls of the engine; results, remaining allocations and verdicts are compared with the same threads run one after the other in another process; released memory is never used again so that late uses are seen; distinct = hash of the sequence of (operation, kind of point, next thread) at the switches",
    { "the engine's code, compiled so that its memory accesses are announced", "libcrypto" }, { "thread scheduler", "locks and once-initialisation (pthread interface)", "memory allocator", "random source" }, { "libcrypto itself is safe for threads: it is not interrupted except where it calls the engine or waits for a lock", "memory accesses take effect in program order" }, 10000, 600000 });
}
