#include <malloc.h>
#include "core.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <unordered_map>
#include <sys/mman.h>
#include <openssl/crypto.h>
#include <openssl/rand.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/evp.h>

Bytes derive_bytes(uint64_t seed, uint64_t tag, size_t n) {
    Rng r(mix64(seed * 0x9e3779b97f4a7c15ULL + 77, tag));
    return r.bytes(n);
}
uint64_t mix64(uint64_t a, uint64_t b) {
    uint64_t x = a ^ (b * 0xff51afd7ed558ccdULL + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2));
    return Rng::splitmix(x);
}
std::string hex(const uint8_t *p, size_t n) {
    static const char d[] = "0123456789abcdef";
    std::string s; size_t m = n > 200 ? 200 : n;
    for (size_t i = 0; i < m; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    if (m < n) s += "..";
    return s;
}
static std::string vstrf(const char *fmt, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}
std::string strf(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap); return s;
}

std::string Plan::text() const {
    std::string s = "plan 1\nprop " + prop + "\nscen " + scen + "\nseed " + std::to_string(seed) + "\n";
    for (auto &o : ops) {
        s += "op " + o.k;
        for (auto v : o.a) s += " " + std::to_string(v);
        s += "\n";
    }
    return s + "end\n";
}
bool Plan::parse(const std::string &t, Plan &out) {
    std::istringstream in(t);
    std::string line; bool end = false;
    out = Plan();
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w; l >> w;
        if (w == "prop") l >> out.prop;
        else if (w == "scen") l >> out.scen;
        else if (w == "seed") l >> out.seed;
        else if (w == "op") {
            Op o; l >> o.k; long long v;
            while (l >> v) o.a.push_back(v);
            out.ops.push_back(o);
        } else if (w == "end") { end = true; break; }
    }
    return end && !out.scen.empty();
}

static inline void hadd(uint64_t &h, const char *p, size_t n) {
    for (size_t i = 0; i < n; i++) { h ^= (uint8_t)p[i]; h *= 1099511628211ULL; }
}
void Ctx::log(const char *fmt, ...) {
    char buf[4096];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n < 0) n = 0;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    hadd(loghash, buf, n); hadd(loghash, "\n", 1);
    if (verbose) { fprintf(stderr, "[%llu] %s\n", (unsigned long long)steps, buf); }
}
void Ctx::logb(const char *what, const uint8_t *p, size_t n) {
    hadd(loghash, what, strlen(what)); hadd(loghash, (const char *)p, n); hadd(loghash, "\n", 1);
    if (verbose) fprintf(stderr, "[%llu] %s (%zu) %s\n", (unsigned long long)steps, what, n, hex(p, n).c_str());
}
void Ctx::violate(const char *cls, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); std::string m = vstrf(fmt, ap); va_end(ap);
    throw Violation{cls, m};
}
void Ctx::op(const char *name) {
    steps++;
    strncpy(sim::crash_op, name, 60);
    hadd(loghash, name, strlen(name)); hadd(loghash, "\n", 1);
    if (sim::trail) sim::trail->push_back({name, loghash});
    if (verbose) fprintf(stderr, "[%llu] op %s\n", (unsigned long long)steps, name);
}
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
std::vector<PropInfo> &propinfos() { static std::vector<PropInfo> v; return v; }

extern "C" void ENGINE_load_gost(void);

namespace sim {
char *crash_op;
RandState rnd;
AllocState al;
DepState dep;
uint64_t now = 1700000000;
unsigned char fill = 0xA5;
std::vector<std::pair<std::string, uint64_t>> *trail;
void (*yield_hook)(int, const void *) = nullptr;
int tid = 0;                                  // simulated thread that is running
void *(*raw_malloc)(size_t) = malloc;         // replaced by the build that runs threads
void *(*raw_realloc)(void *, size_t) = realloc;
void (*raw_free)(void *) = free;
size_t (*raw_size)(void *) = malloc_usable_size;

struct Blk { uint64_t seq; std::string file; int line; size_t n; }; // the file name may belong to a module that is unloaded
static std::unordered_map<void *, Blk> *live;
static bool tracking = false;
static uint64_t seq = 0;
static int both_mode = 0; // shared counter for kind 3

bool is_engine_file(const char *f) {
    if (!f) return false;
    const char *b = strrchr(f, '/');
    b = b ? b + 1 : f;
    if (!strncmp(f, "../", 3) || !strncmp(f, "crypto/", 7) || !strncmp(f, "ssl/", 4) || !strncmp(f, "providers/", 10)) return false;
    if (strstr(f, "/verif/")) return false;
    return !strncmp(b, "gost", 4) || !strncmp(b, "e_gost", 6) || !strncmp(b, "ecp_id", 6) || f[0] == '/';
}
static bool fault_alloc(const char *file, int line) {
    if (!al.armed) return false;
    if (al.engine_only && !is_engine_file(file)) return false;
    if (al.sturdy_only && file && (strstr(file, "crypto/objects/") || strstr(file, "crypto/lhash/"))) return false; // libcrypto ignores these failures
    uint64_t c;
    if (both_mode) c = dep.calls++;
    else c = al.calls++;
    if (al.fail_from >= 0 && (long long)c >= al.fail_from && (long long)c < al.fail_from + al.fail_count) {
        al.failed++;
        { const char *b = file ? strrchr(file, '/') : nullptr; al.last = strf("%s:%d", b ? b + 1 : file ? file : "?", line); }
        return true;
    }
    return false;
}
static void note(void *p, size_t n, const char *file, int line) {
    if (tracking && p) (*live)[p] = Blk{++seq, file ? file : "?", line, n};
}
static void *s_malloc(size_t n, const char *file, int line) {
    if (yield_hook) yield_hook(1, file);
    if (fault_alloc(file, line)) return NULL;
    void *p = raw_malloc(n ? n : 1);
    // uninitialised memory has fixed, non-zero contents
    if (p) memset(p, fill, n);
    note(p, n, file, line);
    return p;
}
SecretState secrets;
static void look_for_secrets(void *p, const char *file, int line) {
    if (!tracking) return;
    size_t n = malloc_usable_size(p); secrets.released++; secrets.bytes += n;
    for (auto &k : secrets.needles) if (n >= k.second.size() && memmem(p, n, k.second.data(), k.second.size())) {
        bool was = tracking; tracking = false; auto b = live->find(p);
        auto bn = [](const char *f) { const char *s = f ? strrchr(f, '/') : nullptr; return s ? s + 1 : f ? f : "?"; };
        secrets.hits.push_back(strf("%s in %zu bytes allocated at %s:%d released at %s:%d", k.first.c_str(), n, b == live->end() ? "?" : bn(b->second.file.c_str()), b == live->end() ? 0 : b->second.line, bn(file), line));
        tracking = was;
    }
}
static void s_free(void *p, const char *file, int line) {
    if (yield_hook) yield_hook(2, file);
    if (secrets.on && p) look_for_secrets(p, file, line);
    if (tracking && p) live->erase(p);
    raw_free(p);
}
static void *s_realloc(void *p, size_t n, const char *file, int line) {
    if (!p) return s_malloc(n, file, line);
    if (n == 0) { s_free(p, file, line); return NULL; }
    if (fault_alloc(file, line)) return NULL;
    if (secrets.on) look_for_secrets(p, file, line);
    if (tracking) live->erase(p);
    size_t old = raw_size(p);
    void *q = raw_realloc(p, n);
    if (!q) abort();
    if (n > old) memset((char *)q + old, fill, n - old);
    note(q, n, file, line);
    return q;
}
void track_begin() { live->clear(); tracking = true; }
void track_end() { tracking = false; live->clear(); }
size_t track_live(std::string *desc, bool engine_only) {
    bool was = tracking; tracking = false;
    std::map<std::pair<std::string, int>, size_t> m;
    size_t n = 0;
    for (auto &kv : *live) {
        const char *f = kv.second.file.c_str();
        if (engine_only && !is_engine_file(f)) continue;
        if (strstr(f, "crypto/err/") || strstr(f, "crypto/initthread") || strstr(f, "crypto/threads")) continue;
        const char *b = strrchr(f, '/');
        m[{b ? b + 1 : f, kv.second.line}]++;
        n++;
    }
    if (desc) for (auto &kv : m) *desc += strf("%s:%d x%zu; ", kv.first.first.c_str(), kv.first.second, kv.second);
    tracking = was;
    return n;
}

static int r_bytes(unsigned char *buf, int num) {
    uint64_t c = rnd.calls++;
    if (rnd.fail_from >= 0 && (long long)c >= rnd.fail_from && (long long)c < rnd.fail_from + rnd.fail_count) {
        rnd.failed++;
        return rnd.fail_ret;
    }
    if (num <= 0) return 1;
    rnd.bytes += num;
    if (rnd.forced_pos < rnd.forced.size()) {
        Bytes &f = rnd.forced[rnd.forced_pos++];
        int sh = rnd.forced_be ? num - (int)f.size() : 0;
        for (int i = 0; i < num; i++) buf[i] = i >= sh && i - sh < (int)f.size() ? f[i - sh] : 0;
    } else rnd.prng.fill(buf, num);
    if (rnd.recording) rnd.record.insert(rnd.record.end(), buf, buf + num);
    return 1;
}
static int r_status(void) { return 1; }
static int r_seed(const void *, int) { return 1; }
static int r_add(const void *, int, double) { return 1; }
static RAND_METHOD meth = { r_seed, r_bytes, NULL, r_add, r_bytes, r_status };

void init_process() {
    crash_op = (char *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    live = new std::unordered_map<void *, Blk>();
    if (!CRYPTO_set_mem_functions(s_malloc, s_realloc, s_free)) {
        fprintf(stderr, "CRYPTO_set_mem_functions refused\n");
        exit(2);
    }
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_NO_ATEXIT | OPENSSL_INIT_LOAD_CRYPTO_STRINGS, NULL);
    RAND_set_rand_method(&meth);
}
void load_engine() {
    ENGINE_load_gost();
    ENGINE *e = ENGINE_by_id("gost");
    if (!e || !ENGINE_set_default(e, ENGINE_METHOD_ALL)) { fprintf(stderr, "engine not loaded\n"); exit(2); }
    ENGINE_free(e);
    ERR_clear_error();
}
void reset_run(uint64_t seed) {
    rnd = RandState();
    rnd.prng.reseed(mix64(seed, 0x52414e44));
    al = AllocState();
    dep = DepState();
    both_mode = 0;
    now = 1700000000;
}
void Faults::arm(int kind, long long from, long long count) {
    al = AllocState(); dep = DepState(); both_mode = kind == 3;
    if (kind & 1) { al.armed = true; al.fail_from = from; al.fail_count = count; }
    if (kind & 2) { dep.armed = true; dep.fail_from = from; dep.fail_count = count; }
}
void Faults::disarm() { al.armed = false; dep.armed = false; }
uint64_t Faults::fired() { return al.failed + dep.failed; }
uint64_t Faults::points() { return both_mode ? dep.calls : al.calls + dep.calls; }
std::string err_text() {
    std::string s; unsigned long e; char b[256];
    while ((e = ERR_get_error())) { ERR_error_string_n(e, b, sizeof b); s += b; s += "|"; }
    return s;
}
}

bool dep_observe_only(unsigned id);
unsigned dep_count();
// a BN_CTX_get that failed keeps failing until its frame is released, as in libcrypto
static int bn_depth, bn_bad;
static int id_start = -2, id_end = -2, id_get = -2;
static bool count_dep(unsigned id) {
    uint64_t c = sim::dep.calls++;
    if (sim::dep.fail_from >= 0 && (long long)c >= sim::dep.fail_from
        && (long long)c < sim::dep.fail_from + sim::dep.fail_count) {
        sim::dep.failed++;
        sim::dep.last = dep_name(id);
        return true;
    }
    return false;
}
// called by the trampolines through which engine objects reach libcrypto
extern "C" int sim_dep_hook(unsigned id) {
    if (sim::yield_hook) sim::yield_hook(3, nullptr);
    if (!sim::dep.armed) { bn_depth = bn_bad = 0; return 0; }
    if (id_start == -2) {
        id_start = id_end = id_get = -1;
        for (unsigned i = 0; i < dep_count(); i++) {
            if (!strcmp(dep_name(i), "BN_CTX_start")) id_start = i;
            if (!strcmp(dep_name(i), "BN_CTX_end")) id_end = i;
            if (!strcmp(dep_name(i), "BN_CTX_get")) id_get = i;
        }
    }
    if ((int)id == id_start) { bn_depth++; return 0; }
    if ((int)id == id_end) { if (bn_bad == bn_depth) bn_bad = 0; if (bn_depth) bn_depth--; return 0; }
    if (dep_observe_only(id)) return 0;
    if ((int)id == id_get) {
        if (bn_bad && bn_depth >= bn_bad) { sim::dep.calls++; return 1; }
        if (count_dep(id)) { bn_bad = bn_depth ? bn_depth : 1; return 1; }
        return 0;
    }
    return count_dep(id);
}
// the clock libcrypto and libssl read
#include <time.h>
extern "C" time_t time(time_t *t) noexcept { time_t v = (time_t)sim::now; if (t) *t = v; return v; }
