// Deterministic simulation core: seeded PRNG, plans, run context, seams.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>

typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    static uint64_t splitmix(uint64_t &x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t seed) { for (int i = 0; i < 4; i++) s[i] = splitmix(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long long range(long long a, long long b) { return a + (long long)below((uint64_t)(b - a + 1)); }
    bool chance(int num, int den) { return below(den) < (uint64_t)num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    void fill(uint8_t *p, size_t n) {
        for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(next() >> 24);
    }
    Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; }
};
// Bytes that are a pure function of (seed, tag): shrinking a plan does not reshuffle them.
Bytes derive_bytes(uint64_t seed, uint64_t tag, size_t n);
uint64_t mix64(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- Plans
struct Op {
    std::string k;
    std::vector<long long> a;
    long long arg(size_t i, long long d = 0) const { return i < a.size() ? a[i] : d; }
    // non-negative argument reduced to [0,n)
    uint64_t mod(size_t i, uint64_t n) const { return n ? (uint64_t)arg(i) % n : 0; }
};
struct Plan {
    std::string prop, scen;
    uint64_t seed = 0;      // data seed of this run
    std::vector<Op> ops;
    void add(const std::string &k, std::vector<long long> a = {}) { ops.push_back(Op{k, a}); }
    std::string text() const;
    static bool parse(const std::string &t, Plan &out);
};

// ---------------------------------------------------------------- Run context
struct Violation { std::string cls, msg; };
struct Ctx {
    bool verbose = false;
    uint64_t loghash = 1469598103934665603ULL;
    uint64_t sig = 1469598103934665603ULL;   // interleaving/state signature
    bool nontrivial = false;
    uint64_t steps = 0;                       // simulated time, in scheduler steps
    std::map<std::string, uint64_t> cnt;      // probes and fault counters
    std::vector<std::string> *notes = nullptr;
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void logb(const char *what, const uint8_t *p, size_t n);
    void logb(const char *what, const Bytes &b) { logb(what, b.data(), b.size()); }
    void count(const std::string &k, uint64_t n = 1) { cnt[k] += n; }
    void mixsig(uint64_t v) { sig = mix64(sig, v); }
    void mixsig(const std::string &s) { for (char c : s) sig = mix64(sig, (uint8_t)c); }
    [[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    void op(const char *name);                // records progress; the name goes to the crash class
};
std::string hex(const uint8_t *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- Scenarios
struct Scenario {
    const char *prop;
    const char *name;
    int weight;
    void (*gen)(Rng &, Plan &, bool thorough);
    void (*exec)(const Plan &, Ctx &);
    bool engine;            // engine loaded before the fork
    int lead = 0, lead_thorough = 0;   // that many first runs are of this scenario (long ones)
};
struct PropInfo {
    const char *id;
    const char *level;
    const char *rule;
    std::vector<const char *> real, stub, assumptions;
    uint64_t quick_runs, thorough_runs;
};
extern std::vector<Scenario> &scenarios();
namespace sim { extern uint64_t run_index; }   // of the run being planned
extern std::vector<PropInfo> &propinfos();
struct RegScenario { RegScenario(Scenario s) { scenarios().push_back(s); } };
struct RegProp { RegProp(PropInfo p) { propinfos().push_back(p); } };

// ---------------------------------------------------------------- Seams
namespace sim {
extern char *crash_op;                        // shared page: name of the op in progress
void init_process();                          // seams installed; before any libcrypto allocation
void load_engine();
void reset_run(uint64_t seed);

// random source
enum RngMode { RNG_OK = 0, RNG_FAIL = 1 };
struct RandState {
    Rng prng{1};
    uint64_t calls = 0, bytes = 0, failed = 0;
    long long fail_from = -1, fail_count = 0; // calls [from, from+count) fail
    std::vector<Bytes> forced;                // answers to hand out first (exact length or padded)
    size_t forced_pos = 0;
    bool forced_be = false;                   // pad answers on the left (big-endian numbers)
    Bytes record;                             // everything handed out
    bool recording = false;
    int fail_ret = 0;                         // what a failing request returns
};
extern RandState rnd;

// allocator
struct AllocState {
    bool armed = false;
    uint64_t calls = 0;                       // matching allocations since arming
    long long fail_from = -1, fail_count = 0;
    uint64_t failed = 0;
    bool engine_only = true, sturdy_only = false;
    std::string last;                         // where the last failing request came from
};
extern AllocState al;
void track_begin();                           // remember the live set
// blocks allocated since track_begin that are still live; description of them
size_t track_live(std::string *desc, bool engine_only = false);
void track_end();
bool is_engine_file(const char *file);
// what must not stand in memory that is given back; looked for in every block released while watching
struct SecretState {
    bool on = false;
    std::vector<std::pair<std::string, Bytes>> needles;
    std::vector<std::string> hits;            // "name in a block allocated at file:line"
    uint64_t released = 0, bytes = 0;
};
extern SecretState secrets;

// engine's calls into libcrypto
struct DepState {
    bool armed = false;
    uint64_t calls = 0;
    long long fail_from = -1, fail_count = 0;
    uint64_t failed = 0;
    std::string last;
};
extern DepState dep;
struct Faults {                               // arms allocator + dependency faults together
    // kind: 0 none, 1 engine allocation, 2 library call, 3 both counted in one sequence
    static void arm(int kind, long long from, long long count);
    static void disarm();
    static uint64_t fired();
    static uint64_t points();
};
std::string err_text();                       // pops the OpenSSL error queue
extern unsigned char fill;                    // what memory holds before the code under test writes to it
extern std::vector<std::pair<std::string, uint64_t>> *trail;   // log hash at the start of each operation, when wanted
extern uint64_t now;                          // simulated wall clock (seconds)
// kind 1: allocation, 2: release (addr: name of the calling file), 3: the engine calls libcrypto
extern void (*yield_hook)(int kind, const void *addr);
extern int tid;                               // simulated thread that is running, 0 outside of threads
extern void *(*raw_malloc)(size_t); extern void *(*raw_realloc)(void *, size_t); extern void (*raw_free)(void *); extern size_t (*raw_size)(void *);
// ends the run with a violation from anywhere, also from another thread's stack
[[noreturn]] void report_now(const char *cls, const std::string &msg);
}
const char *dep_name(unsigned id);
