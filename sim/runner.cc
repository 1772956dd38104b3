// Batch runner: seeded search, crash containment, gating, minimisation, replay, evidence.
#include "core.h"
#include "ec.h"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <fstream>
#include <sstream>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/personality.h>

static std::string VERIF = ".";
static int g_argc; static char **g_argv;

struct Outcome {
    bool ok = false;            // run finished and reported
    bool viol = false;
    std::string cls, msg;
    uint64_t hash = 0, sig = 0, steps = 0;
    bool nontrivial = false;
    std::map<std::string, uint64_t> cnt;
    std::string err;            // stderr tail of a crashed run
    std::vector<std::pair<std::string, uint64_t>> trail;   // (operation, log hash at its start), only between worlds
};

static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static const Scenario *find_scen(const std::string &prop, const std::string &name) {
    if (prop == "C23") { size_t k = name.find('/'); return k == std::string::npos || name.compare(0, 3, "C23") == 0 ? nullptr : find_scen(name.substr(0, k), name.substr(k + 1)); }
    for (auto &s : scenarios()) if (name == s.name && (prop.empty() || prop == s.prop)) return &s;
    return nullptr;
}

static void write_all(int fd, const std::string &s) {
    size_t o = 0;
    while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) { if (n < 0 && errno == EINTR) continue; break; } o += n; }
}

static bool g_verbose = false;
static int g_cpu_limit = 40;

static int child_fd; static Ctx *child_ctx;
static void child_report(Ctx &c, int fd, const std::string &v) {
    std::string out = v;
    out += strf("H %llu %llu %llu %d\n", (unsigned long long)c.loghash, (unsigned long long)c.sig, (unsigned long long)c.steps, (int)c.nontrivial);
    for (auto &kv : c.cnt) out += "C " + kv.first + " " + std::to_string(kv.second) + "\n";
    if (sim::trail) for (auto &t : *sim::trail) out += "T " + std::to_string(t.second) + " " + t.first + "\n";
    out += "E\n";
    write_all(fd, out);
    _exit(0);
}
void sim::report_now(const char *cls, const std::string &msg) {
    std::string m = msg; for (auto &ch : m) if (ch == '\n') ch = ' ';
    child_ctx->log("VIOLATION %s", cls);
    child_report(*child_ctx, child_fd, std::string("V ") + cls + " " + m + "\n");
    _exit(0);
}
// memory the code under test forgets to set reads the same in every run
static void __attribute__((noinline)) scrub_stack() { volatile char a[512 * 1024]; for (size_t i = 0; i < sizeof a; i++) a[i] = (char)sim::fill; }

// C23: a plan of any other property, whose first operation may name unrelated work that is done before it
static std::string g_only;      // restricts the plans to one scenario
static int g_world = 0;         // 0: the plan alone; 1: memory holds something else, and the unrelated work comes first
static Plan before_plan(uint64_t seed, const Scenario *same, const Scenario **scp);

static void child_exec(const Scenario *sc, const Plan &p, int fd) {
    scrub_stack();
    int lim = sc->lead ? 800 : g_cpu_limit; struct rlimit rl = { (rlim_t)lim, (rlim_t)lim + 5 };
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    Ctx c; c.verbose = g_verbose; child_fd = fd; child_ctx = &c;
    sim::reset_run(p.seed);
    strcpy(sim::crash_op, "start");
    std::string v;
    Plan own = p; bool skip = false;
    if (!own.ops.empty() && own.ops[0].k == "before") {
        own.ops.erase(own.ops.begin());
        if (g_world) {
            const Scenario *bs; Plan b = before_plan(p.ops[0].arg(0), p.ops[0].arg(1) ? sc : nullptr, &bs); Ctx bc;
            if (g_verbose) fprintf(stderr, "-- before: %s %s\n", b.prop.c_str(), b.text().c_str());
            sim::reset_run(b.seed);
            auto *keep = sim::trail; sim::trail = nullptr;
            try { bs->exec(b, bc); } catch (Violation &) { skip = true; } // another property's finding
            for (int i = 0; i < 3; i++) ENGINE_ctrl(lib_engine(), ENGINE_CMD_BASE + i, 0, NULL, NULL);   // settings are inputs: back to their defaults
            sim::trail = keep; ERR_clear_error(); sim::reset_run(p.seed); strcpy(sim::crash_op, "start");
            scrub_stack();
        }
    }
    if (skip) { c.count("unrelated-work-failed"); child_report(c, fd, "V inconclusive unrelated work\n"); }
    try { sc->exec(own, c); }
    catch (Violation &x) {
        std::string m = x.msg; for (auto &ch : m) if (ch == '\n') ch = ' ';
        v = "V " + x.cls + " " + m + "\n";
        c.log("VIOLATION %s", x.cls.c_str());
    }
    child_report(c, fd, v);
}

// Runs one plan in a forked child whose state is the pristine parent's.
static Outcome run_pair(const Scenario *sc, const Plan &p);
static Outcome run_plan(const Scenario *sc, const Plan &p) {
    if (p.prop == "C23" && !sim::trail) return run_pair(sc, p);
    int pf[2], ef[2];
    Outcome o;
    if (pipe(pf) || pipe(ef)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        close(pf[0]); close(ef[0]);
        if (!g_verbose) dup2(ef[1], 2);
        child_exec(sc, p, pf[1]);
    }
    close(pf[1]); close(ef[1]);
    std::string out, err;
    struct pollfd fds[2] = { { pf[0], POLLIN, 0 }, { ef[0], POLLIN, 0 } };
    int open_fds = 2;
    while (open_fds) {
        if (poll(fds, 2, -1) < 0) { if (errno == EINTR) continue; break; }
        for (int i = 0; i < 2; i++) if (fds[i].fd >= 0 && fds[i].revents) {
            char b[8192]; ssize_t n = read(fds[i].fd, b, sizeof b);
            if (n <= 0) { close(fds[i].fd); fds[i].fd = -1; open_fds--; }
            else { std::string &d = i ? err : out; if (d.size() < 1 << 20) d.append(b, n); }
        }
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    std::istringstream in(out); std::string line; bool end = false;
    while (std::getline(in, line)) {
        if (line[0] == 'V') { std::istringstream l(line.substr(2)); l >> o.cls; std::getline(l, o.msg); o.viol = true; }
        else if (line[0] == 'H') { std::istringstream l(line.substr(2)); int nt; l >> o.hash >> o.sig >> o.steps >> nt; o.nontrivial = nt; }
        else if (line[0] == 'C') { std::istringstream l(line.substr(2)); std::string k; uint64_t n; l >> k >> n; o.cnt[k] += n; }
        else if (line[0] == 'T') { std::istringstream l(line.substr(2)); uint64_t h; std::string n; l >> h; l.get(); std::getline(l, n); o.trail.push_back({n, h}); }
        else if (line[0] == 'E') end = true;
    }
    o.ok = end;
    if (!end) {
        o.viol = true;
        std::string op = sim::crash_op;
        for (auto &c : op) if (c == ' ') c = '_';
        std::string kind;
        size_t k = err.find("SUMMARY: AddressSanitizer: ");
        if (k != std::string::npos) {
            std::istringstream l(err.substr(k + 27)); l >> kind;
            for (auto &ch : kind) if (ch == '(') ch = '_';
        } else if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            kind = s == SIGXCPU || s == SIGKILL ? "hang" : strf("signal%d", s);
        } else kind = strf("exit%d", WEXITSTATUS(st));
        if (err.find("OpenSSL internal error") != std::string::npos || err.find("assertion failed") != std::string::npos) kind = "assert-abort";
        o.cls = "crash:" + kind + "@" + op;
        o.msg = "process died while executing " + op;
        o.err = err;
        // identity for replay comparisons: class only
        o.hash = std::hash<std::string>()(o.cls);
        o.ok = true;
    }
    return o;
}

// -------------------------------------------------------------- known findings
struct Known { std::string prop, cls, desc; };
static std::vector<Known> known;
static void load_known() {
    std::ifstream f(VERIF + "/known_findings.txt");
    std::string line;
    while (std::getline(f, line)) {
        if (line.compare(0, 6, "known:")) continue;
        Known k; std::istringstream l(line.substr(6)); std::string w;
        while (l >> w) {
            if (!w.compare(0, 9, "property=")) k.prop = w.substr(9);
            else if (!w.compare(0, 6, "class=")) { k.cls = w.substr(6); std::getline(l, k.desc); }
        }
        known.push_back(k);
    }
}
static const Known *is_known(const std::string &prop, const std::string &cls) {
    for (auto &k : known) if (k.prop == prop && k.cls == cls) return &k;
    return nullptr;
}

// -------------------------------------------------------------- generation
uint64_t sim::run_index;
static bool quiet_prop(const std::string &p) {   // properties whose scenarios leave the process as they found it
    static const char *q[] = { "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C19", "C22" };
    for (auto x : q) if (p == x) return true;
    return false;
}
static Plan any_plan(Rng &r, bool thorough, const Scenario **scp, bool quiet) {
    std::vector<std::string> ps;
    for (auto &s : scenarios()) if (s.weight && (quiet || g_only.empty() || g_only == std::string(s.prop) + "/" + s.name) && (!quiet || (s.engine && quiet_prop(s.prop) && strcmp(s.name, "provider"))) && (ps.empty() || ps.back() != s.prop)) ps.push_back(s.prop);
    std::sort(ps.begin(), ps.end()); ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
    std::string prop = r.pick(ps);
    std::vector<const Scenario *> ss; uint64_t tot = 0;
    for (auto &s : scenarios()) if (prop == s.prop && s.weight && (!quiet || strcmp(s.name, "provider")) && (quiet || g_only.empty() || g_only == std::string(s.prop) + "/" + s.name)) { ss.push_back(&s); tot += s.weight; }
    uint64_t w = r.below(tot); const Scenario *sc = ss[0];
    for (auto s : ss) { if (w < (uint64_t)s->weight) { sc = s; break; } w -= s->weight; }
    sim::run_index = r.below(4000);
    Plan p; p.prop = prop; p.scen = sc->name; p.seed = r.next() >> 1;
    sc->gen(r, p, thorough);
    *scp = sc;
    return p;
}
static Plan before_plan(uint64_t seed, const Scenario *same, const Scenario **scp) {
    Rng r(seed);
    if (!same) return any_plan(r, false, scp, true);
    Plan p; sim::run_index = r.below(4000); p.prop = same->prop; p.scen = same->name; p.seed = r.next() >> 1; same->gen(r, p, false); *scp = same;
    return p;
}

// ---- a world: a process of its own, with its own build of the code under test, that executes plans on request
struct World { pid_t pid = 0; int to = -1; FILE *from = nullptr; };
static World g_worlds[2][2]; static pid_t g_worlds_of; 
static std::string other_binary() {
    const char *o = getenv("SIM_OTHER");
    if (!o) { fprintf(stderr, "SIM_OTHER does not name the second binary\n"); exit(2); }
    return o;
}
static World &world(int w, bool eng) {
    if (g_worlds_of != getpid()) { for (auto &a : g_worlds) for (auto &x : a) { if (x.from) { close(fileno(x.from)); close(x.to); } x = World(); } g_worlds_of = getpid(); }
    World &x = g_worlds[w][eng];
    if (x.pid) return x;
    int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) exit(2);
    std::string bin = w ? other_binary() : "/proc/self/exe";
    x.pid = fork();
    if (x.pid == 0) {
        dup2(a[0], 0); dup2(b[1], 1);
        std::string opt = getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "";
        if (w) setenv("ASAN_OPTIONS", (opt + ":malloc_fill_byte=0:max_malloc_fill_size=1048576").c_str(), 1);
        execl(bin.c_str(), g_argv[0], "--serve", w ? "1" : "0", eng ? "1" : "0", g_verbose ? "--verbose" : "--quiet", (char *)0);
        _exit(127);
    }
    close(a[0]); close(b[1]); x.to = a[1]; x.from = fdopen(b[0], "r");
    return x;
}
static int serve(int w, bool eng) {
    g_world = w; sim::fill = w ? 0 : 0xA5;
    signal(SIGPIPE, SIG_IGN);
    int out = dup(1); dup2(2, 1);
    if (eng) sim::load_engine();
    sim::trail = new std::vector<std::pair<std::string, uint64_t>>();
    char *line = nullptr; size_t cap = 0; std::string text;
    while (getline(&line, &cap, stdin) > 0) {
        text += line;
        if (strcmp(line, "end\n")) continue;
        Plan p; if (!Plan::parse(text, p)) return 2;
        text.clear();
        const Scenario *sc = find_scen(p.prop, p.scen); if (!sc) return 2;
        Outcome o = run_plan(sc, p);
        std::string r = strf("R %d %llu %llu %llu %d\n", (int)o.viol, (unsigned long long)o.hash, (unsigned long long)o.sig, (unsigned long long)o.steps, (int)o.nontrivial);
        if (o.viol) { r += "V " + o.cls + " " + o.msg + "\n"; }
        for (auto &kv : o.cnt) r += "C " + kv.first + " " + std::to_string(kv.second) + "\n";
        for (auto &t : o.trail) r += "T " + std::to_string(t.second) + " " + t.first + "\n";
        std::istringstream e(o.err.substr(0, 4000)); std::string l; while (std::getline(e, l)) r += "X " + l + "\n";
        write_all(out, r + ".\n");
    }
    return 0;
}
static bool receive(World &x, Outcome &o) {
    char *line = nullptr; size_t cap = 0; bool end = false;
    while (!end && getline(&line, &cap, x.from) > 0) {
        std::string s(line); while (!s.empty() && s.back() == '\n') s.pop_back();
        if (s == ".") { end = true; break; }
        std::istringstream l(s.size() > 2 ? s.substr(2) : "");
        if (s[0] == 'R') { int v, nt; l >> v >> o.hash >> o.sig >> o.steps >> nt; o.viol = v; o.nontrivial = nt; }
        else if (s[0] == 'V') { l >> o.cls; std::getline(l, o.msg); }
        else if (s[0] == 'C') { std::string k; uint64_t n; l >> k >> n; o.cnt[k] += n; }
        else if (s[0] == 'T') { uint64_t h; std::string n; l >> h; l.get(); std::getline(l, n); o.trail.push_back({n, h}); }
        else if (s[0] == 'X') o.err += s.substr(2) + "\n";
    }
    free(line); o.ok = end;
    return end;
}
// The same plan in two worlds; every observable step must be the same in both.
static Outcome run_pair(const Scenario *sc, const Plan &p) {
    World *w[2]; Outcome o[2];
    for (int i = 0; i < 2; i++) { w[i] = &world(i, sc->engine); write_all(w[i]->to, p.text()); }
    for (int i = 0; i < 2; i++) if (!receive(*w[i], o[i])) { fprintf(stderr, "world %d died on\n%s", i, p.text().c_str()); exit(2); }
    Outcome r = o[0];
    r.viol = false; r.cls.clear(); r.msg.clear(); r.err.clear();
    std::string scen = std::string(sc->prop) + "/" + sc->name;
    r.cnt.clear(); r.cnt["compared." + scen]++; r.cnt["fault.memory-content-changed"]++;
    for (auto &kv : o[0].cnt) if (!kv.first.compare(0, 6, "fault.")) r.cnt[kv.first] += kv.second;
    bool bef = !p.ops.empty() && p.ops[0].k == "before";
    if (bef) r.cnt["fault.unrelated-work-before"]++;
    if (o[0].viol) r.cnt["agreed-failure"]++;
    r.sig = mix64(o[0].sig, bef);
    for (auto &x : o) if (x.viol && (x.cls == "inconclusive" || x.cls.find("crash:hang") == 0)) { r.cnt["inconclusive"]++; return r; }
    if (o[0].viol == o[1].viol && o[0].cls == o[1].cls && o[0].hash == o[1].hash) return r;
    size_t i = 0; while (i < o[0].trail.size() && i < o[1].trail.size() && o[0].trail[i] == o[1].trail[i]) i++;
    r.viol = true; r.ok = true;
    r.cls = "depends:" + scen;
    // trail entries are taken at the start of an operation: the one before the first difference did it
    std::string at = i && !o[0].trail.empty() ? o[0].trail[i - 1].first : "start";
    r.msg = strf("operation %zu (%s) does not give the same results when memory held something else before%s: %s / %s", i, at.c_str(), bef ? " and unrelated work was done before" : "",
                 o[0].viol ? (o[0].cls + " " + o[0].msg).c_str() : "no failure", o[1].viol ? (o[1].cls + " " + o[1].msg).c_str() : "no failure");
    r.err = o[0].err + o[1].err;
    r.hash = mix64(o[0].hash, o[1].hash);
    return r;
}
static Plan make_plan(const std::string &prop, uint64_t base, uint64_t idx, bool thorough, const Scenario **scp) {
    Rng r(mix64(mix64(base, 0xC0FFEE), idx * 2654435761ULL + 1));
    if (prop == "C23") {
        Plan p = any_plan(r, thorough, scp, false);
        p.prop = "C23"; p.scen = std::string((*scp)->prop) + "/" + (*scp)->name;
        if (quiet_prop((*scp)->prop) && r.chance(1, 2)) p.ops.insert(p.ops.begin(), Op{ "before", { (long long)(r.next() >> 2), strcmp((*scp)->name, "provider") ? (long long)r.below(2) : 0 } });
        return p;
    }
    std::vector<const Scenario *> ss; uint64_t tot = 0;
    for (auto &s : scenarios()) if (prop == s.prop) { ss.push_back(&s); tot += s.weight; }
    uint64_t w = r.below(tot ? tot : 1); const Scenario *sc = ss[0];
    for (auto s : ss) { if (w < (uint64_t)s->weight) { sc = s; break; } w -= s->weight; }
    uint64_t at = idx; for (auto s : ss) if (uint64_t n = thorough ? s->lead_thorough : s->lead) { if (at < n) { sc = s; break; } at -= n; }
    sim::run_index = idx;
    Plan p; p.prop = prop; p.scen = sc->name; p.seed = r.next() >> 1;
    sc->gen(r, p, thorough);
    *scp = sc;
    return p;
}

// -------------------------------------------------------------- minimisation
static bool same_fail(const Scenario *sc, const Plan &p, const std::string &cls, Outcome *out = nullptr) {
    Outcome o = run_plan(sc, p);
    if (out) *out = o;
    return o.viol && o.cls == cls;
}
static Plan minimise(const Scenario *sc, Plan p, const std::string &cls, double budget) {
    double t0 = mono();
    auto left = [&] { return mono() - t0 < budget; };
    bool changed = true;
    while (changed && left()) {
        changed = false;
        for (size_t chunk = std::max<size_t>(p.ops.size() / 2, 1); chunk >= 1 && left(); chunk /= 2) {
            for (size_t i = 0; i + chunk <= p.ops.size() && left();) {
                Plan q = p; q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + chunk);
                if (same_fail(sc, q, cls)) { p = q; changed = true; } else i++;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < p.ops.size() && left(); i++)
            for (size_t j = 0; j < p.ops[i].a.size() && left(); j++) {
                long long v = p.ops[i].a[j];
                long long cand[] = { 0, 1, v / 16, v / 2, v - 1 };
                for (long long c : cand) {
                    if (c == v || (v >= 0 && c < 0) || std::llabs(c) >= std::llabs(v)) continue;
                    Plan q = p; q.ops[i].a[j] = c;
                    if (same_fail(sc, q, cls)) { p = q; changed = true; v = c; break; }
                }
            }
    }
    return p;
}

static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += strf("\\u%04x", c);
        else o += c;
    }
    return o;
}

// -------------------------------------------------------------- replay of one file
static int replay_file(const std::string &path, bool quiet) {
    std::ifstream f(path); std::stringstream ss; ss << f.rdbuf();
    Plan p;
    if (!f || !Plan::parse(ss.str(), p)) { fprintf(stderr, "bad plan %s\n", path.c_str()); return 2; }
    const Scenario *sc = find_scen(p.prop, p.scen);
    if (!sc) { fprintf(stderr, "unknown scenario %s\n", p.scen.c_str()); return 2; }
    if (sc->engine && p.prop != "C23") sim::load_engine();
    Outcome o = run_plan(sc, p);
    printf("REPLAY class=%s hash=%llu\n", o.viol ? o.cls.c_str() : "none", (unsigned long long)o.hash);
    if (!quiet && o.viol) { printf("message: %s\n", o.msg.c_str()); if (!o.err.empty()) printf("%s\n", o.err.c_str()); }
    return o.viol ? 1 : 0;
}
static std::string fresh_replay(const std::string &path) {
    int pf[2]; if (pipe(pf)) exit(2);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(pf[1], 1); close(pf[0]);
        execl("/proc/self/exe", g_argv[0], "--replay", path.c_str(), "--quiet", (char *)0);
        _exit(127);
    }
    close(pf[1]);
    std::string out; char b[4096]; ssize_t n;
    while ((n = read(pf[0], b, sizeof b)) > 0) out.append(b, n);
    close(pf[0]); int st; waitpid(pid, &st, 0);
    size_t k = out.find("REPLAY "); if (k == std::string::npos) return "";
    size_t e = out.find('\n', k);
    return out.substr(k, e - k);
}

struct Shared { volatile uint64_t next; volatile int stop; volatile uint64_t found; };

int main(int argc, char **argv) {
    g_argc = argc; g_argv = argv;
    if (getenv("VERIF_DIR")) VERIF = getenv("VERIF_DIR");
    std::string prop, replay, tier = "quick", one; bool quiet = false; int jobs = 8; double wall = 0; uint64_t runs = 0; bool hashes = false, list = false, showgen = false, detect = false;
    uint64_t seed = 1, first = 0;
    if (getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), 0, 10);
    if (getenv("VERIF_TIER")) tier = getenv("VERIF_TIER");
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--replay") replay = nx(); else if (a == "--quiet") quiet = true; else if (a == "--verbose") g_verbose = true;
        else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10); else if (a == "--first") first = strtoull(nx().c_str(), 0, 10);
        else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--wall") wall = atof(nx().c_str());
        else if (a == "--hashes") hashes = true; else if (a == "--list") list = true; else if (a == "--scen") one = nx();
        else if (a == "--gen") showgen = true; else if (a == "--detect") detect = true;
        else prop = a;
    }
    setenv("ASAN_SYMBOLIZER_PATH", "/nonexistent", 0);
    if (argc > 3 && !strcmp(argv[1], "--serve")) { sim::fill = atoi(argv[2]) ? 0 : 0xA5; g_argc = argc; g_verbose = argc > 4 && !strcmp(argv[4], "--verbose"); sim::init_process(); return serve(atoi(argv[2]), atoi(argv[3])); }
    sim::init_process();
    if (list) { for (auto &s : scenarios()) printf("%s %s\n", s.prop, s.name); return 0; }
    if (!replay.empty()) return replay_file(replay, quiet);

    const PropInfo *pi = nullptr;
    for (auto &x : propinfos()) if (prop == x.id) pi = &x;
    if (!pi) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    g_only = one;
    if (!one.empty()) for (auto &s : scenarios()) if (prop == s.prop && one != s.name) s.weight = s.lead = s.lead_thorough = 0;
    if (detect) for (auto &s : scenarios()) s.lead = s.lead_thorough = 0;
    bool thorough = tier == "thorough";
    if (!runs) runs = thorough ? pi->thorough_runs : pi->quick_runs;
    if (wall == 0) wall = thorough ? 3600 : 420;
    bool eng = prop != "C23"; for (auto &s : scenarios()) if (prop == s.prop && !s.engine) eng = false;
    // scenarios that need a pristine process load the engine themselves inside the child
    if (eng) sim::load_engine();
    load_known();
    if (eng) {
        // the references must reproduce the published vectors before anything is judged by them
        std::string f = ref::selftest() + ref::ec_selftest(); ERR_clear_error();
        if (!f.empty()) { fprintf(stderr, "reference self-test failed: %s\n", f.c_str()); return 2; }
    }
    double t0 = mono();
    if (hashes || showgen) {
        for (uint64_t i = first; i < first + runs; i++) {
            const Scenario *sc; Plan p = make_plan(prop, seed, i, thorough, &sc);
            if (showgen) { printf("%s", p.text().c_str()); continue; }
            Outcome o = run_plan(sc, p);
            printf("%llu %s %016llx %s\n", (unsigned long long)i, sc->name, (unsigned long long)o.hash, o.viol ? o.cls.c_str() : "-");
        }
        return 0;
    }
    Shared *sh = (Shared *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next = first; sh->stop = 0; sh->found = ~0ULL;
    std::vector<pid_t> kids; std::vector<int> fds;
    for (int w = 0; w < jobs; w++) {
        int pf[2]; if (pipe(pf)) return 2;
        pid_t pid = fork();
        if (pid == 0) {
            close(pf[0]);
            // crash_op page must not be shared between workers
            sim::crash_op = (char *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            std::map<std::string, uint64_t> cnt; std::unordered_set<uint64_t> sigs; uint64_t done = 0, nt = 0, steps = 0;
            std::map<std::string, uint64_t> scn;
            std::string kn; std::set<std::string> knseen; std::string samples; int ns = 0;
            while (!sh->stop && mono() - t0 < wall) {
                uint64_t i = __sync_fetch_and_add(&sh->next, 1);
                if (i >= first + runs || i >= sh->found) break;
                const Scenario *sc; Plan p = make_plan(prop, seed, i, thorough, &sc);
                Outcome o = run_plan(sc, p);
                done++; steps += o.steps; scn[sc->name]++;
                for (auto &kv : o.cnt) cnt[kv.first] += kv.second;
                if (o.nontrivial) { nt++; sigs.insert(o.sig); if (ns < 1 && p.text().size() < 3000) { ns++; samples += "S " + std::to_string(i) + " " + jesc(p.text()) + "\n"; } }
                if (o.viol) {
                    const Known *k = is_known(prop, o.cls);
                    if (k) { cnt["known:" + o.cls]++; if (knseen.insert(o.cls).second) kn += "K " + o.cls + "\n"; continue; }
                    uint64_t cur = sh->found;
                    while (i < cur && !__sync_bool_compare_and_swap(&sh->found, cur, i)) cur = sh->found;
                }
            }
            std::string out = kn + samples;
            out += strf("D %llu %llu %llu\n", (unsigned long long)done, (unsigned long long)nt, (unsigned long long)steps);
            for (auto &kv : cnt) out += "C " + kv.first + " " + std::to_string(kv.second) + "\n";
            for (auto &kv : scn) out += "C scenario." + kv.first + " " + std::to_string(kv.second) + "\n";
            for (auto s : sigs) out += strf("G %llx\n", (unsigned long long)s);
            write_all(pf[1], out);
            _exit(0);
        }
        close(pf[1]); kids.push_back(pid); fds.push_back(pf[0]);
    }
    std::map<std::string, uint64_t> cnt; std::unordered_set<uint64_t> sigs; uint64_t done = 0, nt = 0, steps = 0; std::set<std::string> kseen; std::vector<std::string> samples;
    for (int fd : fds) {
        std::string out; char b[65536]; ssize_t n;
        while ((n = read(fd, b, sizeof b)) > 0) out.append(b, n);
        close(fd);
        std::istringstream in(out); std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line.substr(2));
            if (line[0] == 'D') { uint64_t a, c, d; l >> a >> c >> d; done += a; nt += c; steps += d; }
            else if (line[0] == 'C') { std::string k; uint64_t v; l >> k >> v; cnt[k] += v; }
            else if (line[0] == 'G') sigs.insert(strtoull(line.c_str() + 2, 0, 16));
            else if (line[0] == 'K') { std::string k; l >> k; kseen.insert(k); }
            else if (line[0] == 'S' && samples.size() < 3) samples.push_back(line.substr(2));
        }
    }
    for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker died (status %d)\n", st); return 2; } }
    double search_s = mono() - t0;
    int viol = 0, rc = 0; std::string vline;
    if (sh->found != ~0ULL) {
        const Scenario *sc; Plan p = make_plan(prop, seed, sh->found, thorough, &sc);
        Outcome a = run_plan(sc, p), b2 = sc->lead ? a : run_plan(sc, p);
        if (detect) { printf("DETECT %s %s\n", a.cls.c_str(), a.msg.substr(0, 160).c_str()); return 1; }
        bool exact = a.viol && b2.viol && a.cls == b2.cls && a.hash == b2.hash;
        int again = 0; // the code under test may itself act on something outside the simulation (an address, say): the violation must then at least recur each time
        if (!exact) for (int i = 0; i < 4; i++) { Outcome d = run_plan(sc, p); if (d.viol) { again++; a = d; } }
        if (!exact && again < 4) {
            fprintf(stderr, "run %llu is not repeatable: %s/%llx vs %s/%llx\n", (unsigned long long)sh->found, a.cls.c_str(), (unsigned long long)a.hash, b2.cls.c_str(), (unsigned long long)b2.hash);
            rc = 2;
        } else {
            Plan m = exact && !sc->lead ? minimise(sc, p, a.cls, 60) : p;
            Outcome mo = sc->lead ? a : run_plan(sc, m);
            mkdir((VERIF + "/replays").c_str(), 0755);
            std::string path = VERIF + strf("/replays/%s-%llu-%llu.plan", prop.c_str(), (unsigned long long)seed, (unsigned long long)sh->found);
            { std::ofstream f(path); f << m.text() << "# class " << mo.cls << "\n# message " << mo.msg << "\n# found by VERIF_SEED=" << seed << " run " << sh->found << "\n"; }
            std::string want = strf("REPLAY class=%s hash=%llu", mo.cls.c_str(), (unsigned long long)mo.hash);
            std::string got = fresh_replay(path);
            if (exact ? got != want : (got.compare(0, 13, "REPLAY class=") || !got.compare(0, 17, "REPLAY class=none"))) { fprintf(stderr, "fresh-process replay differs: %s / %s\n", got.c_str(), want.c_str()); rc = 2; }
            else {
                viol = 1; rc = 1;
                if (!exact) printf("note: the violation recurs in every execution of this plan, but not step for step: the code under test acts on something that is not part of the plan\n");
                printf("class: %s\nmessage: %s\nseed: %llu run: %llu\n%s", mo.cls.c_str(), mo.msg.c_str(), (unsigned long long)seed, (unsigned long long)sh->found, m.text().c_str());
                if (!mo.err.empty()) printf("--- stderr of the run\n%s\n", mo.err.substr(0, 6000).c_str());
                vline = "VIOLATION property=" + prop + " replay=" + path;
            }
        }
    }
    double wall_s = mono() - t0;
    std::string js = "{\n";
    js += strf(" \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"%s\",\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, pi->level);
    js += strf(" \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": \"%s\",\n", (unsigned long long)done, sigs.size(), jesc(pi->rule).c_str());
    js += "  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) js += std::string(i ? ", " : "") + "\"" + "run " + samples[i] + "\"";
    js += "],\n";
    js += strf("  \"simulated_runs\": %llu, \"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f, \"nontrivial_runs\": %llu,\n", (unsigned long long)done, done / search_s * 3600, done / search_s * 3600, (unsigned long long)nt);
    js += strf("  \"simulated_time_steps\": %llu, \"simulated_time_note\": \"one step = one operation, delivery or scheduling decision; the code under test reads no clock except where noted\",\n", (unsigned long long)steps);
    js += strf("  \"distinct_interleavings\": %zu, \"distinct_measure\": \"distinct hashes over (operation, fault position, outcome, chunk class) sequences\",\n", sigs.size());
    js += "  \"faults_fired\": {"; bool f1 = true;
    for (auto &kv : cnt) if (!kv.first.compare(0, 6, "fault.")) { js += strf("%s\"%s\": %llu", f1 ? "" : ", ", jesc(kv.first.substr(6)).c_str(), (unsigned long long)kv.second); f1 = false; }
    js += "},\n  \"probes\": {"; f1 = true;
    for (auto &kv : cnt) if (kv.first.compare(0, 6, "fault.")) { js += strf("%s\"%s\": %llu", f1 ? "" : ", ", jesc(kv.first).c_str(), (unsigned long long)kv.second); f1 = false; }
    auto lst = [&](const std::vector<const char *> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += std::string(i ? ", " : "") + "\"" + jesc(v[i]) + "\""; return s + "]"; };
    js += "},\n  \"real_components\": " + lst(pi->real) + ",\n  \"stub_components\": " + lst(pi->stub) + "\n },\n";
    js += " \"assumptions\": " + lst(pi->assumptions) + strf(",\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall_s, viol);
    mkdir((VERIF + "/evidence").c_str(), 0755);
    { std::ofstream f(VERIF + "/evidence/" + prop + ".json"); f << js; }
    for (auto &k : kseen) { const Known *kf = is_known(prop, k); printf("KNOWN-FINDING: property=%s class=%s%s\n", prop.c_str(), k.c_str(), kf->desc.c_str()); }
    printf("%s: %llu runs, %zu distinct, %.1f s (%s)\n", prop.c_str(), (unsigned long long)done, sigs.size(), wall_s, tier.c_str());
    if (!vline.empty()) printf("%s\n", vline.c_str());
    return rc;
}
