#include "thr.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <errno.h>
#include <unistd.h>
#include <string.h>
#include <unordered_map>
#include <openssl/crypto.h>
extern "C" char __data_start, _end;
namespace {
// ---- memory: never used again once released, so that every late use is seen
const size_t ARENA = 3ull << 30;
uint8_t *arena, *shadow; size_t used;          // shadow: one byte per 16: 0 from before the threads, 1.. owner, 0xFF released
struct Hdr { uint32_t magic, pad; uint64_t n; };
void mark(void *p, size_t n, uint8_t v) { size_t a = ((uint8_t *)p - arena) >> 4, b = (((uint8_t *)p - arena) + n + 15) >> 4; memset(shadow + a, v, b - a); }
void *a_malloc(size_t n) {
    size_t t = (n + 15 & ~15ull) + 32;
    if (!arena) { arena = (uint8_t *)mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); shadow = (uint8_t *)mmap(NULL, ARENA >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    if (used + t > ARENA) { fprintf(stderr, "arena full\n"); _exit(7); }
    Hdr *h = (Hdr *)(arena + used); used += t; h->magic = 0xA110C8ED; h->n = n;
    void *p = h + 1; if (sim::tid) mark(p, n ? n : 1, sim::tid);
    return p;
}
void a_free(void *p) {
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    if (h->magic == 0xDEADF2EE) sim::report_now("double-free", strf("a block of %llu bytes is released twice", (unsigned long long)h->n));
    if (h->magic != 0xA110C8ED) sim::report_now("bad-free", "something that was never allocated is released");
    h->magic = 0xDEADF2EE; memset(p, 0xDD, h->n); mark(p, h->n ? h->n : 1, 0xFF);
}
void *a_realloc(void *p, size_t n) { Hdr *h = (Hdr *)p - 1; if (h->magic != 0xA110C8ED) sim::report_now("use-after-free", "a released block is resized"); void *q = a_malloc(n); memcpy(q, p, h->n < n ? h->n : n); if (n > h->n) memset((uint8_t *)q + h->n, 0xA5, n - h->n); a_free(p); return q; }
// ---- scheduler
struct Th { pthread_t t; sem_t s; int state = 0; const void *wait = nullptr; sim::RandState rnd; const std::function<void()> *body; uint8_t *stk; char op[64] = "start"; };
const size_t STK = 1 << 20;
bool active; std::vector<Th *> ths; int cur; sem_t main_s;
std::vector<thr::Switch> sched; size_t sp; uint64_t gap; thr::Result res; bool verb;
uintptr_t stk_lo;                              // stack of the running thread
uintptr_t g_lo, g_hi;
void enter(int n) { cur = n; sim::tid = n + 1; stk_lo = (uintptr_t)ths[n]->stk; sim::rnd = ths[n]->rnd; strcpy(sim::crash_op, ths[n]->op); }
uint32_t on;
void next_gap() { on = sp < sched.size() ? sched[sp].on : 0; gap = sp < sched.size() ? sched[sp].gap + 1 : ~0ull; }
int pick(uint32_t to, bool other) { // a runnable thread; not the running one if `other`
    int n = 0; for (int i = 0; i < (int)ths.size(); i++) if (ths[i]->state == 0 && !(other && i == cur)) n++;
    if (!n) return -1;
    int k = to % n; for (int i = 0; i < (int)ths.size(); i++) if (ths[i]->state == 0 && !(other && i == cur) && k-- == 0) return i;
    return -1;
}
void hand(int n, int kind) { // the running thread stops here, n goes on
    int me = cur; if (n == me) return;
    res.switches++; res.sig = mix64(res.sig, n * 64 + kind); for (const char *c = ths[me]->op; *c; c++) res.sig = mix64(res.sig, *c);
    if (verb) fprintf(stderr, "  [point %llu] thread %d (%s) -> thread %d (%s), %s\n", (unsigned long long)res.points, me, ths[me]->op, n, ths[n]->op, kind == 4 ? "global" : kind == 8 ? "global written" : kind == 9 ? "foreign memory written" : kind == 5 ? "foreign memory" : kind == 3 ? "library call" : kind == 6 ? "lock" : kind == 7 ? "end" : "allocation");
    ths[me]->rnd = sim::rnd; enter(n); sem_post(&ths[n]->s);
    if (ths[me]->state != 2) while (sem_wait(&ths[me]->s)) {}
}
void point(int kind) {
    res.points++;
    if (res.points > 400000000ull) sim::report_now("no-progress", "the threads do not come to an end");
    if (on == 1 ? kind < 8 : on == 2 ? kind > 3 : false) return;
    if (--gap) return;
    uint32_t to = sched[sp].to; sp++; next_gap();
    int n = pick(to, true); if (n < 0) return;
    res.preemptions++; hand(n, kind);
}
void block(const void *on) { // wait until `on` is released
    res.blocked++; ths[cur]->state = 1; ths[cur]->wait = on;
    int n = pick(sp < sched.size() ? sched[sp].to : 0, true);
    if (n < 0) sim::report_now("deadlock", strf("thread %d (%s) waits for a lock that nobody will release", cur, ths[cur]->op));
    hand(n, 6);
}
void wake(const void *on) { for (auto *t : ths) if (t->state == 1 && t->wait == on) t->state = 0; }
struct Lk { int readers = 0, writer = 0; };
std::unordered_map<const void *, Lk> lks;
int wr(const void *a, bool tr) { if (!active) return 0; for (;;) { Lk &l = lks[a]; if (!l.writer && !l.readers) { l.writer = cur + 1; return 0; } if (tr) return EBUSY; if (l.writer == cur + 1) sim::report_now("deadlock", strf("%s takes a lock it already holds", ths[cur]->op)); block(a); } }
int rd(const void *a, bool tr) { if (!active) return 0; for (;;) { Lk &l = lks[a]; if (!l.writer) { l.readers++; return 0; } if (tr) return EBUSY; if (l.writer == cur + 1) sim::report_now("deadlock", strf("%s takes a lock it already holds", ths[cur]->op)); block(a); } }
int un(const void *a) { if (!active) return 0; Lk &l = lks[a]; if (l.writer) l.writer = 0; else if (l.readers) l.readers--; wake(a); return 0; }
std::unordered_map<const void *, bool> efile;
void hook(int kind, const void *a) {
    if (!active) return;
    if (kind != 3) { auto it = efile.find(a); if (it == efile.end()) it = efile.emplace(a, sim::is_engine_file((const char *)a)).first; if (!it->second) return; }
    point(kind);
}
void *tmain(void *p) {
    Th *t = (Th *)p; while (sem_wait(&t->s)) {}
    (*t->body)(); OPENSSL_thread_stop();
    t->state = 2; int n = pick(sp < sched.size() ? sched[sp].to : 0, false);
    if (n >= 0) hand(n, 7);
    else { for (auto *x : ths) if (x->state == 1) sim::report_now("deadlock", strf("%s waits for a lock that nobody will release", x->op)); active = false; sim::tid = 0; sem_post(&main_s); }
    return NULL;
}
inline void acc(const void *p, size_t n, int w = 0) {
    if (!active) return;
    uintptr_t x = (uintptr_t)p;
    if (x - stk_lo < STK) return;
    if (x >= g_lo && x < g_hi) { res.globals++; point(w ? 8 : 4); return; }
    size_t o = x - (uintptr_t)arena;
    if (o < used) {
        uint8_t s = shadow[o >> 4];
        if (s == 0xFF) sim::report_now("use-after-free", strf("%s uses memory that was released", ths[cur]->op));
        if (s != sim::tid) { res.foreign++; point(w ? 9 : 5); }
    }
}
void range(const void *p, size_t n, int w = 0) { if (n) { acc(p, n, w); if (n > 16) acc((const uint8_t *)p + n - 1, 1, w); } }
struct Init { Init() { sim::raw_malloc = a_malloc; sim::raw_realloc = a_realloc; sim::raw_free = a_free; sim::raw_size = [](void *p) { return (size_t)((Hdr *)p - 1)->n; }; g_lo = (uintptr_t)&__data_start; g_hi = (uintptr_t)&_end; } } init_;
}
namespace thr {
void op_name(const char *n) { strncpy(ths[cur]->op, n, 63); strcpy(sim::crash_op, ths[cur]->op); }
Result run(const std::vector<std::function<void()>> &bodies, const std::vector<Switch> &s, bool v) {
    res = Result(); verb = v; sched = s; sp = 0; next_gap(); ths.clear(); lks.clear(); sem_init(&main_s, 0, 0);
    for (auto &b : bodies) {
        Th *t = new Th; t->body = &b; sem_init(&t->s, 0, 0); t->rnd.prng.reseed(ths.size() + 1); t->stk = (uint8_t *)mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t->stk, STK); ths.push_back(t);
        if (pthread_create(&t->t, &at, tmain, t)) { perror("pthread_create"); _exit(7); }
    }
    sim::yield_hook = hook; int f = pick(s.empty() ? 0 : s[0].to, false); cur = f; enter(f); active = true; sem_post(&ths[f]->s);
    while (sem_wait(&main_s)) {}
    for (auto *t : ths) pthread_join(t->t, NULL);
    sim::yield_hook = nullptr; strcpy(sim::crash_op, "after_threads");
    return res;
}
}
extern "C" {
// locks belong to the simulator; outside of the threads there is nobody to compete with
int pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *) { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { lks.erase(l); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rd(l, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rd(l, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return wr(l, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return wr(l, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { return un(l); }
int pthread_mutex_lock(pthread_mutex_t *l) { return wr(l, false); }
int pthread_mutex_trylock(pthread_mutex_t *l) { return wr(l, true); }
int pthread_mutex_unlock(pthread_mutex_t *l) { return un(l); }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    for (;;) { if (*o == 2) return 0; if (*o == 0) { *o = 1; f(); *o = 2; if (active) wake(o); return 0; } if (!active) return 0; block(o); }
}
// every access to memory by the engine
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define A(n) void __tsan_read##n(void *p) { acc(p, n); } void __tsan_write##n(void *p) { acc(p, n, 1); } void __tsan_unaligned_read##n(void *p) { acc(p, n); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n); } void __tsan_volatile_write##n(void *p) { acc(p, n, 1); } void __tsan_read_write##n(void *p) { acc(p, n, 1); acc(p, n); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, size_t n) { range(p, n); } void __tsan_write_range(void *p, size_t n) { range(p, n, 1); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8); } void __tsan_vptr_read(void **p) { acc(p, 8); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *a, int) { acc((void *)a, b / 8); return *a; } void __tsan_atomic##b##_store(volatile T *a, T v, int) { acc((void *)a, b / 8, 1); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { acc((void *)a, b / 8, 1); T o = *a; *a = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { acc((void *)a, b / 8, 1); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, b / 8, 1); T o = *a; *a = o - v; return o; } T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { acc((void *)a, b / 8, 1); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { acc((void *)a, b / 8, 1); T o = *a; *a = o & v; return o; } T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, b / 8, 1); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { acc((void *)a, b / 8); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int x, int y) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, x, y); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int, int) { acc((void *)a, b / 8, 1); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void *thr_memcpy(void *d, const void *s, size_t n) { range(s, n); range(d, n, 1); return memcpy(d, s, n); }
void *thr_memmove(void *d, const void *s, size_t n) { range(s, n); range(d, n, 1); return memmove(d, s, n); }
void *thr_memset(void *d, int c, size_t n) { range(d, n, 1); return memset(d, c, n); }
}
