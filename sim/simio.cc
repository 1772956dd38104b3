#include "simio.h"
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <csetjmp>
#include <unistd.h>
#include <sys/stat.h>

namespace simio {
static World *W;
static jmp_buf jb;
struct Open { File *f; size_t off; Rng r; long long fails_left; bool used; };
static std::vector<Open> fds;
static int mkfd(File *f) {
    Open o{f, 0, Rng(f->split + 1), f->fail_times, true};
    f->opens++;
    fds.push_back(o);
    return (int)fds.size() - 1 + 100;
}
static Open *get(int fd) {
    if (fd == 0) fd = 100;
    fd -= 100;
    if (fd < 0 || fd >= (int)fds.size() || !fds[fd].used) return nullptr;
    return &fds[fd];
}
static ssize_t do_read(int fd, void *buf, size_t n) {
    Open *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    File *f = o->f;
    f->reads++;
    if (n == 0) return 0;
    if (f->fail_at >= 0 && o->off >= (size_t)f->fail_at && o->fails_left != 0) {
        if (o->fails_left > 0) o->fails_left--;
        f->fails++;
        errno = f->fail_errno;
        return -1;
    }
    size_t left = f->data.size() - o->off, k = n < left ? n : left;
    if (f->fail_at >= 0 && o->fails_left != 0 && o->off + k > (size_t)f->fail_at) k = f->fail_at - o->off;
    if (f->split && k > 1) {
        size_t m = f->maxread ? f->maxread : 1;
        size_t want = o->r.chance(1, 4) ? 1 + o->r.below(3) : 1 + o->r.below(m);
        if (want < k) { k = want; f->shorts++; }
    }
    memcpy(buf, f->data.data() + o->off, k);
    o->off += k;
    return k;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read((int)(intptr_t)c, b, n); }
static int ck_close(void *c) { Open *o = get((int)(intptr_t)c); if (o && (intptr_t)c >= 100) o->used = false; return 0; }
static ssize_t out_write(void *c, const char *b, size_t n) {
    if (c) { W->err.append(b, n); return n; }
    if (W->out_fail_at >= 0) {
        size_t room = W->out.size() < (size_t)W->out_fail_at ? W->out_fail_at - W->out.size() : 0;
        if (room < n) { W->out_fails++; if (room == 0) { errno = ENOSPC; return 0; } n = room; }
    }
    W->out.append(b, n);
    return n;
}
static int do_open(const char *name) {
    auto it = W->files.find(name);
    if (it == W->files.end()) { errno = ENOENT; return -1; }
    if (W->max_fds >= 0) {
        int used = -1;
        for (auto &o : fds) used += o.used;
        if (used >= W->max_fds) { W->fd_fails++; errno = EMFILE; return -1; }
    }
    if (it->second.open_errno) { errno = it->second.open_errno; it->second.opens++; return -1; }
    return mkfd(&it->second);
}
}
using namespace simio;
extern "C" {
FILE *simio_stdin, *simio_stdout, *simio_stderr;
int simio_open(const char *n, int fl, ...) { if (fl & 3) { W->forbidden.push_back(std::string("open for writing ") + n); errno = EROFS; return -1; } return do_open(n); }
int simio_open64(const char *n, int fl, ...) { return simio_open(n, fl); }
int simio_openat(int, const char *n, int fl, ...) { return simio_open(n, fl); }
ssize_t simio_read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t simio_pread(int fd, void *b, size_t n, off_t off) { Open *o = get(fd); if (!o) { errno = EBADF; return -1; } size_t k = o->off; o->off = (size_t)off < o->f->data.size() ? off : o->f->data.size(); ssize_t r = do_read(fd, b, n); o->off = k; return r; }
ssize_t simio___read_chk(int fd, void *b, size_t n, size_t) { return do_read(fd, b, n); }
int simio_close(int fd) { Open *o = get(fd); if (!o) { errno = EBADF; return -1; } o->used = false; return 0; }
FILE *simio_fopen(const char *n, const char *mode) {
    if (mode[0] != 'r' || strchr(mode, '+')) { W->forbidden.push_back(std::string("fopen for writing ") + n); errno = EROFS; return NULL; }
    int fd = do_open(n);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = { ck_read, NULL, NULL, ck_close };
    return fopencookie((void *)(intptr_t)fd, "r", io);
}
FILE *simio_fdopen(int fd, const char *) { cookie_io_functions_t io = { ck_read, NULL, NULL, ck_close }; return fopencookie((void *)(intptr_t)fd, "r", io); }
FILE *simio_fopen64(const char *n, const char *mode) { return simio_fopen(n, mode); }
FILE *simio_freopen(const char *, const char *, FILE *) { errno = ENOSYS; return NULL; }
void simio_exit(int st) { W->exited = true; W->status = st & 0xff; longjmp(jb, 1); }
void simio__exit(int st) { simio_exit(st); }
void simio_abort() { abort(); }
void simio_perror(const char *s) { int e = errno; fprintf(simio_stderr, "%s: %s\n", s, strerror(e)); }
int simio_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(simio_stdout, f, ap); va_end(ap); return r; }
int simio___printf_chk(int, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(simio_stdout, f, ap); va_end(ap); return r; }
int simio_vprintf(const char *f, va_list ap) { return vfprintf(simio_stdout, f, ap); }
int simio_puts(const char *s) { return fprintf(simio_stdout, "%s\n", s); }
int simio_putchar(int c) { return fputc(c, simio_stdout); }
int simio_getchar() { return fgetc(simio_stdin); }
int simio_fileno(FILE *f) { return f == simio_stdin ? 0 : f == simio_stdout ? 1 : f == simio_stderr ? 2 : 99; }
static int fill_stat(File *f, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = f->data.size(); st->st_blksize = 4096; return 0; }
int simio_fstat(int fd, struct stat *st) { Open *o = get(fd); if (!o) { errno = EBADF; return -1; } return fill_stat(o->f, st); }
int simio_fstat64(int fd, struct stat *st) { return simio_fstat(fd, st); }
int simio_stat(const char *n, struct stat *st) { auto it = W->files.find(n); if (it == W->files.end()) { errno = ENOENT; return -1; } return fill_stat(&it->second, st); }
int simio_stat64(const char *n, struct stat *st) { return simio_stat(n, st); }
off_t simio_lseek(int fd, off_t off, int wh) { Open *o = get(fd); if (!o) { errno = EBADF; return -1; } off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->off : (off_t)o->f->data.size(); if (b + off < 0) { errno = EINVAL; return -1; } o->off = b + off; if (o->off > o->f->data.size()) o->off = o->f->data.size(); return o->off; }
off_t simio_lseek64(int fd, off_t off, int wh) { return simio_lseek(fd, off, wh); }
int simio_unlink(const char *n) { W->forbidden.push_back(std::string("unlink ") + n); errno = EROFS; return -1; }
int simio_remove(const char *n) { return simio_unlink(n); }
int simio_rename(const char *a, const char *) { return simio_unlink(a); }
int simio_system(const char *c) { W->forbidden.push_back(std::string("system ") + c); return -1; }
ssize_t simio_write(int fd, const void *b, size_t n) {
    if (fd == 1) { fflush(simio_stdout); ssize_t r = out_write(NULL, (const char *)b, n); if (r == 0 && n) return -1; return r; }
    if (fd == 2) { W->err.append((const char *)b, n); return n; }
    errno = EBADF; return -1;
}
}
namespace simio {
void run(tool_main m, const std::vector<std::string> &args, World &w) {
    W = &w;
    w.out.clear(); w.err.clear(); w.exited = false; w.status = -1; w.unclosed = 0;
    fds.clear();
    mkfd(&w.in);
    cookie_io_functions_t ii = { ck_read, NULL, NULL, ck_close }, oo = { NULL, out_write, NULL, ck_close };
    simio_stdin = fopencookie((void *)(intptr_t)0, "r", ii);
    simio_stdout = fopencookie(NULL, "w", oo);
    simio_stderr = fopencookie((void *)1, "w", oo);
    setvbuf(simio_stderr, NULL, _IONBF, 0);
    std::vector<char *> av;
    for (auto &a : args) av.push_back(strdup(a.c_str()));
    av.push_back(nullptr);
    optind = 0; opterr = 0;
    if (!setjmp(jb)) {
        int st = m((int)args.size(), av.data());
        w.exited = true; w.status = st & 0xff;
    }
    fflush(simio_stdout); fflush(simio_stderr);
    fclose(simio_stdin); fclose(simio_stdout); fclose(simio_stderr);
    for (size_t i = 1; i < fds.size(); i++) w.unclosed += fds[i].used;
    for (auto a : av) free(a);
    W = nullptr;
}
}
