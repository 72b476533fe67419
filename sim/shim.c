/* Simulated system-call boundary: journal, failing calls, short and interrupted transfers.
   Only paths below the armed prefix are touched; disarmed (the default) it forwards everything. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#define MAXFD 8192
static char prefix[1024];
static size_t plen = 0;
static int armed = 0;
static FILE *J = NULL;
static char *fdp[MAXFD];

static long n_mut = 0, n_read = 0, n_open = 0, fired = 0, n_short = 0, n_eintr = 0;
static long mut_fail_at = -1, read_fail_at = -1, open_fail_at = -1;
static int mut_errno = 0, read_errno = 0, open_errno = 0;
static int mut_sticky = 0, read_sticky = 0, open_sticky = 0;
static long die_at = -1;
static int short_rate = 0, eintr_rate = 0;
static uint64_t rng = 1;

#define REAL(ret, name, ...) \
    static ret (*r_##name)(__VA_ARGS__); \
    if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name)

static unsigned draw(void) {
    rng = rng * 6364136223846793005ULL + 1442695040888963407ULL;
    return (unsigned)(rng >> 33);
}

void sim_arm(const char *p, const char *journal) {
    armed = 0;
    strncpy(prefix, p, sizeof(prefix) - 1);
    plen = strlen(prefix);
    if (J) { fclose(J); J = NULL; }
    n_mut = n_read = n_open = fired = n_short = n_eintr = 0;
    mut_fail_at = read_fail_at = open_fail_at = die_at = -1;
    short_rate = eintr_rate = 0;
    if (journal && *journal) J = fopen(journal, "wb");
    armed = 1;
}
void sim_fail_mut(long at, int e, int sticky) { mut_fail_at = at; mut_errno = e; mut_sticky = sticky; }
void sim_fail_read(long at, int e, int sticky) { read_fail_at = at; read_errno = e; read_sticky = sticky; }
void sim_fail_open(long at, int e, int sticky) { open_fail_at = at; open_errno = e; open_sticky = sticky; }
void sim_die_at(long at) { die_at = at; }
void sim_transfers(int short_permille, int eintr_permille, unsigned long seed) {
    short_rate = short_permille; eintr_rate = eintr_permille; rng = seed * 2654435761UL + 1;
}
void sim_disarm(void) { armed = 0; if (J) { fclose(J); J = NULL; } }
long sim_count(int what) {
    switch (what) {
    case 0: return n_mut; case 1: return n_read; case 2: return n_open;
    case 3: return fired; case 4: return n_short; case 5: return n_eintr;
    }
    return -1;
}

static int ours(const char *p) { return armed && p && plen && strncmp(p, prefix, plen) == 0; }
static const char *fdname(int fd) { return (armed && fd >= 0 && fd < MAXFD) ? fdp[fd] : NULL; }
static const char *at_path(int dfd, const char *p, char *buf, size_t n) {
    if (!armed) return NULL;
    if (p[0] == '/') { snprintf(buf, n, "%s", p); }
    else if (dfd == AT_FDCWD) return NULL;
    else {
        char l[64], d[2048];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
        ssize_t k = readlink(l, d, sizeof(d) - 1);
        if (k <= 0) return NULL;
        d[k] = 0;
        snprintf(buf, n, "%s/%s", d, p);
    }
    return ours(buf) ? buf : NULL;
}
static int mut_fault(void) {
    long k = n_mut++;
    if (die_at >= 0 && k == die_at) { if (J) fflush(J); _exit(77); }
    if (mut_fail_at >= 0 && (k == mut_fail_at || (mut_sticky && k > mut_fail_at))) { errno = mut_errno; fired++; return 1; }
    return 0;
}
static int read_fault(size_t *n) {
    long k = n_read++;
    if (read_fail_at >= 0 && (k == read_fail_at || (read_sticky && k > read_fail_at))) { errno = read_errno; fired++; return 1; }
    if (eintr_rate && (int)(draw() % 1000) < eintr_rate) { n_eintr++; errno = EINTR; return 1; }
    if (short_rate && *n > 1 && (int)(draw() % 1000) < short_rate) { n_short++; *n = 1 + draw() % (*n - 1); }
    return 0;
}
static int write_trim(size_t *n) {
    if (eintr_rate && (int)(draw() % 1000) < eintr_rate) { n_eintr++; errno = EINTR; return 1; }
    if (short_rate && *n > 1 && (int)(draw() % 1000) < short_rate) { n_short++; *n = 1 + draw() % (*n - 1); }
    return 0;
}
static void rec(const char *op, const char *p, const char *p2, long off, long len, const void *d) {
    if (!J) return;
    fprintf(J, "%s %ld %ld %zu %zu\n", op, off, len, strlen(p), p2 ? strlen(p2) : 0);
    fwrite(p, 1, strlen(p), J);
    if (p2) fwrite(p2, 1, strlen(p2), J);
    if (d && len) fwrite(d, 1, len, J);
    fputc('\n', J);
}

static int do_open(const char *p, int fl, int m) {
    REAL(int, open64, const char *, int, ...);
    int mine = ours(p);
    if (mine) {
        if (fl & (O_CREAT | O_TRUNC)) { if (mut_fault()) return -1; }
        else {
            long k = n_open++;
            if (open_fail_at >= 0 && (k == open_fail_at || (open_sticky && k > open_fail_at))) { errno = open_errno; fired++; return -1; }
        }
    }
    int fd = r_open64(p, fl, m);
    if (fd >= 0 && fd < MAXFD) {
        free(fdp[fd]); fdp[fd] = NULL;
        if (mine) {
            fdp[fd] = strdup(p);
            if (fl & (O_CREAT | O_TRUNC)) rec((fl & O_TRUNC) ? "trunc0" : "create", p, NULL, 0, 0, NULL);
        }
    }
    return fd;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if (p && (p[0] == '/' || d == AT_FDCWD)) return do_open(p, fl, m);
    REAL(int, openat64, int, const char *, int, ...);
    return r_openat64(d, p, fl, m);
}
int openat64(int d, const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if (p && (p[0] == '/' || d == AT_FDCWD)) return do_open(p, fl, m);
    REAL(int, openat64, int, const char *, int, ...);
    return r_openat64(d, p, fl, m);
}
int close(int fd) {
    REAL(int, close, int);
    if (fd >= 0 && fd < MAXFD && fdp[fd]) { free(fdp[fd]); fdp[fd] = NULL; }
    return r_close(fd);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    const char *p = fdname(fd);
    if (!p) return r_pwrite64(fd, b, n, o);
    if (mut_fault() || write_trim(&n)) return -1;
    ssize_t x = r_pwrite64(fd, b, n, o);
    if (x > 0) rec("write", p, NULL, o, x, b);
    return x;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    const char *p = fdname(fd);
    if (!p) return r_write(fd, b, n);
    if (mut_fault() || write_trim(&n)) return -1;
    off_t o = lseek(fd, 0, SEEK_CUR);
    ssize_t x = r_write(fd, b, n);
    if (x > 0) rec("write", p, NULL, o, x, b);
    return x;
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off_t);
    if (fdname(fd) && read_fault(&n)) return -1;
    return r_pread64(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (fdname(fd) && read_fault(&n)) return -1;
    return r_read(fd, b, n);
}
int ftruncate64(int fd, off_t l) {
    REAL(int, ftruncate64, int, off_t);
    const char *p = fdname(fd);
    if (!p) return r_ftruncate64(fd, l);
    if (mut_fault()) return -1;
    int x = r_ftruncate64(fd, l);
    if (!x) rec("truncate", p, NULL, l, 0, NULL);
    return x;
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
static int do_rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    int mine = ours(a) || ours(b);
    if (mine && mut_fault()) return -1;
    int x = r_rename(a, b);
    if (!x && mine) rec("rename", a, b, 0, 0, NULL);
    return x;
}
int rename(const char *a, const char *b) { return do_rename(a, b); }
int renameat(int d, const char *a, int e, const char *b) {
    if ((a[0] == '/' || d == AT_FDCWD) && (b[0] == '/' || e == AT_FDCWD)) return do_rename(a, b);
    REAL(int, renameat, int, const char *, int, const char *);
    return r_renameat(d, a, e, b);
}
int unlink(const char *a) {
    REAL(int, unlink, const char *);
    int mine = ours(a);
    if (mine && mut_fault()) return -1;
    int x = r_unlink(a);
    if (!x && mine) rec("unlink", a, NULL, 0, 0, NULL);
    return x;
}
int unlinkat(int d, const char *a, int fl) {
    REAL(int, unlinkat, int, const char *, int);
    char buf[4096];
    const char *p = at_path(d, a, buf, sizeof buf);
    if (p && mut_fault()) return -1;
    int x = r_unlinkat(d, a, fl);
    if (!x && p) rec((fl & AT_REMOVEDIR) ? "rmdir" : "unlink", p, NULL, 0, 0, NULL);
    return x;
}
int rmdir(const char *a) {
    REAL(int, rmdir, const char *);
    int mine = ours(a);
    if (mine && mut_fault()) return -1;
    int x = r_rmdir(a);
    if (!x && mine) rec("rmdir", a, NULL, 0, 0, NULL);
    return x;
}
int mkdir(const char *a, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    int mine = ours(a);
    if (mine && mut_fault()) return -1;
    int x = r_mkdir(a, m);
    if (!x && mine) rec("mkdir", a, NULL, 0, 0, NULL);
    return x;
}
int fsync(int fd) {
    REAL(int, fsync, int);
    const char *p = fdname(fd);
    if (!p) return r_fsync(fd);
    if (mut_fault()) return -1;
    rec("fsync", p, NULL, 0, 0, NULL);
    return 0; /* nothing below the prefix needs to survive this machine */
}

/* ---- simulated wall clock: each reading advances by a step, which may be negative (a clock set back) ---- */
#include <sys/time.h>
#include <time.h>
static int clk_on = 0;
static int64_t clk_now = 0, clk_step = 0, clk_jump = 0;
static long clk_jump_at = -1, clk_reads = 0;
void sim_clock(int on, int64_t now_ns, int64_t step_ns, long jump_at, int64_t jump_ns) {
    clk_on = on; clk_now = now_ns; clk_step = step_ns; clk_jump_at = jump_at; clk_jump = jump_ns; clk_reads = 0;
}
long sim_clock_reads(void) { return clk_reads; }
static int64_t clk_read(void) {
    clk_reads++;
    clk_now += clk_step;
    if (clk_reads == clk_jump_at) clk_now += clk_jump;
    return clk_now;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (!clk_on || c != CLOCK_REALTIME) return r_clock_gettime(c, t);
    int64_t v = clk_read();
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) {
    REAL(int, gettimeofday, struct timeval *, void *);
    if (!clk_on) return r_gettimeofday(t, z);
    int64_t v = clk_read();
    t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000;
    return 0;
}
time_t time(time_t *o) {
    REAL(time_t, time, time_t *);
    if (!clk_on) return r_time(o);
    time_t v = clk_read() / 1000000000;
    if (o) *o = v;
    return v;
}

/* ---- contents of freshly allocated memory: decided by the simulation instead of by chance ---- */
extern void *__libc_malloc(size_t);
static int mem_fill = -1;
void sim_memory(int byte) { mem_fill = byte; }
void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (mem_fill >= 0 && p) memset(p, mem_fill, n);
    return p;
}
