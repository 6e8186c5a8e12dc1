/* Preloaded library: observes, delays and kills file operations below one directory.
   Inactive until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static char prefix[4096], prefix2[4096];
static size_t plen, plen2;
static int armed, log_fd = -1, who;
static long ops, kill_at = -1;
static int kill_phase;             /* 0: before, 1: after, 2: writes half */
static unsigned delay_permille, delay_max_us;
static unsigned long long rnd;
static struct { char tracked; char name[200]; } fds[MAXFD];

#define REAL(type, name, ...) \
    static type (*real_##name)(__VA_ARGS__); \
    static void init_##name(void) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }
REAL(int, open, const char *, int, ...)
REAL(int, open64, const char *, int, ...)
REAL(int, openat, int, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(ssize_t, write, int, const void *, size_t)
REAL(int, close, int)
REAL(int, flock, int, int)
REAL(int, rename, const char *, const char *)
REAL(int, unlink, const char *)
REAL(int, mkdir, const char *, mode_t)

void faults_arm(const char *dir, const char *dir2, int me, int logfd, long kill_n, int phase, unsigned permille,
                unsigned max_us, unsigned long long seed) {
    init_open(); init_open64(); init_openat(); init_openat64(); init_write(); init_close();
    init_flock(); init_rename(); init_unlink(); init_mkdir();
    snprintf(prefix, sizeof prefix, "%s", dir);
    plen = strlen(prefix);
    snprintf(prefix2, sizeof prefix2, "%s", dir2);
    plen2 = strlen(prefix2);
    who = me; log_fd = logfd; kill_at = kill_n; kill_phase = phase;
    delay_permille = permille; delay_max_us = max_us; rnd = seed * 2654435761u + 88172645463325252ull;
    ops = 0; armed = 1;
}

long faults_count(void) { return ops; }
void faults_disarm(void) { armed = 0; }

static int inside(const char *p, char *name) {
    char full[8192];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, p);
    } else
        snprintf(full, sizeof full, "%s", p);
    const char *rest;
    if (!strncmp(full, prefix, plen)) rest = full + plen;
    else if (plen2 && !strncmp(full, prefix2, plen2)) rest = full + plen2;
    else return 0;
    if (name) { /* the end of long names */
        size_t l = strlen(rest);
        snprintf(name, 200, "%s", l > 190 ? rest + l - 190 : rest);
    }
    return 1;
}

static void note(const char *op, const char *phase, const char *name, long extra) {
    if (log_fd < 0) return;
    char b[400];
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    int n = snprintf(b, sizeof b, "%lld %d %s %s %ld %s\n", t.tv_sec * 1000000000ll + t.tv_nsec, who, op,
                     phase, extra, name);
    init_write();
    real_write(log_fd, b, n);
}

static void die(void) { kill(0, SIGKILL); for (;;) pause(); }

/* returns whether the process has to die within this operation */
static int before(const char *op, const char *name) {
    rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
    if (delay_permille && rnd % 1000 < delay_permille && delay_max_us) {
        struct timespec t = {0, 0};
        unsigned us = (rnd >> 20) % delay_max_us;
        t.tv_sec = us / 1000000; t.tv_nsec = (us % 1000000) * 1000l;
        nanosleep(&t, 0);
    }
    long n = ++ops;
    if (kill_at == -2) note(op, "nth", name, n);
    if (n == kill_at) {
        note(op, "KILL", name, kill_phase);
        if (kill_phase == 0) die();
        return 1;
    }
    return 0;
}

static int opened(int fd, int flags, const char *name, int kill_now) {
    if (fd >= 0 && fd < MAXFD) {
        struct stat s;
        fds[fd].tracked = (flags & O_ACCMODE) == O_RDONLY ? 1 : 2;
        snprintf(fds[fd].name, sizeof fds[fd].name, "%s", name);
        int e = errno;
        fstat(fd, &s);
        note((flags & O_ACCMODE) == O_RDONLY ? "openR" : "openW", "did", name, (long)s.st_ino);
        errno = e;
    }
    if (kill_now) die();
    return fd;
}

#define OPEN(fn, ARGS, CALL, PATH) \
int fn ARGS { \
    mode_t m = 0; char name[200]; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    init_##fn(); \
    if (!inside(PATH, name)) return real_##fn CALL; \
    int k = before("open", name); \
    return opened(real_##fn CALL, flags, name, k); \
}
OPEN(open, (const char *p, int flags, ...), (p, flags, m), p)
OPEN(open64, (const char *p, int flags, ...), (p, flags, m), p)
OPEN(openat, (int d, const char *p, int flags, ...), (d, p, flags, m), d == AT_FDCWD || p[0] == '/' ? p : 0)
OPEN(openat64, (int d, const char *p, int flags, ...), (d, p, flags, m), d == AT_FDCWD || p[0] == '/' ? p : 0)

ssize_t write(int fd, const void *b, size_t n) {
    init_write();
    if (!armed || fd < 0 || fd >= MAXFD || fds[fd].tracked != 2) return real_write(fd, b, n);
    if (before("write", fds[fd].name)) {
        if (kill_phase == 2) real_write(fd, b, n / 2); else real_write(fd, b, n);
        die();
    }
    if (delay_permille && n > 1) { /* in two pieces, others may run in between */
        ssize_t h = real_write(fd, b, n / 2);
        if (h != (ssize_t)(n / 2)) return h;
        before("write2", fds[fd].name);
        ssize_t r = real_write(fd, (const char *)b + h, n - h);
        return r < 0 ? h : h + r;
    }
    return real_write(fd, b, n);
}

int close(int fd) {
    init_close();
    if (!armed || fd < 0 || fd >= MAXFD || !fds[fd].tracked) return real_close(fd);
    int k = before("close", fds[fd].name);
    note("close", fds[fd].tracked == 2 ? "W" : "R", fds[fd].name, fd);
    struct stat s;
    if (!fstat(fd, &s)) note("shut", fds[fd].tracked == 2 ? "W" : "R", fds[fd].name, (long)s.st_ino);
    fds[fd].tracked = 0;
    int r = real_close(fd);
    if (k) die();
    return r;
}

int flock(int fd, int op) {
    init_flock();
    if (!armed || fd < 0 || fd >= MAXFD || !fds[fd].tracked) return real_flock(fd, op);
    int k = before("flock", fds[fd].name);
    note("flock", "ask", fds[fd].name, op);
    int r = real_flock(fd, op);
    int e = errno;
    note("flock", "got", fds[fd].name, op);
    errno = e;
    if (k) die();
    return r;
}

int rename(const char *a, const char *b) {
    char name[200];
    init_rename();
    if (!inside(b, name)) return real_rename(a, b);
    int k = before("rename", name);
    int r = real_rename(a, b), e = errno;
    note("rename", "did", name, r);
    errno = e;
    if (k) die();
    return r;
}

int unlink(const char *p) {
    char name[200];
    init_unlink();
    if (!inside(p, name)) return real_unlink(p);
    int k = before("unlink", name);
    int r = real_unlink(p), e = errno;
    note("unlink", "did", name, r);
    errno = e;
    if (k) die();
    return r;
}

int mkdir(const char *p, mode_t m) {
    char name[200];
    init_mkdir();
    if (!inside(p, name)) return real_mkdir(p, m);
    int k = before("mkdir", name);
    int r = real_mkdir(p, m), e = errno;
    note("mkdir", "did", name, r);
    errno = e;
    if (k) die();
    return r;
}
