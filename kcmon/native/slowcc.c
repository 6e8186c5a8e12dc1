/* Stands in for a compiler: runs the real one and then writes its output in two pieces, with a
   delay, a failure or the death of the process group in between.
   KCMON_CC=<real directory>, KCMON_CC_DELAY=<us>, KCMON_CC_FAULT=none|kill|fail|killself,
   KCMON_CC_LOG=<file>, KCMON_CC_WHO=<n>, KCMON_CC_AT=<which call of a file of ticks to disturb> */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static const char *env(const char *n, const char *d) { const char *v = getenv(n); return v ? v : d; }

static void note(const char *op, const char *phase, long ino, const char *name) {
    const char *l = getenv("KCMON_CC_LOG");
    if (!l) return;
    int fd = open(l, O_WRONLY | O_APPEND);
    if (fd < 0) return;
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    char b[600];
    size_t len = strlen(name);
    int n = snprintf(b, sizeof b, "%lld %s %s %s %ld %s\n", t.tv_sec * 1000000000ll + t.tv_nsec,
                     env("KCMON_CC_WHO", "-1"), op, phase, ino, len > 190 ? name + len - 190 : name);
    if (write(fd, b, n) < 0) exit(90);
    close(fd);
}

int main(int argc, char **argv) {
    char real[4096], tmp[4096];
    const char *base = strrchr(argv[0], '/');
    snprintf(real, sizeof real, "%s/%s", env("KCMON_CC", "/usr/bin"), base ? base + 1 : argv[0]);
    int out = -1;
    for (int i = 1; i + 1 < argc; i++)
        if (!strcmp(argv[i], "-o")) out = i + 1;
    unsetenv("LD_PRELOAD");
    if (out < 0 || !strncmp(argv[out], "/dev/", 5)) {
        argv[0] = real;
        execv(real, argv);
        return 91;
    }
    const char *target = argv[out];
    const char *dir = env("KCMON_CC_TMP", "/tmp");
    snprintf(tmp, sizeof tmp, "%s/cc.%d.%s", dir, getpid(),
             strrchr(target, '.') && !strchr(strrchr(target, '.'), '/') ? strrchr(target, '.') + 1 : "out");
    argv[out] = tmp;
    argv[0] = real;
    pid_t p = fork();
    if (!p) { execv(real, argv); _exit(92); }
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { unlink(tmp); return WIFEXITED(st) ? WEXITSTATUS(st) : 93; }
    const char *fault = env("KCMON_CC_FAULT", "none");
    int in = open(tmp, O_RDONLY);
    struct stat s;
    if (in < 0 || fstat(in, &s)) return 94;
    char *b = malloc(s.st_size + 1);
    if (read(in, b, s.st_size) != s.st_size) return 95;
    close(in);
    unlink(tmp);
    int fd = open(target, O_WRONLY | O_CREAT | O_TRUNC, s.st_mode & 0777);
    if (fd < 0) return 96;
    struct stat so;
    fstat(fd, &so);
    fchmod(fd, s.st_mode & 0777);
    note("openW", "did", (long)so.st_ino, target);
    long h = s.st_size / 2;
    if (write(fd, b, h) != h) return 97;
    if (strcmp(fault, "none")) note("cc", "KILL", 0, target);
    if (!strcmp(fault, "kill")) { kill(0, SIGKILL); for (;;) pause(); }
    if (!strcmp(fault, "killself")) { kill(getpid(), SIGKILL); for (;;) pause(); }
    if (!strcmp(fault, "fail")) { fprintf(stderr, "No space left on device\n"); return 1; }
    long us = atol(env("KCMON_CC_DELAY", "0"));
    struct timespec t = {us / 1000000, (us % 1000000) * 1000l};
    nanosleep(&t, 0);
    if (write(fd, b + h, s.st_size - h) != s.st_size - h) return 98;
    note("shut", "W", (long)so.st_ino, target);
    close(fd);
    return 0;
}
