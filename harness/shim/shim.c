// Preloaded into the tools under test: pretends a number of CPUs, and makes reads and writes short, interrupted or failing.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static long num(const char *name) {
    const char *s = getenv(name);
    return s && *s ? atol(s) : -1;
}

int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    static int (*real)(pid_t, size_t, cpu_set_t *);
    long n = num("VH_CPUS");
    if (n <= 0) {
        if (!real) real = (int (*)(pid_t, size_t, cpu_set_t *))dlsym(RTLD_NEXT, "sched_getaffinity");
        return real(pid, size, set);
    }
    memset(set, 0, size);
    for (long i = 0; i < n && (size_t)i < size * 8; i++) CPU_SET_S(i, size, set);
    return 0;
}

// which descriptor is meant: VH_RD_FILE "dev:ino", or descriptor 0 with VH_RD_FILE=stdin
static int meant(int fd) {
    const char *s = getenv("VH_RD_FILE");
    struct stat st;
    if (!s) return 0;
    if (!strcmp(s, "stdin")) return fd == 0;
    char *end;
    unsigned long long dev = strtoull(s, &end, 10), ino = strtoull(end + 1, 0, 10);
    return fstat(fd, &st) == 0 && (unsigned long long)st.st_dev == dev && (unsigned long long)st.st_ino == ino;
}

static long rd_calls, rd_total, wr_calls, wr_total, rd_failed, wr_failed;

ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    if (!meant(fd)) return real(fd, buf, n);
    long max = num("VH_RD_MAX"), intr = num("VH_RD_EINTR"), fail = num("VH_RD_FAIL");
    rd_calls++;
    if (intr > 0 && rd_calls % intr == 0) { errno = EINTR; return -1; }
    if (fail >= 0 && !(rd_failed && num("VH_ONCE") > 0)) {
        if (rd_total >= fail) { rd_failed = 1; errno = EIO; return -1; }
        if ((long)n > fail - rd_total) n = fail - rd_total;
    }
    if (max > 0 && (long)n > max) n = max;
    ssize_t r = real(fd, buf, n);
    if (r > 0) rd_total += r;
    return r;
}

ssize_t write(int fd, const void *buf, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    if (fd != 1) return real(fd, buf, n);
    long max = num("VH_WR_MAX"), intr = num("VH_WR_EINTR"), fail = num("VH_WR_FAIL");
    wr_calls++;
    if (intr > 0 && wr_calls % intr == 0) { errno = EINTR; return -1; }
    if (fail >= 0 && !(wr_failed && num("VH_ONCE") > 0)) {
        if (wr_total >= fail) { wr_failed = 1; errno = ENOSPC; return -1; }
        if ((long)n > fail - wr_total) n = fail - wr_total;
    }
    if (max > 0 && (long)n > max) n = max;
    ssize_t r = real(fd, buf, n);
    if (r > 0) wr_total += r;
    return r;
}
