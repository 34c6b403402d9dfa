// Preloaded into the program under test: counts the write calls on one file (standard output, or
// the file named by MC_SHIM_FILE) and makes the one numbered MC_SHIM_AT (from 0) go wrong as
// MC_SHIM_HOW says: e<errno> once, E<errno> from there on, s<n> only n bytes are taken, i<n>
// interrupted n times, S<n> never more than n bytes at a time from there on.
// The number of calls is left in the file MC_SHIM_COUNT.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static long calls, at = -1, left;
static char how;
static long arg;
static ssize_t (*real_write)(int, const void *, size_t);

__attribute__((constructor)) static void start(void) {
    real_write = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    const char *a = getenv("MC_SHIM_AT"), *h = getenv("MC_SHIM_HOW");
    if (a && h) {
        at = atol(a);
        how = h[0];
        arg = atol(h + 1);
        left = arg;
    }
}

__attribute__((destructor)) static void stop(void) {
    const char *p = getenv("MC_SHIM_COUNT");
    if (!p) return;
    char b[32];
    int n = snprintf(b, sizeof b, "%ld\n", calls), fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        real_write(fd, b, n);
        close(fd);
    }
}

static int ours(int fd) {
    const char *p = getenv("MC_SHIM_FILE");
    if (!p) return fd == 1;
    struct stat a, b;
    return fstat(fd, &a) == 0 && stat(p, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev;
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (!ours(fd)) return real_write(fd, buf, n);
    long k = calls++;
    if (at < 0 || k < at) return real_write(fd, buf, n);
    switch (how) {
    case 'e':
        if (k == at) { errno = arg; return -1; }
        break;
    case 'E':
        errno = arg;
        return -1;
    case 's':
        if (k == at && n > (size_t)arg) n = arg;
        break;
    case 'S':
        if (n > (size_t)arg) n = arg;
        break;
    case 'i':
        if (left-- > 0) { errno = EINTR; return -1; }
        break;
    }
    return real_write(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    // as one write of everything
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    char *b = malloc(n + 1);
    size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = write(fd, b, n);
    int e = errno;
    free(b);
    errno = e;
    return r;
}
