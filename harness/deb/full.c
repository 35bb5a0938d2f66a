// A directory that fills up, or in which the machine stops: LD_PRELOADed into contrib/debianize.py and the
// tools it calls. DEB_FULL=DIRECTORY, DEB_ROOM=BYTES, DEB_KILL=1: not "no space left" but SIGKILL.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <unistd.h>

static long long used;

// how many of n bytes there is room for; -1: none
static long long room(int fd, size_t n) {
    const char *dir = getenv("DEB_FULL"), *limit = getenv("DEB_ROOM");
    if (!dir || !limit || n == 0) return n;
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    int saved = errno;
    ssize_t len = readlink(link, path, sizeof path - 1);
    errno = saved;
    if (len <= 0) return n;
    path[len] = 0;
    size_t d = strlen(dir);
    if (strncmp(path, dir, d) || path[d] != '/') return n;
    long long left = atoll(limit) - used;
    if (left <= 0) {
        if (getenv("DEB_KILL")) kill(getpid(), SIGKILL);
        errno = ENOSPC;
        return -1;
    }
    return (long long)n < left ? (long long)n : left;
}
static ssize_t count(int fd, ssize_t r) {
    const char *dir = getenv("DEB_FULL");
    if (r > 0 && dir) {
        char link[64], path[4096];
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        ssize_t len = readlink(link, path, sizeof path - 1);
        size_t d = strlen(dir);
        if (len > 0) { path[len] = 0; if (!strncmp(path, dir, d) && path[d] == '/') used += r; }
    }
    return r;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
ssize_t write(int fd, const void *p, size_t n) {
    REAL(write);
    long long k = room(fd, n);
    return k < 0 ? -1 : count(fd, real(fd, p, k));
}
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t at) {
    REAL(pwrite64);
    long long k = room(fd, n);
    return k < 0 ? -1 : count(fd, real(fd, p, k, at));
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    size_t all = 0;
    for (int i = 0; i < n; i++) all += v[i].iov_len;
    long long k = room(fd, all);
    if (k < 0) return -1;
    if ((size_t)k == all) return count(fd, real(fd, v, n));
    for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t sendfile(int out, int in, off_t *at, size_t n) {
    REAL(sendfile);
    long long k = room(out, n);
    return k < 0 ? -1 : count(out, real(out, in, at, k));
}
ssize_t sendfile64(int out, int in, off64_t *at, size_t n) {
    REAL(sendfile64);
    long long k = room(out, n);
    return k < 0 ? -1 : count(out, real(out, in, at, k));
}
ssize_t copy_file_range(int in, off64_t *ia, int out, off64_t *oa, size_t n, unsigned flags) {
    REAL(copy_file_range);
    long long k = room(out, n);
    return k < 0 ? -1 : count(out, real(in, ia, out, oa, k, flags));
}
