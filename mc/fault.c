/* LD_PRELOAD: count the file-system effects on paths below a prefix, and stop or fail the k-th one.
 * mode 0: only count; 1: exit before the effect; 2: exit after half of a write; 3: the effect fails with ENOSPC. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static long count, at;
static int mode = -1, pid;
#define EXIT 77

void fault_arm(const char *p, long k, int m) { strncpy(prefix, p, PATH_MAX - 1); count = 0; at = k; mode = m; pid = getpid(); }
long fault_count(void) { return count; }
void fault_disarm(void) { mode = -1; }

static int below(const char *p) {
    if (mode < 0 || getpid() != pid) return 0;
    char abs[2 * PATH_MAX];
    if (p[0] != '/') {
        if (!getcwd(abs, PATH_MAX)) return 0;
        strncat(abs, "/", 2);
        strncat(abs, p, PATH_MAX - 1);
    } else strncpy(abs, p, sizeof abs - 1), abs[sizeof abs - 1] = 0;
    return strncmp(abs, prefix, strlen(prefix)) == 0;
}
static int fd_below(int fd) {
    if (mode < 0 || getpid() != pid) return 0;
    char link[64], path[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0;
    return path[0] == '/' && below(path);
}
/* 0: go on; 1: torn; 2: fail */
static int effect(int can_tear) {
    count++;
    if (!mode || count != at) return 0;
    if (mode == 1) _exit(EXIT);
    if (mode == 2) { if (can_tear) return 1; _exit(EXIT); }
    errno = ENOSPC;
    return 2;
}
#define REAL(r, name, ...) static r (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

#define OPEN(name) \
int name(const char *p, int flags, ...) { \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    REAL(int, #name, const char *, int, ...); \
    if ((flags & (O_CREAT | O_TRUNC)) && below(p) && effect(0) == 2) return -1; \
    return real(p, flags, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *p, int flags, ...) { \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    REAL(int, #name, int, const char *, int, ...); \
    if ((flags & (O_CREAT | O_TRUNC)) && below(p) && effect(0) == 2) return -1; \
    return real(d, p, flags, m); }
OPENAT(openat)
OPENAT(openat64)
#define FOPEN(name) \
FILE *name(const char *p, const char *m) { \
    REAL(FILE *, #name, const char *, const char *); \
    if (m[0] == 'w' && below(p) && effect(0) == 2) return NULL; \
    return real(p, m); }
FOPEN(fopen)
FOPEN(fopen64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (fd_below(fd)) switch (effect(1)) {
        case 1: real(fd, b, n / 2); _exit(EXIT);
        case 2: return -1; }
    return real(fd, b, n);
}
#define PWRITE(name) \
ssize_t name(int fd, const void *b, size_t n, off_t o) { \
    REAL(ssize_t, #name, int, const void *, size_t, off_t); \
    if (fd_below(fd)) switch (effect(1)) { case 1: real(fd, b, n / 2, o); _exit(EXIT); case 2: return -1; } \
    return real(fd, b, n, o); }
PWRITE(pwrite)
PWRITE(pwrite64)
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (fd_below(fd)) switch (effect(1)) { case 1: real(fd, v, c / 2); _exit(EXIT); case 2: return -1; }
    return real(fd, v, c);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    REAL(size_t, "fwrite", const void *, size_t, size_t, FILE *);
    if (fd_below(fileno(f))) switch (effect(1)) {
        case 1: real(b, 1, s * n / 2, f); fflush(f); _exit(EXIT);
        case 2: return 0; }
    return real(b, s, n, f);
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *);
    if ((below(a) || below(b)) && effect(0) == 2) return -1;
    return real(a, b);
}
int renameat(int c, const char *a, int d, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if ((below(a) || below(b)) && effect(0) == 2) return -1;
    return real(c, a, d, b);
}
int link(const char *a, const char *b) {
    REAL(int, "link", const char *, const char *);
    if (below(b) && effect(0) == 2) return -1;
    return real(a, b);
}
int unlink(const char *a) {
    REAL(int, "unlink", const char *);
    if (below(a) && effect(0) == 2) return -1;
    return real(a);
}
int unlinkat(int d, const char *a, int f) {
    REAL(int, "unlinkat", int, const char *, int);
    if (below(a) && effect(0) == 2) return -1;
    return real(d, a, f);
}
#define TRUNC(name, T) \
int name(int fd, T n) { \
    REAL(int, #name, int, T); \
    if (fd_below(fd) && effect(0) == 2) return -1; \
    return real(fd, n); }
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)
ssize_t sendfile(int o, int i, off_t *p, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (fd_below(o) && effect(0) == 2) return -1;
    return real(o, i, p, n);
}
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (fd_below(o) && effect(0) == 2) return -1;
    return real(o, i, p, n);
}
ssize_t copy_file_range(int i, off64_t *p, int o, off64_t *q, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (fd_below(o) && effect(0) == 2) return -1;
    return real(i, p, o, q, n, f);
}
int mkdir(const char *a, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    if (below(a) && effect(0) == 2) return -1;
    return real(a, m);
}
