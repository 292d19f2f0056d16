/* Preloaded into the R process: the medium of the model files.  When armed, bytes written to files under the
   armed prefix are accepted up to a budget and refused after it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[4096];
static long budget = -1;
static int err = 0, fired = 0;
static unsigned char tracked[4096];

void rfault_arm(char** p, int* bytes, int* e) { strncpy(prefix, p[0], sizeof prefix - 1); budget = *bytes; err = *e; fired = 0; }
void rfault_disarm(int* f) { *f = fired; budget = -1; prefix[0] = 0; memset(tracked, 0, sizeof tracked); }

static void note(const char* path, int fd) {
    if (fd >= 0 && fd < 4096) tracked[fd] = budget >= 0 && prefix[0] && !strncmp(path, prefix, strlen(prefix));
}
int open(const char* path, int flags, ...) {
    static int (*real)(const char*, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "open");
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    int fd = real(path, flags, mode); note(path, fd); return fd;
}
int open64(const char* path, int flags, ...) {
    static int (*real)(const char*, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "open64");
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    int fd = real(path, flags, mode); note(path, fd); return fd;
}
FILE* fopen(const char* path, const char* m) {
    static FILE* (*real)(const char*, const char*);
    if (!real) real = dlsym(RTLD_NEXT, "fopen");
    FILE* f = real(path, m); if (f) note(path, fileno(f)); return f;
}
FILE* fopen64(const char* path, const char* m) {
    static FILE* (*real)(const char*, const char*);
    if (!real) real = dlsym(RTLD_NEXT, "fopen64");
    FILE* f = real(path, m); if (f) note(path, fileno(f)); return f;
}
static long allow(int fd, long n) {
    if (fd < 0 || fd >= 4096 || !tracked[fd] || budget < 0) return n;
    if (budget == 0) { fired = 1; errno = err; return -1; }
    if (n > budget) n = budget;
    budget -= n;
    return n;
}
ssize_t write(int fd, const void* b, size_t n) {
    static ssize_t (*real)(int, const void*, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    long k = allow(fd, (long)n);
    if (k < 0) return -1;
    return real(fd, b, k);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    static ssize_t (*real)(int, const struct iovec*, int);
    if (!real) real = dlsym(RTLD_NEXT, "writev");
    if (fd < 0 || fd >= 4096 || !tracked[fd] || budget < 0) return real(fd, v, c);
    ssize_t done = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t k = write(fd, v[i].iov_base, v[i].iov_len);
        if (k < 0) return done ? done : -1;
        done += k;
        if ((size_t)k < v[i].iov_len) break;
    }
    return done;
}
void rfault_alarm(int* s) { alarm(*s); }
