/* Preloaded: end the process at the k-th change it makes to a file under a prefix, before or in the middle of it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/uio.h>

static char prefix[4096];
static long at = -1, seen;
static int torn;

/* k: the change to stop at (0: never); mode 0: before it, 1: after its first byte, 2: half way, 3: all but one byte */
void crash_arm(const char *p, long k, int mode)
{
    snprintf(prefix, sizeof prefix, "%s", p);
    at = k;
    seen = 0;
    torn = mode;
}

long crash_seen(void) { return seen; }

static int ours(const char *path) { return at >= 0 && path && prefix[0] && !strncmp(path, prefix, strlen(prefix)); }

static int ours_fd(int fd)
{
    char link[64], path[4096];
    ssize_t n;
    if (at < 0)
        return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = readlink(link, path, sizeof path - 1);
    if (n <= 0)
        return 0;
    path[n] = 0;
    return ours(path);
}

static size_t part(size_t n) { return torn == 1 ? (n > 0) : torn == 2 ? n / 2 : torn == 3 ? n - (n > 0) : 0; }

#define REAL(name) __typeof__(name) *real = (__typeof__(name) *) dlsym(RTLD_NEXT, #name)
#define STEP(mine, tear) do { if (mine) { seen++; if (at > 0 && seen == at) { tear; _exit(99); } } } while (0)

ssize_t write(int fd, const void *b, size_t n) { REAL(write); STEP(ours_fd(fd), if (part(n)) (void) !real(fd, b, part(n))); return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); STEP(ours_fd(fd), if (part(n)) (void) !real(fd, b, part(n), o)); return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); STEP(ours_fd(fd), if (part(n)) (void) !real(fd, b, part(n), o)); return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); STEP(ours_fd(fd), ); return real(fd, v, c); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); STEP(ours_fd(fd), ); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); STEP(ours_fd(fd), ); return real(fd, n); }
int unlink(const char *p) { REAL(unlink); STEP(ours(p), ); return real(p); }
int rename(const char *a, const char *b) { REAL(rename); STEP(ours(a) || ours(b), ); return real(a, b); }
