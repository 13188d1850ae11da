/* Loaded into the server (LD_PRELOAD) by the connection checks: sockets behave as slow or busy
 * networks make them behave. Reads and writes on sockets are cut short, and now and then report
 * that they would block, both of which any non-blocking socket may do at any time.
 * CED_SHIM_SEED seeds the choices; CED_SHIM_CUT is the percentage of calls cut.
 * CED_SHIM_PAUSE is the longest pause, in milliseconds, made around the calls by which sessions
 * appear, are found and disappear (a process may be preempted there at any time). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <dirent.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <time.h>

static uint64_t state;
static int cut = -1;

static uint64_t rnd(void)
{
    if (cut < 0) {
        const char *s = getenv("CED_SHIM_SEED"), *c = getenv("CED_SHIM_CUT");
        state = s ? strtoull(s, 0, 10) * 0x9e3779b97f4a7c15ull + 1 : 1;
        cut = c ? atoi(c) : 0;
    }
    uint64_t x = __atomic_add_fetch(&state, 0x9e3779b97f4a7c15ull, __ATOMIC_RELAXED);
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

static int is_stream(int fd)
{
    int type = 0, listening = 0;
    socklen_t l = sizeof type;
    if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &l) || type != SOCK_STREAM)
        return 0;
    l = sizeof listening;
    if (!getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &listening, &l) && listening)
        return 0;
    return fcntl(fd, F_GETFL) & O_NONBLOCK;
}

/* the length to ask for, or 0 to report that the call would block */
static size_t shorten(int fd, size_t n)
{
    int e = errno;
    uint64_t r = rnd();
    if (n == 0 || cut == 0 || (int)(r % 100) >= cut || !is_stream(fd)) {
        errno = e;
        return n;
    }
    errno = e;
    r >>= 8;
    switch (r % 8) {
    case 0: return 0;
    case 1: return 1;
    case 2: case 3: return 1 + (r >> 8) % (n < 16 ? n : 16);
    default: return 1 + (r >> 8) % n;
    }
}

#define REAL(name) ({ static __typeof__(name) *f; if (!f) f = dlsym(RTLD_NEXT, #name); f; })
#define CUT(fd, n) size_t m = shorten(fd, n); if (n && !m) { errno = EAGAIN; return -1; }

ssize_t read(int fd, void *b, size_t n) { CUT(fd, n) return REAL(read)(fd, b, m); }
ssize_t write(int fd, const void *b, size_t n) { CUT(fd, n) return REAL(write)(fd, b, m); }
ssize_t recv(int fd, void *b, size_t n, int f) { CUT(fd, n) return REAL(recv)(fd, b, m, f); }
ssize_t send(int fd, const void *b, size_t n, int f) { CUT(fd, n) return REAL(send)(fd, b, m, f); }
ssize_t recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l)
{ CUT(fd, n) return REAL(recvfrom)(fd, b, m, f, a, l); }
ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l)
{ CUT(fd, n) return REAL(sendto)(fd, b, m, f, a, l); }
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (c > 0 && v[0].iov_len) { CUT(fd, v[0].iov_len) if (m < v[0].iov_len) return REAL(read)(fd, v[0].iov_base, m); }
    return REAL(readv)(fd, v, c);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (c > 0 && v[0].iov_len) { CUT(fd, v[0].iov_len) if (m < v[0].iov_len) return REAL(write)(fd, v[0].iov_base, m); }
    return REAL(writev)(fd, v, c);
}

static void pause_a_little(void)
{
    static int longest = -1;
    static uint64_t own;
    int e = errno;
    if (longest < 0) {
        const char *s = getenv("CED_SHIM_SEED"), *p = getenv("CED_SHIM_PAUSE");
        own = ((s ? strtoull(s, 0, 10) : 0) + (uint64_t)getpid()) * 0x9e3779b97f4a7c15ull;
        longest = p ? atoi(p) : 0;
    }
    if (longest) {
        uint64_t x = __atomic_add_fetch(&own, 0x9e3779b97f4a7c15ull, __ATOMIC_RELAXED);
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        x ^= x >> 31;
        if (x % 2) {
            long us = (long)((x >> 8) % (uint64_t)(longest * 1000));
            struct timespec t = { us / 1000000, us % 1000000 * 1000 };
            nanosleep(&t, 0);
        }
    }
    errno = e;
}

#define AROUND(call) ({ pause_a_little(); __typeof__(call) r = (call); pause_a_little(); r; })
int bind(int fd, const struct sockaddr *a, socklen_t l) { return AROUND(REAL(bind)(fd, a, l)); }
int listen(int fd, int n) { return AROUND(REAL(listen)(fd, n)); }
int connect(int fd, const struct sockaddr *a, socklen_t l) { pause_a_little(); return REAL(connect)(fd, a, l); }
int mkdir(const char *p, mode_t m) { return AROUND(REAL(mkdir)(p, m)); }
int rmdir(const char *p) { return AROUND(REAL(rmdir)(p)); }
int unlink(const char *p) { return AROUND(REAL(unlink)(p)); }
int unlinkat(int d, const char *p, int f) { return AROUND(REAL(unlinkat)(d, p, f)); }
DIR *opendir(const char *p) { return strstr(p, "/ced-") ? AROUND(REAL(opendir)(p)) : REAL(opendir)(p); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict x)
{
    const char *volatile q = p; /* may be null, whatever is declared */
    if (!q || !strstr(q, "/ced-"))
        return REAL(statx)(d, p, f, m, x);
    int r = REAL(statx)(d, p, f, m, x);
    pause_a_little();
    return r;
}
