/* Fails, or ends the process at, the k-th file operation below a directory. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, ONCE, STICKY, SHORT, KILL, KILLHALF, INTR };
static char prefix[PATH_MAX];
static size_t plen;
static int mode, on, n, target, full, hit;
static char ops[65536]; /* one letter per operation */

void fault_begin(const char *dir, int k, int m)
{
    snprintf(prefix, sizeof prefix, "%s/", dir);
    plen = strlen(prefix);
    n = 0; target = k; mode = m; full = 0; hit = 0; on = 1;
}
int fault_end(void) { on = 0; return n; }
const char *fault_ops(void) { ops[n < 65535 ? n : 65535] = 0; return ops; }
int fault_hit(void) { return hit; }

static int below(const char *path)
{
    char buf[PATH_MAX * 2], cwd[PATH_MAX];
    if (!on || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
        path = buf;
    }
    return strncmp(path, prefix, plen) == 0;
}

static int fdbelow(int fd)
{
    char link[64], buf[PATH_MAX];
    ssize_t k;
    if (!on) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    k = readlink(link, buf, sizeof buf - 1);
    if (k <= 0) return 0;
    buf[k] = 0;
    return strncmp(buf, prefix, plen) == 0;
}

/* 0: go on; 1: fail with errno; 2: do half of the write */
static int step(char op, int err)
{
    int me = n;
    if (me < 65535) ops[me] = op;
    n++;
    if (full && (op == 'w')) { errno = ENOSPC; return 1; }
    if (me != target) return 0;
    switch (mode) {
    case ONCE: hit = 1; errno = err; return 1;
    case STICKY: if (op == 'w') { hit = full = 1; errno = ENOSPC; return 1; } return 0;
    case SHORT: if (op == 'w') { hit = full = 1; return 2; } return 0;
    case KILL: _exit(137);
    case KILLHALF: hit = 1; return op == 'w' ? 3 : (_exit(137), 1);
    case INTR: hit = 1; raise(SIGINT); return 0;
    }
    return 0;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    mode_t m = 0; int r; REAL(int, name, const char *, int, ...); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    if (!(flags & O_DIRECTORY) && below(path) && step((flags & O_CREAT) ? 'C' : 'o', (flags & O_CREAT) ? ENOSPC : EACCES) == 1) return -1; \
    r = real(path, flags, m); \
    return r; \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *path, int flags, ...) \
{ \
    mode_t m = 0; REAL(int, name, int, const char *, int, ...); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    if (!(flags & O_DIRECTORY) && below(path) && step((flags & O_CREAT) ? 'C' : 'o', (flags & O_CREAT) ? ENOSPC : EACCES) == 1) return -1; \
    return real(d, path, flags, m); \
}
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t c)
{
    REAL(ssize_t, write, int, const void *, size_t);
    if (on && fdbelow(fd)) {
        int s = step('w', ENOSPC);
        if (s == 1) return -1;
        if (s == 2) return real(fd, b, c > 1 ? c / 2 : c);
        if (s == 3) { real(fd, b, c / 2); _exit(137); }
    }
    return real(fd, b, c);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (on && fdbelow(fd)) { int s = step('w', ENOSPC); if (s == 1) return -1; if (s == 3) _exit(137); }
    return real(fd, v, c);
}
#define PWRITE(name, off) \
ssize_t name(int fd, const void *b, size_t c, off o) \
{ \
    REAL(ssize_t, name, int, const void *, size_t, off); \
    if (on && fdbelow(fd)) { int s = step('w', ENOSPC); if (s == 1) return -1; if (s == 3) _exit(137); } \
    return real(fd, b, c, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
#define SENDFILE(name, off) \
ssize_t name(int fd, int in, off *o, size_t c) \
{ \
    REAL(ssize_t, name, int, int, off *, size_t); \
    if (on && fdbelow(fd)) { int s = step('w', ENOSPC); if (s == 1) return -1; if (s == 3) _exit(137); } \
    return real(fd, in, o, c); \
}
SENDFILE(sendfile, off_t)
SENDFILE(sendfile64, off64_t)
ssize_t copy_file_range(int in, off64_t *i, int fd, off64_t *o, size_t c, unsigned f)
{
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (on && fdbelow(fd)) { int s = step('w', ENOSPC); if (s == 1) return -1; if (s == 3) _exit(137); }
    return real(in, i, fd, o, c, f);
}
ssize_t read(int fd, void *b, size_t c)
{
    REAL(ssize_t, read, int, void *, size_t);
    if (on && fdbelow(fd) && step('r', EIO) == 1) return -1;
    return real(fd, b, c);
}
int close(int fd)
{
    int s = 0; REAL(int, close, int);
    if (on && fdbelow(fd)) s = step('c', EIO);
    if (s == 1) { real(fd); errno = EIO; return -1; }
    return real(fd);
}
int fsync(int fd)
{
    REAL(int, fsync, int);
    if (on && fdbelow(fd) && step('s', EIO) == 1) return -1;
    return real(fd);
}
int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    if ((below(a) || below(b)) && step('R', EACCES) == 1) return -1;
    return real(a, b);
}
int renameat(int d, const char *a, int e, const char *b)
{
    REAL(int, renameat, int, const char *, int, const char *);
    if ((below(a) || below(b)) && step('R', EACCES) == 1) return -1;
    return real(d, a, e, b);
}
int link(const char *a, const char *b)
{
    REAL(int, link, const char *, const char *);
    if (below(b) && step('L', EACCES) == 1) return -1;
    return real(a, b);
}
int unlink(const char *a)
{
    REAL(int, unlink, const char *);
    if (below(a) && step('u', EACCES) == 1) return -1;
    return real(a);
}
int unlinkat(int d, const char *a, int f)
{
    REAL(int, unlinkat, int, const char *, int);
    if (below(a) && step('u', EACCES) == 1) return -1;
    return real(d, a, f);
}
int chmod(const char *a, mode_t m)
{
    REAL(int, chmod, const char *, mode_t);
    if (below(a) && step('m', EPERM) == 1) return -1;
    return real(a, m);
}
int fchmodat(int d, const char *a, mode_t m, int f)
{
    REAL(int, fchmodat, int, const char *, mode_t, int);
    if (below(a) && step('m', EPERM) == 1) return -1;
    return real(d, a, m, f);
}
int fchmod(int fd, mode_t m)
{
    REAL(int, fchmod, int, mode_t);
    if (on && fdbelow(fd) && step('m', EPERM) == 1) return -1;
    return real(fd, m);
}
int ftruncate(int fd, off_t l)
{
    REAL(int, ftruncate, int, off_t);
    if (on && fdbelow(fd) && step('t', EIO) == 1) return -1;
    return real(fd, l);
}
int ftruncate64(int fd, off64_t l)
{
    REAL(int, ftruncate64, int, off64_t);
    if (on && fdbelow(fd) && step('t', EIO) == 1) return -1;
    return real(fd, l);
}
