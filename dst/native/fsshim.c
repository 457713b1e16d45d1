/* Seam for file operations: an LD_PRELOAD library, inert until armed.
 * Counts the operations that touch paths below one root; at the n-th it injects one fault. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, ERR, ERR_STICKY, SHORT, TORN_KILL, KILL_BEFORE, KILL_AFTER, STOP_BEFORE, STOP_AFTER };

struct shared { int armed, ops, at, action, arg, fired, fired_op; char trace[2048]; };
static struct shared off, *sh = &off;
static char root[4096];
static size_t root_len;
static unsigned char ours[4096];        /* descriptors below the root */

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #name)

void dst_arm(struct shared *s, const char *r, int at, int action, int arg)
{
    strncpy(root, r, sizeof root - 1);
    root_len = strlen(root);
    sh = s;
    s->ops = s->fired = s->fired_op = 0;
    s->at = at; s->action = action; s->arg = arg;
    s->trace[0] = 0;
    memset(ours, 0, sizeof ours);
    s->armed = 1;
}

void dst_disarm(void) { sh->armed = 0; sh = &off; }

static int below(const char *path)
{
    char buf[8192];
    if (!sh->armed || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(buf, 4096)) return 0;
        strcat(buf, "/");
        strncat(buf, path, 4000);
        path = buf;
    }
    return strncmp(path, root, root_len) == 0 && (path[root_len] == '/' || path[root_len] == 0);
}

static int is_ours(int fd) { return sh->armed && fd >= 0 && fd < 4096 && ours[fd]; }

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* 0: go on; 1: fail with errno; 2: shortened transfer; 3: torn transfer, then death; 4: do it, then die; 5: do it, then stop */
static int enter(int op, int is_write, int mutates)
{
    struct shared *s = sh;
    size_t l = strlen(s->trace);
    s->ops++;
    if (l < sizeof s->trace - 2) { s->trace[l] = (char) op; s->trace[l + 1] = 0; }
    if (s->fired && s->action == ERR_STICKY && mutates) { errno = s->arg; return 1; }
    if (s->ops != s->at) return 0;
    s->fired = 1; s->fired_op = op;
    switch (s->action) {
    case ERR: errno = s->arg; return 1;
    case ERR_STICKY: if (mutates) { errno = s->arg; return 1; } return 0;
    case SHORT: return is_write ? 2 : 0;
    case TORN_KILL: if (is_write) return 3; die(); return 0;
    case KILL_BEFORE: die(); return 0;
    case KILL_AFTER: return 4;
    case STOP_BEFORE: kill(getpid(), SIGSTOP); return 0;
    case STOP_AFTER: return 5;
    }
    return 0;
}

static void leave(int e)
{
    int keep = errno;
    if (e == 4) die();
    if (e == 5) kill(getpid(), SIGSTOP);
    errno = keep;
}

static size_t part(size_t n)            /* how much of a transfer happens: arg in 1/1000 */
{
    size_t k = (size_t) ((double) n * sh->arg / 1000.0);
    return k >= n && n ? n - 1 : k;
}

#define OPEN_BODY(call) \
    int e = 0, fd, mine = below(path); \
    if (mine && (e = enter('o', 0, (flags & O_ACCMODE) != O_RDONLY)) == 1) return -1; \
    fd = call; \
    if (fd >= 0 && fd < 4096) ours[fd] = mine; \
    leave(e); \
    return fd;

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { MODE REAL(int, open, const char *, int, ...); OPEN_BODY(real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { MODE REAL(int, open64, const char *, int, ...); OPEN_BODY(real(path, flags, mode)) }
int openat(int dir, const char *path, int flags, ...) { MODE REAL(int, openat, int, const char *, int, ...); OPEN_BODY(real(dir, path, flags, mode)) }
int openat64(int dir, const char *path, int flags, ...) { MODE REAL(int, openat64, int, const char *, int, ...); OPEN_BODY(real(dir, path, flags, mode)) }

FILE *fopen(const char *path, const char *m)
{
    REAL(FILE *, fopen, const char *, const char *);
    int e = 0;
    if (below(path) && (e = enter('o', 0, m[0] != 'r')) == 1) return NULL;
    FILE *f = real(path, m);
    leave(e);
    return f;
}

#define XFER(call_full, call_part, total) \
    if (!is_ours(fd)) return call_full; \
    int e = enter('w', 1, 1); \
    if (e == 1) return -1; \
    if (e == 2) { size_t k = part(total); if (k == 0 && total > 0) k = 1; return call_part; } \
    if (e == 3) { size_t k = part(total); if (k) { ssize_t ign = call_part; (void) ign; } die(); } \
    ssize_t r = call_full; \
    leave(e); \
    return r;

ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); XFER(real(fd, b, n), real(fd, b, k), n) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); XFER(real(fd, b, n, o), real(fd, b, k, o), n) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); XFER(real(fd, b, n, o), real(fd, b, k, o), n) }

ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!is_ours(fd)) return real(fd, v, c);
    int e = enter('w', 1, 1);
    if (e == 1) return -1;
    if (e == 2 || e == 3) { ssize_t r = write(fd, v[0].iov_base, part(v[0].iov_len)); if (e == 3) die(); return r; }
    ssize_t r = real(fd, v, c);
    leave(e);
    return r;
}

ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); XFER(real(fd, in, o, n), real(fd, in, o, k), n) }
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { REAL(ssize_t, sendfile, int, int, off_t *, size_t); XFER(real(fd, in, o, n), real(fd, in, o, k), n) }
ssize_t copy_file_range(int in, off64_t *a, int fd, off64_t *b, size_t n, unsigned f)
{ REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); XFER(real(in, a, fd, b, n, f), real(in, a, fd, b, k, f), n) }

#define FD_OP(code, mut, call) \
    if (!is_ours(fd)) return call; \
    int e = enter(code, 0, mut); \
    if (e == 1) return -1; \
    int r = call; \
    leave(e); \
    return r;

int fsync(int fd) { REAL(int, fsync, int); FD_OP('s', 1, real(fd)) }
int fdatasync(int fd) { REAL(int, fdatasync, int); FD_OP('s', 1, real(fd)) }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); FD_OP('t', 1, real(fd, n)) }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); FD_OP('t', 1, real(fd, n)) }

int close(int fd)
{
    REAL(int, close, int);
    if (!is_ours(fd)) return real(fd);
    int e = enter('c', 0, 1);
    ours[fd] = 0;
    int keep = errno, r = real(fd);     /* a failing close releases the descriptor all the same */
    if (e == 1) { errno = keep; return -1; }
    leave(e);
    return r;
}

#define PATH_OP(code, mut, cond, call) \
    if (!(cond)) return call; \
    int e = enter(code, 0, mut); \
    if (e == 1) return -1; \
    int r = call; \
    leave(e); \
    return r;

int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); PATH_OP('r', 1, below(a) || below(b), real(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, renameat, int, const char *, int, const char *); PATH_OP('r', 1, below(a) || below(b), real(x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); PATH_OP('r', 1, below(a) || below(b), real(x, a, y, b, f)) }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); PATH_OP('l', 1, below(a) || below(b), real(a, b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(int, linkat, int, const char *, int, const char *, int); PATH_OP('l', 1, below(a) || below(b), real(x, a, y, b, f)) }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); PATH_OP('l', 1, below(b), real(a, b)) }
int unlink(const char *a) { REAL(int, unlink, const char *); PATH_OP('u', 0, below(a), real(a)) }
int unlinkat(int x, const char *a, int f) { REAL(int, unlinkat, int, const char *, int); PATH_OP('u', 0, below(a), real(x, a, f)) }
int truncate(const char *a, off_t n) { REAL(int, truncate, const char *, off_t); PATH_OP('t', 1, below(a), real(a, n)) }
int truncate64(const char *a, off64_t n) { REAL(int, truncate64, const char *, off64_t); PATH_OP('t', 1, below(a), real(a, n)) }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); PATH_OP('m', 1, below(a), real(a, m)) }
int chmod(const char *a, mode_t m) { REAL(int, chmod, const char *, mode_t); PATH_OP('h', 1, below(a), real(a, m)) }
