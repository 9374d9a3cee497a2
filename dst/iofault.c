/* Storage seam: libc I/O on files below one directory, under the control of the simulator.
 *
 * Preloaded into the simulated process; does nothing until armed.  Counts opens, bytes
 * read and written, closes, syncs and renames of files below the prefix and lets exactly
 * one planned fault happen: an error at the n-th open/close/sync/rename, an error after
 * the n-th byte read or written (the bytes before it are transferred: a short transfer),
 * or harmless short transfers and interruptions that a correct program does not notice.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_NONE, OP_OPEN, OP_WRITE, OP_CLOSE, OP_READ, OP_FSYNC, OP_RENAME, OP_SHORTW, OP_SHORTR, OP_EINTRW, OP_READCALL, OP_NOPS };

#define MAXFD 4096
static char prefix[4096];
static size_t plen;
static int armed;
static unsigned char tracked[MAXFD];
static FILE *files[64];
static int file_err[64];
static int f_op, f_err, f_persist, f_fired;
static long f_n;
static long stats[OP_NOPS];

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void iof_arm(const char *p, int op, long n, int err, int persist)
{
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    memset(tracked, 0, sizeof tracked);
    memset(files, 0, sizeof files);
    memset(file_err, 0, sizeof file_err);
    memset(stats, 0, sizeof stats);
    f_op = op; f_n = n; f_err = err; f_persist = persist; f_fired = 0;
    armed = 1;
}
void iof_disarm(void) { armed = 0; }
int iof_fired(void) { return f_fired; }
long iof_stat(int i) { return i >= 0 && i < OP_NOPS ? stats[i] : -1; }

static int below(const char *path)
{
    char buf[8192];
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(buf, 4096)) return 0;
        strncat(buf, "/", 2);
        strncat(buf, path, 4000);
        path = buf;
    }
    return strncmp(path, prefix, plen) == 0;
}

/* the n-th event of a counted kind */
static int event(int op)
{
    long k = ++stats[op];
    if (f_op == op && (k == f_n || (f_persist && k > f_n && f_fired))) { f_fired++; errno = f_err; return 1; }
    return 0;
}

static int do_open(int fd)
{
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
    return fd;
}

#define OPEN_BODY(name, call) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    int b = below(path) && !(flags & O_DIRECTORY); \
    if (b && event(OP_OPEN)) return -1; \
    int fd = call; \
    return b ? do_open(fd) : fd;

int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...); OPEN_BODY(open, real_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...); OPEN_BODY(open64, real_open64(path, flags, mode)) }
int openat(int dir, const char *path, int flags, ...) { REAL(int, openat, int, const char *, int, ...); OPEN_BODY(openat, real_openat(dir, path, flags, mode)) }
int openat64(int dir, const char *path, int flags, ...) { REAL(int, openat64, int, const char *, int, ...); OPEN_BODY(openat64, real_openat64(dir, path, flags, mode)) }

#define FOPEN_BODY(call) \
    int b = below(path); \
    if (b && event(OP_OPEN)) return NULL; \
    FILE *f = call; \
    if (b && f) { do_open(fileno(f)); for (int i = 0; i < 64; i++) if (!files[i]) { files[i] = f; file_err[i] = 0; break; } } \
    return f;
FILE *fopen(const char *path, const char *m) { REAL(FILE *, fopen, const char *, const char *); FOPEN_BODY(real_fopen(path, m)) }
FILE *fopen64(const char *path, const char *m) { REAL(FILE *, fopen64, const char *, const char *); FOPEN_BODY(real_fopen64(path, m)) }

/* bytes that may be transferred now; -1: fail */
static long allow(int op, int shortop, long count)
{
    if (f_op == op) {
        if (f_fired) { if (f_persist) { f_fired++; return -1; } }
        else if (stats[op] >= f_n) { f_fired++; return -1; }
        else if (stats[op] + count > f_n) return f_n - stats[op];
    }
    if (f_op == shortop && count > f_n) { f_fired++; return f_n; }
    return count;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    if (!armed || fd < 0 || fd >= MAXFD || !tracked[fd]) return real_write(fd, buf, n);
    if (f_op == OP_EINTRW && f_fired < f_n) { f_fired++; errno = EINTR; return -1; }
    long c = allow(OP_WRITE, OP_SHORTW, n);
    if (c < 0) { errno = f_err; return -1; }
    ssize_t r = real_write(fd, buf, c);
    if (r > 0) stats[OP_WRITE] += r;
    return r;
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!armed || fd < 0 || fd >= MAXFD || !tracked[fd]) return real_pwrite64(fd, buf, n, off);
    long c = allow(OP_WRITE, OP_SHORTW, n);
    if (c < 0) { errno = f_err; return -1; }
    ssize_t r = real_pwrite64(fd, buf, c, off);
    if (r > 0) stats[OP_WRITE] += r;
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int k)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!armed || fd < 0 || fd >= MAXFD || !tracked[fd] || k < 1) return real_writev(fd, v, k);
    return write(fd, v[0].iov_base, v[0].iov_len);
}

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t);
    if (!armed || fd < 0 || fd >= MAXFD || !tracked[fd]) return real_read(fd, buf, n);
    if (event(OP_READCALL)) return -1;
    long c = allow(OP_READ, OP_SHORTR, n);
    if (c < 0) { errno = f_err; return -1; }
    ssize_t r = real_read(fd, buf, c);
    if (r > 0) stats[OP_READ] += r;
    return r;
}

static int file_no(FILE *f)
{
    if (armed) for (int i = 0; i < 64; i++) if (files[i] == f) return i;
    return -1;
}

size_t fread(void *p, size_t size, size_t k, FILE *f)
{
    REAL(size_t, fread, void *, size_t, size_t, FILE *);
    int i = file_no(f);
    if (i < 0 || size * k == 0) return real_fread(p, size, k, f);
    if (event(OP_READCALL)) { file_err[i] = 1; return 0; }
    long c = allow(OP_READ, OP_NOPS, size * k);
    if (c < (long)(size * k)) {
        size_t r = c > 0 ? real_fread(p, 1, c, f) : 0;
        stats[OP_READ] += r;
        if (!f_fired) f_fired = 1;
        file_err[i] = 1;
        errno = f_err;
        return size ? r / size : 0;
    }
    size_t r = real_fread(p, size, k, f);
    stats[OP_READ] += r * size;
    return r;
}

int ferror(FILE *f)
{
    REAL(int, ferror, FILE *);
    int i = file_no(f);
    if (i >= 0 && file_err[i]) return 1;
    return real_ferror(f);
}

int fclose(FILE *f)
{
    REAL(int, fclose, FILE *);
    int i = file_no(f);
    if (i >= 0) { files[i] = NULL; int fd = fileno(f); if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; }
    return real_fclose(f);
}

int close(int fd)
{
    REAL(int, close, int);
    if (!armed || fd < 0 || fd >= MAXFD || !tracked[fd]) return real_close(fd);
    tracked[fd] = 0;
    int bad = event(OP_CLOSE);
    int r = real_close(fd);
    if (bad) { errno = f_err; return -1; }
    return r;
}

#define SYNC(name) int name(int fd) { REAL(int, name, int); if (armed && fd >= 0 && fd < MAXFD && tracked[fd] && event(OP_FSYNC)) return -1; return real_##name(fd); }
SYNC(fsync)
SYNC(fdatasync)

int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    if (below(b) && event(OP_RENAME)) return -1;
    return real_rename(a, b);
}
int renameat(int da, const char *a, int db, const char *b)
{
    REAL(int, renameat, int, const char *, int, const char *);
    if (below(b) && event(OP_RENAME)) return -1;
    return real_renameat(da, a, db, b);
}
