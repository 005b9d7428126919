/* Simulated disk seam: an LD_PRELOAD library interposed between libhdf5 /
 * CPython and libc.  Inert until sim_begin(root) is called; then every
 * file-system call on a path below root is recorded, and a scripted fault
 * (error code, short write, persistent no-space) is applied to a chosen
 * operation.  Single threaded use only.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN = 1, K_WRITE, K_TRUNC, K_FSYNC, K_CLOSE, K_RENAME, K_UNLINK,
       K_LINK, K_MKDIR, K_RMDIR, K_READ, K_MMAP };

#define MAXFD 4096
static char g_root[PATH_MAX];
static size_t g_rootlen;
static int g_active;
static unsigned char g_fd[MAXFD];      /* 1 tracked writable, 2 tracked ro */

/* recording buffer */
static unsigned char *g_buf;
static size_t g_len, g_cap;
static long g_ops;        /* mutating operations so far */
static long g_reads;
static long g_mmaps;

/* fault script */
#define MAXF 16
static struct { long at, until; int err; long shortn; int on_read; int kindmask; } g_f[MAXF];
static int g_nf;
static long g_fired;

static void put(const void *p, size_t n)
{
    if (g_len + n > g_cap) {
        size_t c = g_cap ? g_cap * 2 : 1 << 16;
        while (c < g_len + n) c *= 2;
        g_buf = realloc(g_buf, c);
        g_cap = c;
    }
    memcpy(g_buf + g_len, p, n);
    g_len += n;
}
static void put32(int v) { put(&v, 4); }
static void put64(long long v) { put(&v, 8); }
static void putstr(const char *s) { int n = (int)strlen(s); put32(n); put(s, n); }

/* record: kind, fd, a, b, err, s1, s2, datalen, data */
static void rec(int kind, int fd, long long a, long long b, int err,
                const char *s1, const char *s2, const void *d, size_t n)
{
    put32(kind); put32(fd); put64(a); put64(b); put32(err);
    putstr(s1 ? s1 : ""); putstr(s2 ? s2 : "");
    put64((long long)n);
    if (n) put(d, n);
}

void sim_begin(const char *root)
{
    strncpy(g_root, root, sizeof g_root - 1);
    g_rootlen = strlen(g_root);
    g_len = 0; g_ops = 0; g_reads = 0; g_nf = 0; g_fired = 0; g_mmaps = 0;
    memset(g_fd, 0, sizeof g_fd);
    g_active = 1;
}
void sim_end(void) { g_active = 0; }
void sim_resume(void) { g_active = 1; }
void sim_clear_faults(void) { g_nf = 0; }
int sim_add_fault(long at, long until, int err, long shortn, int on_read, int kindmask)
{
    if (g_nf >= MAXF) return -1;
    g_f[g_nf].at = at; g_f[g_nf].until = until; g_f[g_nf].err = err;
    g_f[g_nf].shortn = shortn; g_f[g_nf].on_read = on_read;
    g_f[g_nf].kindmask = kindmask;
    g_nf++;
    return 0;
}
long sim_ops(void) { return g_ops; }
long sim_reads(void) { return g_reads; }
long sim_fired(void) { return g_fired; }
long sim_mmaps(void) { return g_mmaps; }
long sim_log_len(void) { return (long)g_len; }
const unsigned char *sim_log(void) { return g_buf; }
int sim_present(void) { return 42; }

/* called once per operation.  Returns index of fault entry or -1 */
static int fault(int kind)
{
    long k;
    int rd = (kind == K_READ);
    if (rd) k = g_reads++; else k = g_ops++;
    for (int i = 0; i < g_nf; i++) {
        if (g_f[i].on_read != rd) continue;
        if (g_f[i].kindmask && !(g_f[i].kindmask & (1 << kind))) continue;
        if (k >= g_f[i].at && k <= g_f[i].until) { g_fired++; return i; }
    }
    return -1;
}

static int abspath(const char *p, char *out)
{
    if (!p) return 0;
    if (p[0] == '/') {
        if (strlen(p) >= PATH_MAX) return 0;
        strcpy(out, p);
    } else {
        if (!getcwd(out, PATH_MAX)) return 0;
        size_t n = strlen(out);
        if (n + strlen(p) + 2 > PATH_MAX) return 0;
        out[n] = '/';
        strcpy(out + n + 1, p);
    }
    return 1;
}
/* is path below root?  returns pointer to relative part in buf or NULL */
static const char *rel(int dirfd, const char *p, char *buf)
{
    if (!g_active || !p) return NULL;
    if (p[0] != '/' && dirfd != AT_FDCWD) {
        char link[64];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(link, buf, PATH_MAX - 1);
        if (n <= 0) return NULL;
        buf[n] = 0;
        if (n + strlen(p) + 2 > PATH_MAX) return NULL;
        buf[n] = '/';
        strcpy(buf + n + 1, p);
    } else if (!abspath(p, buf)) return NULL;
    if (strncmp(buf, g_root, g_rootlen)) return NULL;
    if (buf[g_rootlen] == 0) return ".";
    if (buf[g_rootlen] != '/') return NULL;
    const char *r = buf + g_rootlen + 1;
    while (r[0] == '.' && r[1] == '/') r += 2;
    return r;
}

#define REAL(name, type) static type real_##name; \
    if (!real_##name) real_##name = (type)dlsym(RTLD_NEXT, #name)

typedef int (*openat_t)(int, const char *, int, ...);
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    REAL(openat, openat_t);
    char buf[PATH_MAX];
    const char *r = rel(dirfd, path, buf);
    if (!r) return real_openat(dirfd, path, flags, mode);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (wr) {
        int i = fault(K_OPEN);
        if (i >= 0 && g_f[i].err) {
            rec(K_OPEN, -1, flags, 0, g_f[i].err, r, NULL, NULL, 0);
            errno = g_f[i].err;
            return -1;
        }
    }
    int fd = real_openat(dirfd, path, flags, mode);
    int e = errno;
    if (fd >= 0 && fd < MAXFD) g_fd[fd] = wr ? 1 : 2;
    if (wr || fd >= 0) rec(K_OPEN, fd, flags, 0, fd < 0 ? e : 0, r, NULL, NULL, 0);
    errno = e;
    return fd;
}
static mode_t getmode(int flags, va_list ap)
{
    if (flags & (O_CREAT | O_TMPFILE)) return (mode_t)va_arg(ap, int);
    return 0;
}
int open(const char *p, int flags, ...)
{ va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...)
{ va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap); return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...)
{ va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap); return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...)
{ va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap); return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

static int tracked(int fd) { return g_active && fd >= 0 && fd < MAXFD && g_fd[fd]; }

typedef ssize_t (*pwrite_t)(int, const void *, size_t, off_t);
typedef ssize_t (*write_t)(int, const void *, size_t);
static ssize_t do_write(int fd, const void *d, size_t n, off_t off, int pos)
{
    REAL(pwrite, pwrite_t);
    REAL(write, write_t);
    int i = fault(K_WRITE);
    off_t at = off;
    if (!pos) {
        int fl = fcntl(fd, F_GETFL);
        struct stat st;
        if (fl >= 0 && (fl & O_APPEND) && !fstat(fd, &st)) at = st.st_size;
        else at = lseek(fd, 0, SEEK_CUR);
    }
    if (i >= 0 && g_f[i].err) {
        rec(K_WRITE, fd, at, 0, g_f[i].err, NULL, NULL, NULL, 0);
        errno = g_f[i].err;
        return -1;
    }
    if (i >= 0 && g_f[i].shortn >= 0 && n > 1) {
        size_t m = (size_t)g_f[i].shortn % n;
        if (m == 0) m = 1;
        n = m;
    }
    ssize_t r = pos ? real_pwrite(fd, d, n, off) : real_write(fd, d, n);
    int e = errno;
    rec(K_WRITE, fd, at, r, r < 0 ? e : 0, NULL, NULL, d, r > 0 ? (size_t)r : 0);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *d, size_t n)
{ REAL(write, write_t); if (!tracked(fd)) return real_write(fd, d, n); return do_write(fd, d, n, 0, 0); }
ssize_t pwrite(int fd, const void *d, size_t n, off_t o)
{ REAL(pwrite, pwrite_t); if (!tracked(fd)) return real_pwrite(fd, d, n, o); return do_write(fd, d, n, o, 1); }
ssize_t pwrite64(int fd, const void *d, size_t n, off_t o) { return pwrite(fd, d, n, o); }
typedef ssize_t (*writev_t)(int, const struct iovec *, int);
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev, writev_t);
    if (!tracked(fd)) return real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t sendfile(int o, int in, off_t *off, size_t n)
{
    typedef ssize_t (*sf_t)(int, int, off_t *, size_t);
    REAL(sendfile, sf_t);
    if (tracked(o)) { errno = EINVAL; return -1; }
    return real_sendfile(o, in, off, n);
}
ssize_t sendfile64(int o, int in, off_t *off, size_t n) { return sendfile(o, in, off, n); }
ssize_t copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned fl)
{
    typedef ssize_t (*cf_t)(int, off_t *, int, off_t *, size_t, unsigned);
    REAL(copy_file_range, cf_t);
    if (tracked(out)) { errno = EXDEV; return -1; }
    return real_copy_file_range(in, io, out, oo, n, fl);
}

typedef ssize_t (*pread_t)(int, void *, size_t, off_t);
typedef ssize_t (*read_t)(int, void *, size_t);
ssize_t pread(int fd, void *d, size_t n, off_t o)
{
    REAL(pread, pread_t);
    if (!tracked(fd)) return real_pread(fd, d, n, o);
    int i = fault(K_READ);
    if (i >= 0 && g_f[i].err) { errno = g_f[i].err; return -1; }
    if (i >= 0 && g_f[i].shortn >= 0 && n > 1) { size_t m = (size_t)g_f[i].shortn % n; n = m ? m : 1; }
    return real_pread(fd, d, n, o);
}
ssize_t pread64(int fd, void *d, size_t n, off_t o) { return pread(fd, d, n, o); }
ssize_t read(int fd, void *d, size_t n)
{
    REAL(read, read_t);
    if (!tracked(fd)) return real_read(fd, d, n);
    int i = fault(K_READ);
    if (i >= 0 && g_f[i].err) { errno = g_f[i].err; return -1; }
    if (i >= 0 && g_f[i].shortn >= 0 && n > 1) { size_t m = (size_t)g_f[i].shortn % n; n = m ? m : 1; }
    return real_read(fd, d, n);
}

typedef int (*ftruncate_t)(int, off_t);
int ftruncate(int fd, off_t n)
{
    REAL(ftruncate, ftruncate_t);
    if (!tracked(fd)) return real_ftruncate(fd, n);
    int i = fault(K_TRUNC);
    if (i >= 0 && g_f[i].err) { rec(K_TRUNC, fd, n, 0, g_f[i].err, NULL, NULL, NULL, 0); errno = g_f[i].err; return -1; }
    int r = real_ftruncate(fd, n); int e = errno;
    rec(K_TRUNC, fd, n, 0, r < 0 ? e : 0, NULL, NULL, NULL, 0);
    errno = e;
    return r;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }

static int do_sync(int fd, int data)
{
    typedef int (*fs_t)(int);
    REAL(fsync, fs_t);
    REAL(fdatasync, fs_t);
    if (!tracked(fd)) return data ? real_fdatasync(fd) : real_fsync(fd);
    int i = fault(K_FSYNC);
    if (i >= 0 && g_f[i].err) { rec(K_FSYNC, fd, data, 0, g_f[i].err, NULL, NULL, NULL, 0); errno = g_f[i].err; return -1; }
    /* the real device flush is skipped: durability lives in the model */
    rec(K_FSYNC, fd, data, 0, 0, NULL, NULL, NULL, 0);
    return 0;
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }

typedef int (*close_t)(int);
int close(int fd)
{
    REAL(close, close_t);
    if (!tracked(fd)) return real_close(fd);
    int wr = g_fd[fd] == 1;
    g_fd[fd] = 0;
    int i = wr ? fault(K_CLOSE) : -1;
    int r = real_close(fd); int e = errno;
    if (i >= 0 && g_f[i].err) { r = -1; e = g_f[i].err; }
    rec(K_CLOSE, fd, 0, 0, r < 0 ? e : 0, NULL, NULL, NULL, 0);
    errno = e;
    return r;
}

typedef int (*renameat2_t)(int, const char *, int, const char *, unsigned);
typedef int (*renameat_t)(int, const char *, int, const char *);
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl)
{
    REAL(renameat, renameat_t);
    REAL(renameat2, renameat2_t);
    char b1[PATH_MAX], b2[PATH_MAX];
    const char *r1 = rel(d1, a, b1), *r2 = rel(d2, b, b2);
    if (!r1 && !r2) return fl ? real_renameat2(d1, a, d2, b, fl) : real_renameat(d1, a, d2, b);
    int i = fault(K_RENAME);
    if (i >= 0 && g_f[i].err) { rec(K_RENAME, -1, fl, 0, g_f[i].err, r1, r2, NULL, 0); errno = g_f[i].err; return -1; }
    int r = fl ? real_renameat2(d1, a, d2, b, fl) : real_renameat(d1, a, d2, b); int e = errno;
    rec(K_RENAME, -1, fl, 0, r < 0 ? e : 0, r1, r2, NULL, 0);
    errno = e;
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }

typedef int (*unlinkat_t)(int, const char *, int);
static int do_unlink(int d, const char *p, int fl)
{
    REAL(unlinkat, unlinkat_t);
    char b[PATH_MAX];
    const char *r = rel(d, p, b);
    int kind = (fl & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK;
    if (!r) return real_unlinkat(d, p, fl);
    int i = fault(kind);
    if (i >= 0 && g_f[i].err) { rec(kind, -1, 0, 0, g_f[i].err, r, NULL, NULL, 0); errno = g_f[i].err; return -1; }
    int x = real_unlinkat(d, p, fl); int e = errno;
    rec(kind, -1, 0, 0, x < 0 ? e : 0, r, NULL, NULL, 0);
    errno = e;
    return x;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int remove(const char *p) { struct stat st; if (!lstat(p, &st) && S_ISDIR(st.st_mode)) return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); return do_unlink(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }

typedef int (*linkat_t)(int, const char *, int, const char *, int);
static int do_link(int d1, const char *a, int d2, const char *b, int fl)
{
    REAL(linkat, linkat_t);
    char b1[PATH_MAX], b2[PATH_MAX];
    const char *r1 = rel(d1, a, b1), *r2 = rel(d2, b, b2);
    if (!r1 && !r2) return real_linkat(d1, a, d2, b, fl);
    int i = fault(K_LINK);
    if (i >= 0 && g_f[i].err) { rec(K_LINK, -1, 0, 0, g_f[i].err, r1, r2, NULL, 0); errno = g_f[i].err; return -1; }
    int r = real_linkat(d1, a, d2, b, fl); int e = errno;
    rec(K_LINK, -1, 0, 0, r < 0 ? e : 0, r1, r2, NULL, 0);
    errno = e;
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return do_link(d1, a, d2, b, fl); }

typedef int (*mkdirat_t)(int, const char *, mode_t);
int mkdirat(int d, const char *p, mode_t m)
{
    REAL(mkdirat, mkdirat_t);
    char b[PATH_MAX];
    const char *r = rel(d, p, b);
    if (!r) return real_mkdirat(d, p, m);
    int i = fault(K_MKDIR);
    if (i >= 0 && g_f[i].err) { rec(K_MKDIR, -1, m, 0, g_f[i].err, r, NULL, NULL, 0); errno = g_f[i].err; return -1; }
    int x = real_mkdirat(d, p, m); int e = errno;
    rec(K_MKDIR, -1, m, 0, x < 0 ? e : 0, r, NULL, NULL, 0);
    errno = e;
    return x;
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }

/* truncate(2) by path */
typedef int (*truncate_t)(const char *, off_t);
int truncate(const char *p, off_t n)
{
    REAL(truncate, truncate_t);
    char b[PATH_MAX];
    const char *r = rel(AT_FDCWD, p, b);
    if (!r) return real_truncate(p, n);
    int i = fault(K_TRUNC);
    if (i >= 0 && g_f[i].err) { rec(K_TRUNC, -1, n, 0, g_f[i].err, r, NULL, NULL, 0); errno = g_f[i].err; return -1; }
    int x = real_truncate(p, n); int e = errno;
    rec(K_TRUNC, -1, n, 0, x < 0 ? e : 0, r, NULL, NULL, 0);
    errno = e;
    return x;
}
int truncate64(const char *p, off_t n) { return truncate(p, n); }
/* advisory locks: granted, never contended in the simulation */
int flock(int fd, int op)
{
    typedef int (*fl_t)(int, int);
    REAL(flock, fl_t);
    return real_flock(fd, op);
}
