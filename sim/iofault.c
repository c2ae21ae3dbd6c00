/* LD_PRELOAD library: every file operation of this process on files below one directory passes through here, and a
 * plan given by the simulator decides which of them fail, and how. Files elsewhere are untouched.
 * stdio streams made with fdopen() (numpy's fromfile/tofile) are rebuilt on fopencookie() so that their buffered
 * reads and writes pass through the same seam. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { C_OPEN, C_READ, C_WRITE, C_CLOSE, C_TRUNC, C_SYNC, C_UNLINK, C_COPY, NCLASS };
enum { A_NONE, A_EIO, A_ENOSPC, A_SHORT, A_TORN, A_EOF, A_CRASH, A_EACCES, A_EMFILE, A_ENOENT };
#define NLOG 100000
#define NPLAN 16
struct plan { int mask, act, nth, permille, sticky, fired; };
struct log { uint8_t cls, act; int64_t asked, ret; };
struct shared {
    int armed, nplan, off, pad;
    int64_t nops, cls[NCLASS], nfired;
    struct plan plan[NPLAN];
    struct log log[NLOG];
};
static struct shared *S;
static char prefix[1024];
static size_t plen;
static unsigned char track[65536];          /* 1: below the directory; 2: also writable */

#define REAL(ret, name, ...) \
    static ret (*r_##name)(__VA_ARGS__); \
    if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void setup(void) {
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) abort();
}
void iof_dir(const char *p) { snprintf(prefix, sizeof prefix, "%s/", p); plen = strlen(prefix); }
void iof_clear(void) {
    int i;
    S->armed = 0; S->nplan = 0; S->nops = 0; S->nfired = 0;
    for (i = 0; i < NCLASS; i++) S->cls[i] = 0;
}
void iof_plan(int mask, int act, int nth, int permille, int sticky) {
    struct plan *p = &S->plan[S->nplan++];
    p->mask = mask; p->act = act; p->nth = nth; p->permille = permille; p->sticky = sticky; p->fired = 0;
}
void iof_arm(int on) { S->armed = on; }
int64_t iof_nops(void) { return S->nops; }
int64_t iof_count(int c) { return S->cls[c]; }
int64_t iof_fired(void) { return S->nfired; }
int iof_planfired(int i) { return S->plan[i].fired; }
struct log *iof_log(void) { return S->log; }

static int below(const char *path) { return plen && path && strncmp(path, prefix, plen) == 0; }
static int tracked(int fd) { return fd >= 0 && fd < 65536 ? track[fd] : 0; }

/* what happens to this operation; *permille is set for the partial ones */
static struct plan *decide(int c, int64_t asked, struct log **lp) {
    int i;
    static struct log dummy;
    *lp = &dummy;
    if (!S->armed) return 0;
    int64_t k = S->cls[c]++;
    int64_t n = S->nops++;
    (void)k;
    struct log *l = n < NLOG ? &S->log[n] : &dummy;
    *lp = l;
    l->cls = c; l->act = 0; l->asked = asked; l->ret = 0;
    for (i = 0; i < S->nplan; i++) {
        struct plan *p = &S->plan[i];
        if (!(p->mask & (1 << c))) continue;
        int hit = p->fired && p->sticky;
        if (!p->fired) {
            if (p->nth == 0) hit = 1;
            else p->nth--;
        }
        if (hit) {
            if (!p->fired || p->act == A_CRASH) { p->fired = 1; S->nfired++; }
            l->act = p->act;
            return p;
        }
    }
    return 0;
}
static int err(int act) {
    switch (act) {
    case A_ENOSPC: errno = ENOSPC; break;
    case A_EACCES: errno = EACCES; break;
    case A_EMFILE: errno = EMFILE; break;
    case A_ENOENT: errno = ENOENT; break;
    default: errno = EIO;
    }
    return -1;
}

static int do_open(const char *path, int flags, mode_t mode, int at, int dirfd) {
    REAL(int, openat, int, const char *, int, ...);
    if (!below(path)) return r_openat(at ? dirfd : AT_FDCWD, path, flags, mode);
    if (flags & O_DIRECTORY) return r_openat(AT_FDCWD, path, flags, mode);
    struct log *l;
    int w = (flags & O_ACCMODE) != O_RDONLY;
    struct plan *p = decide(C_OPEN, w, &l);
    if (p) {
        if (p->act == A_CRASH) _exit(77);
        if (!(p->act == A_ENOSPC && !(flags & O_CREAT))) return err(p->act);
        return err(A_EIO);
    }
    int fd = r_openat(AT_FDCWD, path, flags, mode);
    l->ret = fd >= 0;
    if (fd >= 0 && fd < 65536) track[fd] = 1 + w;
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(p, flags, m, 0, 0); }
int open64(const char *p, int flags, ...) { MODE return do_open(p, flags, m, 0, 0); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(p, flags, m, 1, d); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(p, flags, m, 1, d); }

int close(int fd) {
    REAL(int, close, int);
    int t = tracked(fd);
    if (!t) return r_close(fd);
    track[fd] = 0;
    if (t < 2) return r_close(fd);
    struct log *l;
    struct plan *p = decide(C_CLOSE, 0, &l);
    if (p && p->act == A_CRASH) _exit(77);
    int r = r_close(fd);
    return p ? err(p->act) : r;
}
int dup(int fd) { REAL(int, dup, int); int r = r_dup(fd); if (r >= 0 && r < 65536) track[r] = tracked(fd); return r; }
int dup2(int a, int b) { REAL(int, dup2, int, int); int r = r_dup2(a, b); if (r >= 0 && r < 65536) track[r] = tracked(a); return r; }
int dup3(int a, int b, int f) { REAL(int, dup3, int, int, int); int r = r_dup3(a, b, f); if (r >= 0 && r < 65536) track[r] = tracked(a); return r; }
static int do_fcntl(int fd, int cmd, void *arg) {
    REAL(int, fcntl, int, int, ...);
    int r = r_fcntl(fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < 65536) track[r] = tracked(fd);
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

static size_t part(size_t n, int permille) {
    size_t k = n * (size_t)permille / 1000;
    if (k >= n) k = n ? n - 1 : 0;
    return k;
}
typedef ssize_t (*rfn)(int, void *, size_t, off_t);
static ssize_t real_pread(int fd, void *b, size_t n, off_t o) {
    REAL(ssize_t, read, int, void *, size_t); REAL(ssize_t, pread64, int, void *, size_t, off_t);
    return o < 0 ? r_read(fd, b, n) : r_pread64(fd, b, n, o);
}
static ssize_t real_pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, write, int, const void *, size_t); REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    return o < 0 ? r_write(fd, b, n) : r_pwrite64(fd, b, n, o);
}
static ssize_t do_read(int fd, void *b, size_t n, off_t o) {
    if (!tracked(fd)) return real_pread(fd, b, n, o);
    struct log *l;
    struct plan *p = decide(C_READ, n, &l);
    ssize_t r;
    if (p) switch (p->act) {
    case A_CRASH: _exit(77);
    case A_EOF: return 0;
    case A_SHORT: { size_t k = part(n, p->permille); if (k == 0) k = n > 0; return l->ret = real_pread(fd, b, k, o); }
    case A_TORN: return err(A_EIO);
    default: return err(p->act);
    }
    r = real_pread(fd, b, n, o);
    l->ret = r;
    return r;
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t o) {
    if (!tracked(fd)) return real_pwrite(fd, b, n, o);
    struct log *l;
    struct plan *p = decide(C_WRITE, n, &l);
    ssize_t r;
    if (p) {
        size_t k = part(n, p->permille);
        switch (p->act) {
        case A_CRASH: if (k) real_pwrite(fd, b, k, o); _exit(77);
        case A_SHORT: if (k == 0) k = n > 0; return l->ret = real_pwrite(fd, b, k, o);
        case A_TORN:              /* part of it reaches the disk, the call fails, the file position stays */
            if (k) real_pwrite(fd, b, k, o < 0 ? lseek64(fd, 0, SEEK_CUR) : o);
            return err(A_EIO);
        case A_EOF: return err(A_EIO);
        default: return err(p->act);
        }
    }
    r = real_pwrite(fd, b, n, o);
    l->ret = r;
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!tracked(fd)) return r_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, readv, int, const struct iovec *, int);
    if (!tracked(fd)) return r_readv(fd, v, c);
    return c ? do_read(fd, v[0].iov_base, v[0].iov_len, -1) : 0;
}

/* whole-file copies: sendfile, copy_file_range */
static struct plan *copying(int out, size_t *n, struct log **l) {
    struct plan *p = decide(C_COPY, *n > 1 << 20 ? 1 << 20 : *n, l);
    (void)out;
    return p;
}
static ssize_t do_sendfile(int out, int in, off_t *o, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off_t *, size_t);
    if (!tracked(out) && !tracked(in)) return r_sendfile64(out, in, o, n);
    struct log *l;
    struct plan *p = copying(out, &n, &l);
    if (p) {
        struct stat st;
        size_t left = n;
        if (fstat(in, &st) == 0 && (size_t)st.st_size < left) left = st.st_size;
        size_t k = part(left, p->permille);
        switch (p->act) {
        case A_CRASH: if (k) r_sendfile64(out, in, o, k); _exit(77);
        case A_SHORT: if (k == 0) k = 1; return l->ret = r_sendfile64(out, in, o, k);
        case A_TORN: if (k) r_sendfile64(out, in, o, k); return err(A_EIO);
        case A_EOF: return err(A_EIO);
        default: return err(p->act);
        }
    }
    return l->ret = r_sendfile64(out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t sendfile64(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned);
    if (!tracked(out) && !tracked(in)) return r_copy_file_range(in, oi, out, oo, n, f);
    errno = EXDEV;                     /* send the caller down its fall-back */
    return -1;
}

static int do_trunc(int fd, off_t n) {
    REAL(int, ftruncate64, int, off_t);
    if (!tracked(fd)) return r_ftruncate64(fd, n);
    struct log *l;
    struct plan *p = decide(C_TRUNC, n, &l);
    if (p && p->act == A_CRASH) _exit(77);
    if (p) return err(p->act);
    return r_ftruncate64(fd, n);
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }
int fsync(int fd) {
    REAL(int, fsync, int);
    if (!tracked(fd)) return r_fsync(fd);
    struct log *l;
    struct plan *p = decide(C_SYNC, 0, &l);
    if (p && p->act == A_CRASH) _exit(77);
    return p ? err(A_EIO) : 0;
}
int fdatasync(int fd) { return fsync(fd); }
int unlink(const char *path) {
    REAL(int, unlink, const char *);
    if (!below(path)) return r_unlink(path);
    struct log *l;
    struct plan *p = decide(C_UNLINK, 0, &l);
    if (p && p->act == A_CRASH) _exit(77);
    return p ? err(A_EIO) : r_unlink(path);
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if (!below(a) && !below(b)) return r_rename(a, b);
    struct log *l;
    struct plan *p = decide(C_UNLINK, 1, &l);
    if (p && p->act == A_CRASH) _exit(77);
    return p ? err(A_EIO) : r_rename(a, b);
}

/* stdio on tracked descriptors */
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read((int)(intptr_t)c, b, n, -1); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = do_write((int)(intptr_t)c, b, n, -1); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) {
    off64_t r = lseek64((int)(intptr_t)c, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c) { return close((int)(intptr_t)c); }
FILE *fdopen(int fd, const char *mode) {
    REAL(FILE *, fdopen, int, const char *);
    if (!tracked(fd)) return r_fdopen(fd, mode);
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    return fopencookie((void *)(intptr_t)fd, mode, io);
}
static FILE *do_fopen(const char *path, const char *mode) {
    int f = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    if (strchr(mode, '+')) f = (f & ~O_ACCMODE) | O_RDWR;
    int fd = do_open(path, f, 0666, 0, 0);
    return fd < 0 ? 0 : fdopen(fd, mode);
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return below(p) ? do_fopen(p, m) : r_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return below(p) ? do_fopen(p, m) : r_fopen64(p, m); }
