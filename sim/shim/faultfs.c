/* faultfs: LD_PRELOAD seam between the process under simulation and the file
 * system.  Only descriptors whose path lies under a configured root are touched;
 * everything else goes straight to libc.
 *
 * Two jobs:
 *   journal - every state-changing operation on a tracked file is recorded with
 *             its data, so that the harness can rebuild the exact on-disk state
 *             a process killed after any operation would have left behind;
 *   faults  - operations are numbered per kind, and the harness decides ahead of
 *             time which of them fail, and how (errno, short transfer, EINTR).
 * Nothing here draws randomness or looks at a clock: the numbered operations and
 * the fault table fully determine the behaviour.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN = 1, K_READ = 2, K_WRITE = 4, K_TRUNC = 8, K_CLOSE = 16, K_SYNC = 32, K_RENAME = 64, K_UNLINK = 128 };
enum { A_ERRNO = 1, A_SHORT = 2 };
/* journal op codes */
enum { J_CREATE = 1, J_WRITE = 2, J_TRUNC = 3, J_UNLINK = 4, J_RENAME = 5, J_SYNC = 6, J_CLOSE = 7, J_MKDIR = 8, J_RMDIR = 9 };

typedef struct { int op; char *path; char *path2; long long off; long long len; unsigned char *data; } jent;
typedef struct { int mask; long nth; int action; long arg; long count; long fired; } fault;

#define MAXFD 4096
#define MAXF 64
static char *fdpath[MAXFD];
static char fdappend[MAXFD];
static char root[4096];
static size_t rootlen = 0;
static jent *J = NULL;
static long nJ = 0, capJ = 0;
static fault F[MAXF];
static int nF = 0;
static int journal_on = 0, faults_on = 0;
static long kcount[8];   /* per-kind op counters since arm */
static long kfired[8][2];
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static __thread int inside = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

static int kidx(int k) { int i = 0; while (k > 1) { k >>= 1; i++; } return i; }

static void jadd(int op, const char *path, const char *path2, long long off, const void *data, long long len) {
    if (!journal_on) return;
    if (nJ == capJ) { capJ = capJ ? capJ * 2 : 256; J = realloc(J, capJ * sizeof(jent)); }
    jent *e = &J[nJ++];
    e->op = op; e->path = strdup(path); e->path2 = path2 ? strdup(path2) : NULL;
    e->off = off; e->len = len; e->data = NULL;
    if (data && len > 0) { e->data = malloc(len); memcpy(e->data, data, len); }
}

/* ---- control interface (called through ctypes) ---- */
int ffs_present(void) { return 1; }
void ffs_set_root(const char *p) {
    pthread_mutex_lock(&mu);
    strncpy(root, p ? p : "", sizeof root - 1); root[sizeof root - 1] = 0; rootlen = strlen(root);
    pthread_mutex_unlock(&mu);
}
void ffs_clear_faults(void) { pthread_mutex_lock(&mu); nF = 0; pthread_mutex_unlock(&mu); }
void ffs_clear_journal(void) {
    pthread_mutex_lock(&mu);
    for (long i = 0; i < nJ; i++) { free(J[i].path); free(J[i].path2); free(J[i].data); }
    nJ = 0; pthread_mutex_unlock(&mu);
}
void ffs_arm(int journal, int faults) {
    pthread_mutex_lock(&mu);
    journal_on = journal; faults_on = faults;
    memset(kcount, 0, sizeof kcount); memset(kfired, 0, sizeof kfired);
    pthread_mutex_unlock(&mu);
}
void ffs_disarm(void) { pthread_mutex_lock(&mu); journal_on = 0; faults_on = 0; pthread_mutex_unlock(&mu); }
int ffs_add_fault(int mask, long nth, int action, long arg, long count) {
    if (nF >= MAXF) return -1;
    fault *f = &F[nF++];
    f->mask = mask; f->nth = nth; f->action = action; f->arg = arg; f->count = count; f->fired = 0;
    return nF - 1;
}
long ffs_fired(int i) { return i < nF ? F[i].fired : -1; }
long ffs_count(int kind) { return kcount[kidx(kind)]; }
long ffs_jlen(void) { return nJ; }
int ffs_jget(long i, int *op, const char **path, const char **path2, long long *off, long long *len, const unsigned char **data) {
    if (i < 0 || i >= nJ) return -1;
    *op = J[i].op; *path = J[i].path; *path2 = J[i].path2; *off = J[i].off; *len = J[i].len; *data = J[i].data;
    return 0;
}

/* decide the fate of one operation of the given kind: 0 = proceed,
 * A_ERRNO -> *arg is errno, A_SHORT -> *arg is per-mille of the bytes to pass on */
static int fate(int kind, long *arg) {
    int i = kidx(kind);
    long n = kcount[i]++;
    if (!faults_on) return 0;
    for (int j = 0; j < nF; j++) {
        fault *f = &F[j];
        if (f->mask != kind) continue;
        if (n < f->nth) continue;
        if (f->count >= 0 && n >= f->nth + f->count) continue;
        f->fired++; kfired[i][f->action - 1]++;
        *arg = f->arg;
        return f->action;
    }
    return 0;
}

static int tracked_path(const char *p) { return rootlen && p && strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0); }
static int tracked(int fd) { return fd >= 0 && fd < MAXFD && fdpath[fd] != NULL; }
static void track(int fd, const char *p, int append) {
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(p); fdappend[fd] = append; }
}
static void untrack(int fd) { if (tracked(fd)) { free(fdpath[fd]); fdpath[fd] = NULL; } }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    REAL(int, openat64, int, const char *, int, ...);
    if (inside || !tracked_path(path) || (flags & O_DIRECTORY)) {
        int fd = real_openat64(dirfd, path, flags, mode);
        if (!inside && fd >= 0) untrack(fd);
        return fd;
    }
    pthread_mutex_lock(&mu);
    long arg = 0; int a = fate(K_OPEN, &arg);
    if (a == A_ERRNO) { pthread_mutex_unlock(&mu); errno = (int)arg; return -1; }
    struct stat st; int existed = stat(path, &st) == 0;
    int fd = real_openat64(dirfd, path, flags, mode);
    if (fd >= 0) {
        struct stat s2;
        if (fstat(fd, &s2) == 0 && S_ISREG(s2.st_mode)) {
            track(fd, path, (flags & O_APPEND) != 0);
            if (!existed) jadd(J_CREATE, path, NULL, 0, NULL, 0);
            else if ((flags & O_TRUNC) && st.st_size > 0) jadd(J_TRUNC, path, NULL, 0, NULL, 0);
        } else untrack(fd);
    }
    pthread_mutex_unlock(&mu);
    return fd;
}
#define MODE(last) mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __openat_2(int d, const char *p, int flags) { return do_open(d, p, flags, 0); }
int __openat64_2(int d, const char *p, int flags) { return do_open(d, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(const char *name, const char *p, const char *m) {
    static FILE *(*rf)(const char *, const char *);
    if (!rf) rf = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, name);
    if (!tracked_path(p)) return rf(p, m);
    pthread_mutex_lock(&mu);
    long arg = 0; int a = fate(K_OPEN, &arg);
    if (a == A_ERRNO) { pthread_mutex_unlock(&mu); errno = (int)arg; return NULL; }
    struct stat st; int existed = stat(p, &st) == 0;
    inside++; FILE *f = rf(p, m); inside--;
    if (f) {
        track(fileno(f), p, m[0] == 'a');
        if (!existed) jadd(J_CREATE, p, NULL, 0, NULL, 0);
        else if (m[0] == 'w' && st.st_size > 0) jadd(J_TRUNC, p, NULL, 0, NULL, 0);
    }
    pthread_mutex_unlock(&mu);
    return f;
}
FILE *fopen(const char *p, const char *m) { return do_fopen("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen("fopen64", p, m); }

size_t fwrite(const void *b, size_t sz, size_t n, FILE *f) {
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
    int fd;
    if (inside || !rootlen || (fd = fileno(f)) < 0 || !tracked(fd) || sz * n == 0) return real_fwrite(b, sz, n, f);
    pthread_mutex_lock(&mu);
    inside++;
    fflush(f);
    long long off = ftello(f);
    long arg = 0; int a = fate(K_WRITE, &arg);
    size_t items = n;
    if (a == A_ERRNO) { inside--; pthread_mutex_unlock(&mu); errno = (int)arg; return 0; }
    if (a == A_SHORT) items = (size_t)((double)n * arg / 1000.0);
    size_t r = items ? real_fwrite(b, sz, items, f) : 0;
    fflush(f);
    if (r) jadd(J_WRITE, fdpath[fd], NULL, off, b, (long long)(r * sz));
    inside--;
    pthread_mutex_unlock(&mu);
    if (r < n) errno = ENOSPC;
    return r;
}
int fclose(FILE *f) {
    REAL(int, fclose, FILE *);
    int fd = (rootlen && !inside) ? fileno(f) : -1;
    if (!tracked(fd)) return real_fclose(f);
    pthread_mutex_lock(&mu);
    jadd(J_CLOSE, fdpath[fd], NULL, 0, NULL, 0);
    untrack(fd);
    inside++; int r = real_fclose(f); inside--;
    pthread_mutex_unlock(&mu);
    return r;
}

int close(int fd) {
    REAL(int, close, int);
    if (inside || !tracked(fd)) return real_close(fd);
    pthread_mutex_lock(&mu);
    long arg = 0; int a = fate(K_CLOSE, &arg);
    jadd(J_CLOSE, fdpath[fd], NULL, 0, NULL, 0);
    untrack(fd);
    int r = real_close(fd);
    pthread_mutex_unlock(&mu);
    if (a == A_ERRNO) { errno = (int)arg; return -1; }
    return r;
}
static void dup_track(int from, int to) { if (to >= 0) { if (tracked(from)) track(to, fdpath[from], fdappend[from]); else untrack(to); } }
int dup(int fd) { REAL(int, dup, int); int r = real_dup(fd); if (!inside) dup_track(fd, r); return r; }
int dup2(int a, int b) { REAL(int, dup2, int, int); int r = real_dup2(a, b); if (!inside && a != b) dup_track(a, r); return r; }
int dup3(int a, int b, int f) { REAL(int, dup3, int, int, int); int r = real_dup3(a, b, f); if (!inside) dup_track(a, r); return r; }
static int do_fcntl(const char *name, int fd, int cmd, void *arg) {
    static int (*rf)(int, int, ...);
    if (!rf) rf = (int (*)(int, int, ...))dlsym(RTLD_NEXT, name);
    int r = rf(fd, cmd, arg);
    if (!inside && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) dup_track(fd, r);
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl("fcntl", fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl("fcntl64", fd, cmd, a); }

static ssize_t raw_pwrite(int fd, const void *b, size_t n, off64_t off) { REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); return real_pwrite64(fd, b, n, off); }
static ssize_t raw_write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return real_write(fd, b, n); }
static ssize_t raw_pread(int fd, void *b, size_t n, off64_t off) { REAL(ssize_t, pread64, int, void *, size_t, off64_t); return real_pread64(fd, b, n, off); }
static ssize_t raw_read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); return real_read(fd, b, n); }

static ssize_t do_write(int fd, const void *b, size_t n, int positional, off64_t off) {
    if (inside || !tracked(fd)) return positional ? raw_pwrite(fd, b, n, off) : raw_write(fd, b, n);
    pthread_mutex_lock(&mu);
    long arg = 0; int a = fate(K_WRITE, &arg);
    if (a == A_ERRNO) { pthread_mutex_unlock(&mu); errno = (int)arg; return -1; }
    if (a == A_SHORT && n > 1) { size_t m = (size_t)((double)n * arg / 1000.0); n = m < 1 ? 1 : (m >= n ? n - 1 : m); }
    if (!positional) {
        struct stat st;
        if (fdappend[fd] && fstat(fd, &st) == 0) off = st.st_size; else off = lseek64(fd, 0, SEEK_CUR);
    }
    ssize_t r = positional ? raw_pwrite(fd, b, n, off) : raw_write(fd, b, n);
    if (r > 0) jadd(J_WRITE, fdpath[fd], NULL, off, b, r);
    pthread_mutex_unlock(&mu);
    return r;
}
static ssize_t do_read(int fd, void *b, size_t n, int positional, off64_t off) {
    if (inside || !tracked(fd)) return positional ? raw_pread(fd, b, n, off) : raw_read(fd, b, n);
    pthread_mutex_lock(&mu);
    long arg = 0; int a = fate(K_READ, &arg);
    pthread_mutex_unlock(&mu);
    if (a == A_ERRNO) { errno = (int)arg; return -1; }
    if (a == A_SHORT && n > 1) { size_t m = (size_t)((double)n * arg / 1000.0); n = m < 1 ? 1 : (m >= n ? n - 1 : m); }
    return positional ? raw_pread(fd, b, n, off) : raw_read(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, 1, o); }
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, 1, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, 1, o); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return do_read(fd, b, n, 0, 0); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t bl) { (void)bl; return do_read(fd, b, n, 1, o); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t bl) { (void)bl; return do_read(fd, b, n, 1, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (inside || !tracked(fd)) return real_writev(fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return tot ? tot : r;
        tot += r; if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}

static int do_ftruncate(int fd, off64_t len) {
    REAL(int, ftruncate64, int, off64_t);
    if (inside || !tracked(fd)) return real_ftruncate64(fd, len);
    pthread_mutex_lock(&mu);
    long arg = 0; int a = fate(K_TRUNC, &arg);
    if (a == A_ERRNO) { pthread_mutex_unlock(&mu); errno = (int)arg; return -1; }
    int r = real_ftruncate64(fd, len);
    if (r == 0) jadd(J_TRUNC, fdpath[fd], NULL, len, NULL, 0);
    pthread_mutex_unlock(&mu);
    return r;
}
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { return do_ftruncate(fd, l); }

int fsync(int fd) {
    REAL(int, fsync, int);
    if (inside || !tracked(fd)) return real_fsync(fd);
    pthread_mutex_lock(&mu);
    long arg = 0; int a = fate(K_SYNC, &arg);
    jadd(J_SYNC, fdpath[fd], NULL, 0, NULL, 0);
    pthread_mutex_unlock(&mu);
    if (a == A_ERRNO) { errno = (int)arg; return -1; }
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }

static int do_rename(const char *a_, const char *b_, int (*fn)(const char *, const char *)) {
    if (inside || !(tracked_path(a_) || tracked_path(b_))) return fn(a_, b_);
    pthread_mutex_lock(&mu);
    long arg = 0; int a = fate(K_RENAME, &arg);
    if (a == A_ERRNO) { pthread_mutex_unlock(&mu); errno = (int)arg; return -1; }
    int r = fn(a_, b_);
    if (r == 0 && tracked_path(a_) && tracked_path(b_)) jadd(J_RENAME, a_, b_, 0, NULL, 0);
    else if (r == 0 && tracked_path(b_)) {
        /* arrives from outside the journal: carry the content along, atomically */
        struct stat st; int e = errno, fd;
        inside++;
        if (stat(b_, &st) == 0 && S_ISREG(st.st_mode) && (fd = open(b_, O_RDONLY)) >= 0) {
            char *buf = malloc(st.st_size + 1);
            ssize_t got = raw_pread(fd, buf, st.st_size, 0);
            jadd(J_RENAME, a_, b_, 0, buf, got < 0 ? 0 : got);
            free(buf); close(fd);
        }
        inside--; errno = e;
    } else if (r == 0) jadd(J_UNLINK, a_, NULL, 0, NULL, 0);
    pthread_mutex_unlock(&mu);
    return r;
}
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); return do_rename(a, b, real_rename); }
static int renameat_cwd(const char *a, const char *b) { REAL(int, renameat, int, const char *, int, const char *); return real_renameat(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if (d1 == AT_FDCWD && d2 == AT_FDCWD) return do_rename(a, b, renameat_cwd);
    return real_renameat(d1, a, d2, b);
}
static int do_unlink(const char *p, int (*fn)(const char *), int op) {
    if (inside || !tracked_path(p)) return fn(p);
    pthread_mutex_lock(&mu);
    long arg = 0; int a = fate(K_UNLINK, &arg);
    if (a == A_ERRNO) { pthread_mutex_unlock(&mu); errno = (int)arg; return -1; }
    int r = fn(p);
    if (r == 0) jadd(op, p, NULL, 0, NULL, 0);
    pthread_mutex_unlock(&mu);
    return r;
}
int unlink(const char *p) { REAL(int, unlink, const char *); return do_unlink(p, real_unlink, J_UNLINK); }
int remove(const char *p) { REAL(int, remove, const char *); return do_unlink(p, real_remove, J_UNLINK); }
int rmdir(const char *p) { REAL(int, rmdir, const char *); return do_unlink(p, real_rmdir, J_RMDIR); }
int unlinkat(int d, const char *p, int fl) {
    REAL(int, unlinkat, int, const char *, int);
    if (inside || d != AT_FDCWD || !tracked_path(p)) return real_unlinkat(d, p, fl);
    return fl & AT_REMOVEDIR ? rmdir(p) : unlink(p);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    int r = real_mkdir(p, m);
    if (!inside && r == 0 && tracked_path(p)) { pthread_mutex_lock(&mu); jadd(J_MKDIR, p, NULL, 0, NULL, 0); pthread_mutex_unlock(&mu); }
    return r;
}
