/* LD_PRELOAD monitor for the zielen harness.
 *
 * Interposes the libc calls through which a process changes files and reads the clock. Inert until
 * shim_arm(). When armed it (1) logs every change made under the watched root, in order, (2) reports and
 * refuses every change outside the watched roots, (3) can, at the n-th change, kill the process before or
 * after it or half way through a write, raise a signal, stop the process, or fail the call with an errno,
 * and (4) can make a path prefix unreachable (every call on it fails) from the n-th change on.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <utime.h>

enum { M_NONE = 0, M_KILL_BEFORE = 1, M_KILL_AFTER = 2, M_KILL_PARTIAL = 3, M_SIGNAL = 4, M_STOP = 5,
       M_ERRNO = 6, M_DOWN = 7, M_STOP_AFTER = 8,
       M_ERRNO_ON = 9, M_LOOK_ERR = 10, M_LOOK_ERR_ON = 11, M_LOOK_STOP = 12, M_STAT_ERR = 13, M_STAT_STOP = 14 };

static volatile int armed = 0;
static char root[PATH_MAX];   /* changes under here are counted */
static size_t rootlen = 0;
static char prefix[PATH_MAX]; /* path prefix for M_DOWN / restriction of M_ERRNO */
static size_t prefixlen = 0;
static int logfd = -1;
static long count = 0, trigger = -1;
static int mode = 0, arg = 0;
static volatile int down = 0;
static long escapes = 0, looks = 0, stats = 0;
static double clock_off = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name);

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

void shim_setup(const char *r, int fd)
{
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    logfd = fd;
}
void shim_clock(double off) { clock_off = off; }
void shim_arm(long trig, int md, int a, const char *pfx)
{
    trigger = trig; mode = md; arg = a; count = 0; looks = 0; down = 0; escapes = 0;
    snprintf(prefix, sizeof prefix, "%s", pfx ? pfx : "");
    prefixlen = strlen(prefix);
    if (md == M_DOWN && trig == 0) down = 1;
    armed = 1;
}
void shim_disarm(void) { armed = 0; }
long shim_count(void) { return count; }
long shim_escapes(void) { return escapes; }

static int under(const char *p, const char *r, size_t rl)
{
    return rl && strncmp(p, r, rl) == 0 && (p[rl] == '/' || p[rl] == 0);
}

/* Absolute form of a path, without following its last component unless follow is set. */
static void resolve(int dirfd, const char *path, int follow, char *out)
{
    char tmp[PATH_MAX * 2], dir[PATH_MAX];
    int e = errno;
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else {
        char base[PATH_MAX]; base[0] = 0;
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(l, base, sizeof base - 1); base[n > 0 ? n : 0] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, path);
    }
    size_t n = strlen(tmp);
    while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
    if (follow && realpath(tmp, out)) { errno = e; return; }
    char *s = strrchr(tmp, '/');
    const char *last = s ? s + 1 : tmp;
    if (s && s != tmp && strcmp(last, "..") && strcmp(last, ".")) {
        *s = 0;
        if (realpath(tmp, dir)) {
            if (follow) { /* a dangling link: resolve where the new file would appear */
                char link[PATH_MAX], full[PATH_MAX * 2];
                snprintf(full, sizeof full, "%s/%s", dir, last);
                ssize_t k = readlink(full, link, sizeof link - 1);
                if (k > 0) {
                    link[k] = 0;
                    char nx[PATH_MAX * 2];
                    if (link[0] == '/') snprintf(nx, sizeof nx, "%s", link);
                    else snprintf(nx, sizeof nx, "%s/%s", dir, link);
                    char *q = strrchr(nx, '/'); char d2[PATH_MAX];
                    if (q && q != nx) { *q = 0; if (realpath(nx, d2)) { snprintf(out, PATH_MAX, "%.2000s/%.2000s", d2, q + 1); errno = e; return; } *q = '/'; }
                    snprintf(out, PATH_MAX, "%.4000s", nx); errno = e; return;
                }
            }
            snprintf(out, PATH_MAX, "%.2000s/%.2000s", strcmp(dir, "/") ? dir : "", last);
            errno = e; return;
        }
        *s = '/';
    }
    if (realpath(tmp, out)) { errno = e; return; }
    snprintf(out, PATH_MAX, "%.4000s", tmp);
    errno = e;
}
static void fdpath(int fd, char *out)
{
    char l[64]; int e = errno;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, out, PATH_MAX - 1);
    out[n > 0 ? n : 0] = 0;
    char *d = strstr(out, " (deleted)"); if (d && d[10] == 0) *d = 0;
    errno = e;
}
static void logline(const char *kind, const char *op, const char *p, const char *p2)
{
    if (logfd < 0) return;
    char b[PATH_MAX * 2 + 128];
    int e = errno, i = 0;
    int n = snprintf(b, sizeof b, "%s\2%ld\2%s\2%s\2%s", kind, count, op, p, p2 ? p2 : "");
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    for (i = 0; i < n; i++) if (b[i] == '\n') b[i] = 1;
    b[n++] = '\n';
    raw_write(logfd, b, n);
    errno = e;
}
static int benign_outside(const char *p)
{
    return !strncmp(p, "/dev/", 5) ? strncmp(p, "/dev/shm/", 9) != 0 :
           (!strncmp(p, "/proc/", 6) || !strncmp(p, "pipe:", 5) || !strncmp(p, "socket:", 7) ||
            !strncmp(p, "anon_inode:", 11) || !strncmp(p, "/memfd:", 7) || p[0] == 0);
}

/* Verdict for a change about to be made: 0 go on, 1 go on then call after(), -1 fail with errno set. */
static int before(const char *op, const char *p, const char *p2)
{
    if (!armed) return 0;
    int in1 = under(p, root, rootlen), in2 = p2 ? under(p2, root, rootlen) : 1;
    if (!in1 || !in2) {
        if (benign_outside(p) && (!p2 || benign_outside(p2))) return 0;
        escapes++;
        logline("ESC", op, p, p2);
        errno = EACCES;
        return -1;
    }
    if (down && prefixlen && (under(p, prefix, prefixlen) || (p2 && under(p2, prefix, prefixlen)))) {
        logline("DOWN", op, p, p2); errno = arg; return -1;
    }
    if ((mode == M_ERRNO || mode == M_ERRNO_ON) && prefixlen && !under(p, prefix, prefixlen) && !(p2 && under(p2, prefix, prefixlen)))
    { logline("OP", op, p, p2); return 0; } /* not counted: only changes under the prefix are candidates */
    count++;
    logline("OP", op, p, p2);
    if (mode >= M_LOOK_ERR) return 0; /* those count looks */
    if (mode == M_ERRNO_ON && trigger >= 0 && count >= trigger) { logline("ERR", op, p, p2); errno = arg; return -1; }
    if (count != trigger) return 0;
    switch (mode) {
    case M_KILL_BEFORE: syscall(SYS_kill, getpid(), SIGKILL); break;
    case M_KILL_AFTER: case M_KILL_PARTIAL: case M_STOP_AFTER: return 1;
    case M_SIGNAL: syscall(SYS_kill, getpid(), arg); break;
    case M_STOP: syscall(SYS_kill, getpid(), SIGSTOP); break;
    case M_ERRNO: logline("ERR", op, p, p2); errno = arg; return -1;
    case M_DOWN: down = 1;
        if (under(p, prefix, prefixlen) || (p2 && under(p2, prefix, prefixlen))) { logline("DOWN", op, p, p2); errno = arg; return -1; }
        break;
    }
    return 0;
}
static void after(int v)
{
    if (v != 1) return;
    int e = errno;
    if (mode == M_STOP_AFTER) syscall(SYS_kill, getpid(), SIGSTOP);
    else syscall(SYS_kill, getpid(), SIGKILL);
    errno = e;
}
/* A directory listing or an open for reading: may be made to fail. */
static int look(int dirfd, const char *path);
static int read_look(int dirfd, const char *path)
{
    if (!armed || !path) return 0;
    if (mode >= M_LOOK_ERR) {
        char p[PATH_MAX]; resolve(dirfd, path, 1, p);
        if (under(p, root, rootlen) && (!prefixlen || under(p, prefix, prefixlen))) {
            looks++;
            if (logfd >= 0) { long c = count; count = looks; logline("LOOK", "look", p, NULL); count = c; }
            if (mode < M_STAT_ERR && trigger >= 0 && (looks == trigger || (mode == M_LOOK_ERR_ON && looks > trigger))) {
                if (mode == M_LOOK_STOP) { syscall(SYS_kill, getpid(), SIGSTOP); return 0; }
                logline("ERR", "look", p, NULL); errno = arg; return -1;
            }
        }
    }
    return look(dirfd, path);
}
/* A call that only looks: fails when its path is unreachable. */
static int look(int dirfd, const char *path)
{
    if (!armed || !down || !path) return 0;
    char p[PATH_MAX]; resolve(dirfd, path, 0, p);
    if (under(p, prefix, prefixlen)) { errno = arg; return -1; }
    resolve(dirfd, path, 1, p);
    if (under(p, prefix, prefixlen)) { errno = arg; return -1; }
    return 0;
}

/* A stat: may be made to fail, or be stopped at. */
static int stat_look(int dirfd, const char *path)
{
    if (!armed || !path) return 0;
    if (mode >= M_STAT_ERR) {
        char p[PATH_MAX]; resolve(dirfd, path, 0, p);
        if (under(p, root, rootlen) && (!prefixlen || under(p, prefix, prefixlen))) {
            stats++;
            if (trigger < 0 && logfd >= 0) { long c = count; count = stats; logline("STAT", "stat", p, NULL); count = c; }
            if (stats == trigger) {
                if (mode == M_STAT_STOP) { syscall(SYS_kill, getpid(), SIGSTOP); return 0; }
                long c = count; count = stats; logline("ERR", "stat", p, NULL); count = c;
                errno = arg; return -1;
            }
        }
    }
    return look(dirfd, path);
}

/* With a shifted clock, directories whose entries change get the mtime of that clock, as they would really. */
static int vnow(struct timespec *t)
{
    int e = errno, r = clock_off != 0 && clock_gettime(CLOCK_REALTIME, t) == 0;
    errno = e;
    return r;
}
static void vstamp(const char *p)
{
    struct timespec t[2];
    char d[PATH_MAX];
    if (!armed || !p[0] || !under(p, root, rootlen) || !vnow(&t[0])) return;
    snprintf(d, sizeof d, "%s", p);
    char *s = strrchr(d, '/');
    if (!s || s == d) return;
    *s = 0;
    t[1] = t[0];
    int e = errno; syscall(SYS_utimensat, AT_FDCWD, d, t, 0); errno = e;
}

/* ---- opens ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t m)
{
    int v = 0, fresh = 0;
    char p[PATH_MAX];
    if (armed) {
        if (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) {
            resolve(dirfd, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), p);
            struct stat st;
            int e = errno, exists = syscall(SYS_newfstatat, dirfd, path, &st, 0) == 0; errno = e;
            fresh = (flags & O_CREAT) && !exists;
            int changes = (flags & O_TRUNC) || ((flags & O_CREAT) && !exists);
            if (changes) { v = before((flags & O_TRUNC) ? "opentrunc" : "create", p, NULL); if (v < 0) return -1; }
            else if (!under(p, root, rootlen) && !benign_outside(p)) { v = before("openw", p, NULL); if (v < 0) return -1; }
            else if (look(dirfd, path)) return -1;
        } else if (read_look(dirfd, path)) return -1;
    }
    int r = syscall(SYS_openat, dirfd, path, flags, m);
    if (r >= 0 && fresh) vstamp(p);
    after(v);
    return r;
}
#define GETMODE(flags) mode_t m = 0; if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { GETMODE(flags) return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { GETMODE(flags) return do_open(d, path, flags | O_LARGEFILE, m); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static void fmodeflags(const char *m, int *fl)
{
    int f = m[0] == 'r' ? 0 : (m[0] == 'w' ? O_CREAT | O_TRUNC : O_CREAT | O_APPEND);
    f |= strchr(m, '+') ? O_RDWR : (m[0] == 'r' ? O_RDONLY : O_WRONLY);
    *fl = f;
}
FILE *fopen(const char *path, const char *md)
{
    REAL(FILE *, fopen, const char *, const char *)
    if (armed) {
        int fl; fmodeflags(md, &fl);
        if (fl & (O_WRONLY | O_RDWR | O_CREAT)) {
            char p[PATH_MAX]; resolve(AT_FDCWD, path, 1, p);
            int v = before("fopen", p, NULL); if (v < 0) return NULL;
            FILE *r = real_fopen(path, md); after(v); return r;
        }
        if (read_look(AT_FDCWD, path)) return NULL;
    }
    return real_fopen(path, md);
}
FILE *fopen64(const char *path, const char *md) { return fopen(path, md); }

/* ---- writes ---- */
static int fd_before(const char *op, int fd)
{
    if (!armed || fd == logfd) return 0;
    char p[PATH_MAX]; fdpath(fd, p);
    if (p[0] != '/') return 0;
    if (!under(p, root, rootlen)) return 0; /* judged when it was opened */
    return before(op, p, NULL);
}
#define PART(n) ((v == 1 && mode == M_KILL_PARTIAL && (n) > 1) ? (n) / 2 : (n))
ssize_t write(int fd, const void *b, size_t n)
{
    int v = fd_before("write", fd); if (v < 0) return -1;
    ssize_t r = syscall(SYS_write, fd, b, PART(n)); after(v); return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    int v = fd_before("pwrite", fd); if (v < 0) return -1;
    ssize_t r = syscall(SYS_pwrite64, fd, b, PART(n), o); after(v); return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *iov, int c)
{
    int v = fd_before("writev", fd); if (v < 0) return -1;
    ssize_t r = syscall(SYS_writev, fd, iov, PART(c)); after(v); return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    int v = fd_before("sendfile", o); if (v < 0) return -1;
    if (v == 1 && mode == M_KILL_PARTIAL) { struct stat st; if (fstat(i, &st) == 0 && (off_t)n > st.st_size) n = st.st_size; if (n > 1) n /= 2; }
    ssize_t r = syscall(SYS_sendfile, o, i, off, n); after(v); return r;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f)
{
    int v = fd_before("copy_file_range", o); if (v < 0) return -1;
    ssize_t r = syscall(SYS_copy_file_range, i, io, o, oo, PART(n), f); after(v); return r;
}
int ftruncate(int fd, off_t l)
{
    int v = fd_before("ftruncate", fd); if (v < 0) return -1;
    int r = syscall(SYS_ftruncate, fd, l); after(v); return r;
}
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
int fchmod(int fd, mode_t m)
{
    int v = fd_before("fchmod", fd); if (v < 0) return -1;
    int r = syscall(SYS_fchmod, fd, m); after(v); return r;
}

/* ---- path operations ---- */
#define ONE(op, dirfd, path, follow, call) \
    int v = 0; \
    if (armed) { char p[PATH_MAX]; resolve(dirfd, path, follow, p); v = before(op, p, NULL); if (v < 0) return -1; } \
    int r = call; after(v); return r;
#define ENT(op, dirfd, path, call) \
    int v = 0; char p[PATH_MAX]; p[0] = 0; \
    if (armed) { resolve(dirfd, path, 0, p); v = before(op, p, NULL); if (v < 0) return -1; } \
    int r = call; if (r == 0) vstamp(p); after(v); return r;
int truncate(const char *p_, off_t l) { ONE("truncate", AT_FDCWD, p_, 1, syscall(SYS_truncate, p_, l)) }
int truncate64(const char *p_, off64_t l) { ONE("truncate", AT_FDCWD, p_, 1, syscall(SYS_truncate, p_, l)) }
int unlink(const char *p_) { ENT("unlink", AT_FDCWD, p_, syscall(SYS_unlink, p_)) }
int unlinkat(int d, const char *p_, int f) { ENT((f & AT_REMOVEDIR) ? "rmdir" : "unlink", d, p_, syscall(SYS_unlinkat, d, p_, f)) }
int rmdir(const char *p_) { ENT("rmdir", AT_FDCWD, p_, syscall(SYS_rmdir, p_)) }
int mkdir(const char *p_, mode_t m) { ENT("mkdir", AT_FDCWD, p_, syscall(SYS_mkdir, p_, m)) }
int mkdirat(int d, const char *p_, mode_t m) { ENT("mkdir", d, p_, syscall(SYS_mkdirat, d, p_, m)) }
int symlink(const char *t, const char *p_) { ENT("symlink", AT_FDCWD, p_, syscall(SYS_symlink, t, p_)) }
int symlinkat(const char *t, int d, const char *p_) { ENT("symlink", d, p_, syscall(SYS_symlinkat, t, d, p_)) }
int mknod(const char *p_, mode_t m, dev_t dv) { ENT("mknod", AT_FDCWD, p_, syscall(SYS_mknod, p_, m, dv)) }
int mkfifo(const char *p_, mode_t m) { ENT("mkfifo", AT_FDCWD, p_, syscall(SYS_mknod, p_, m | S_IFIFO, 0)) }
int chmod(const char *p_, mode_t m) { ONE("chmod", AT_FDCWD, p_, 1, syscall(SYS_chmod, p_, m)) }
int fchmodat(int d, const char *p_, mode_t m, int f)
{
    REAL(int, fchmodat, int, const char *, mode_t, int)
    ONE("chmod", d, p_, !(f & AT_SYMLINK_NOFOLLOW), real_fchmodat(d, p_, m, f))
}
int chown(const char *p_, uid_t u, gid_t g) { ONE("chown", AT_FDCWD, p_, 1, syscall(SYS_chown, p_, u, g)) }
int lchown(const char *p_, uid_t u, gid_t g) { ONE("chown", AT_FDCWD, p_, 0, syscall(SYS_lchown, p_, u, g)) }
int utimensat(int d, const char *p_, const struct timespec t[2], int f)
{
    struct timespec n[2];
    if (armed && vnow(&n[0])) {
        n[1] = n[0];
        if (!t) t = n;
        else if (t[1].tv_nsec == UTIME_NOW) { n[0] = t[0].tv_nsec == UTIME_NOW ? n[1] : t[0]; t = n; }
    }
    if (!p_) return syscall(SYS_utimensat, d, p_, t, f);
    ONE("utime", d, p_, !(f & AT_SYMLINK_NOFOLLOW), syscall(SYS_utimensat, d, p_, t, f))
}
int futimens(int fd, const struct timespec t[2])
{
    int v = fd_before("utime", fd); if (v < 0) return -1;
    int r = syscall(SYS_utimensat, fd, NULL, t, 0); after(v); return r;
}
int utimes(const char *p_, const struct timeval t[2]) { if (!t) return utimensat(AT_FDCWD, p_, NULL, 0); ONE("utime", AT_FDCWD, p_, 1, syscall(SYS_utimes, p_, t)) }
int lutimes(const char *p_, const struct timeval t[2])
{
    REAL(int, lutimes, const char *, const struct timeval *)
    if (!t) return utimensat(AT_FDCWD, p_, NULL, AT_SYMLINK_NOFOLLOW);
    ONE("utime", AT_FDCWD, p_, 0, real_lutimes(p_, t))
}
int utime(const char *p_, const struct utimbuf *t) { if (!t) return utimensat(AT_FDCWD, p_, NULL, 0); ONE("utime", AT_FDCWD, p_, 1, syscall(SYS_utime, p_, t)) }
int setxattr(const char *p_, const char *n, const void *b, size_t s, int f) { ONE("setxattr", AT_FDCWD, p_, 1, syscall(SYS_setxattr, p_, n, b, s, f)) }
int lsetxattr(const char *p_, const char *n, const void *b, size_t s, int f) { ONE("setxattr", AT_FDCWD, p_, 0, syscall(SYS_lsetxattr, p_, n, b, s, f)) }
#define TWO(op, d1, a, d2, b, call) \
    int v = 0; char p[PATH_MAX], q[PATH_MAX]; p[0] = q[0] = 0; \
    if (armed) { resolve(d1, a, 0, p); resolve(d2, b, 0, q); v = before(op, p, q); if (v < 0) return -1; } \
    int r = call; if (r == 0) { vstamp(p); vstamp(q); } after(v); return r;
int rename(const char *a, const char *b) { TWO("rename", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_rename, a, b)) }
int renameat(int d1, const char *a, int d2, const char *b) { TWO("rename", d1, a, d2, b, syscall(SYS_renameat, d1, a, d2, b)) }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { TWO("rename", d1, a, d2, b, syscall(SYS_renameat2, d1, a, d2, b, f)) }
int link(const char *a, const char *b) { TWO("link", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_link, a, b)) }
int linkat(int d1, const char *a, int d2, const char *b, int f) { TWO("link", d1, a, d2, b, syscall(SYS_linkat, d1, a, d2, b, f)) }
int remove(const char *p_)
{
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, p_, &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode)) return rmdir(p_);
    return unlink(p_);
}

/* ---- looks (only matter while a prefix is down) ---- */
int stat(const char *p, struct stat *s) { if (stat_look(AT_FDCWD, p)) return -1; return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int stat64(const char *p, struct stat64 *s) { if (stat_look(AT_FDCWD, p)) return -1; return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat(const char *p, struct stat *s) { if (stat_look(AT_FDCWD, p)) return -1; return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) { if (stat_look(AT_FDCWD, p)) return -1; return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *s, int f) { if (stat_look(d, p)) return -1; return syscall(SYS_newfstatat, d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { if (stat_look(d, p)) return -1; return syscall(SYS_newfstatat, d, p, s, f); }
int access(const char *p, int m) { if (look(AT_FDCWD, p)) return -1; return syscall(SYS_access, p, m); }
ssize_t readlink(const char *p, char *b, size_t n) { if (armed && down && look(AT_FDCWD, p)) return -1; return syscall(SYS_readlink, p, b, n); }
DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, const char *)
    if (read_look(AT_FDCWD, p)) return NULL;
    return real_opendir(p);
}

/* ---- clock ---- */
/* Waiting until a time of the shifted clock (the interpreter's locks do): the kernel's clock is not shifted. */
static struct timespec unshifted(const struct timespec *t)
{
    double w = (double)(int64_t)clock_off, fr = clock_off - w;
    struct timespec u = *t;
    u.tv_sec -= (int64_t)w;
    int64_t ns = u.tv_nsec - (int64_t)(fr * 1e9);
    while (ns < 0) { ns += 1000000000; u.tv_sec--; }
    while (ns >= 1000000000) { ns -= 1000000000; u.tv_sec++; }
    u.tv_nsec = ns;
    if (u.tv_sec < 0) u.tv_sec = 0;
    return u;
}
int pthread_cond_timedwait(pthread_cond_t *restrict c, pthread_mutex_t *restrict m, const struct timespec *restrict t)
{
    static int (*real)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    if (!real) real = dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
    if (!real) real = dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    if (clock_off == 0) return real(c, m, t);
    struct timespec u = unshifted(t);
    return real(c, m, &u);
}
int sem_timedwait(sem_t *restrict s, const struct timespec *restrict t)
{
    static int (*real)(sem_t *, const struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "sem_timedwait");
    if (clock_off == 0) return real(s, t);
    struct timespec u = unshifted(t);
    return real(s, &u);
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    REAL(int, clock_gettime, clockid_t, struct timespec *)
    int r = real_clock_gettime(c, t);
    if (r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && clock_off != 0) {
        double w = (double)(int64_t)clock_off; double fr = clock_off - w;
        t->tv_sec += (int64_t)clock_off; int64_t ns = t->tv_nsec + (int64_t)(fr * 1e9);
        if (ns >= 1000000000) { t->tv_sec++; ns -= 1000000000; } if (ns < 0) { t->tv_sec--; ns += 1000000000; }
        t->tv_nsec = ns;
    }
    return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z)
{
    struct timespec s; (void)z;
    if (clock_gettime(CLOCK_REALTIME, &s)) return -1;
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
time_t time(time_t *o)
{
    struct timespec s; clock_gettime(CLOCK_REALTIME, &s);
    if (o) *o = s.tv_sec;
    return s.tv_sec;
}
