/* Preloaded into huff: numbers every operation it makes on regular files below
 * HSHIM_ROOT, logs them, and at chosen ones fails, cuts short, interrupts or
 * kills. Everything else passes through untouched.
 *
 *   HSHIM_ROOT   files below this path count
 *   HSHIM_LOG    log file: "number op bytes-asked result path"
 *   HSHIM_KILL   N: SIGKILL before operation N; N.5: in the middle of write N
 *   HSHIM_STOP   N: SIGSTOP before operation N
 *   HSHIM_FAIL   N:ERRNO: operation N fails
 *   HSHIM_META   N:ERRNO: the Nth time a file's position or its attributes are
 *                asked for or set fails (they are not numbered as operations)
 *   HSHIM_FULL   N: from operation N on every write fails with ENOSPC
 *   HSHIM_SHORT  SEED: reads and writes transfer a random part of what is asked
 *   HSHIM_EINTR  SEED: reads and writes are now and then interrupted
 *   HSHIM_MEM    set: the log ends with "N mem peak-resident-KiB 0 ?"
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 256
static char *names[MAXFD];
static const char *root;
static int logfd = -1;
static long count, kill_at = -1, fail_at = -1, full_at = -1, stop_at = -1;
static long metas, meta_at = -1;
static int kill_half, fail_errno, meta_errno;
static unsigned long shrt, eintr;
static int have_short, have_eintr, last_intr;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t *mu(void) { return &lock; }

static unsigned long rnd(unsigned long *s)
{
    *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17;
    return *s;
}

__attribute__((constructor)) static void init(void)
{
    const char *e;
    root = getenv("HSHIM_ROOT");
    if ((e = getenv("HSHIM_LOG")))
        logfd = (int)syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_APPEND, 0666);
    if ((e = getenv("HSHIM_KILL"))) { kill_at = atol(e); kill_half = strchr(e, '.') != NULL; }
    if ((e = getenv("HSHIM_FAIL"))) { fail_at = atol(e); e = strchr(e, ':'); fail_errno = e ? atoi(e + 1) : EIO; }
    if ((e = getenv("HSHIM_META"))) { meta_at = atol(e); e = strchr(e, ':'); meta_errno = e ? atoi(e + 1) : EIO; }
    if ((e = getenv("HSHIM_STOP"))) stop_at = atol(e);
    if ((e = getenv("HSHIM_FULL"))) full_at = atol(e);
    if ((e = getenv("HSHIM_SHORT"))) { have_short = 1; shrt = strtoul(e, NULL, 10) * 2654435761u + 88172645463325252ul; }
    if ((e = getenv("HSHIM_EINTR"))) { have_eintr = 1; eintr = strtoul(e, NULL, 10) * 2654435761u + 88172645463325252ul; }
}

static int inside(const char *p)
{
    char full[PATH_MAX * 2], real[PATH_MAX];
    char *slash;
    if (!root || !p) return 0;
    if (p[0] == '/') snprintf(full, sizeof full, "%s", p);
    else { if (!getcwd(real, sizeof real)) return 0; snprintf(full, sizeof full, "%s/%s", real, p); }
    if (realpath(full, real)) return !strncmp(real, root, strlen(root));
    slash = strrchr(full, '/');
    if (slash) { *slash = 0; if (realpath(full[0] ? full : "/", real)) return !strncmp(real, root, strlen(root)); }
    return 0;
}
static int ours(int fd) { return fd >= 0 && fd < MAXFD && names[fd]; }

static void note(const char *op, long asked, long res, const char *path)
{
    char line[PATH_MAX + 128];
    int n;
    if (logfd < 0) return;
    n = snprintf(line, sizeof line, "%ld %s %ld %ld %s\n", count, op, asked, res, path ? path : "?");
    if (n > 0) (void)!syscall(SYS_write, logfd, line, (size_t)n);
}

/* Numbers the operation; 1 if it has to fail */
static int begin(const char *op, long asked, const char *path)
{
    pthread_mutex_lock(mu());
    count++;
    if (count == stop_at) kill(getpid(), SIGSTOP);
    if (count == kill_at && !kill_half) { note(op, asked, -1000, path); kill(getpid(), SIGKILL); for (;;) pause(); }
    if (count == fail_at) { note(op, asked, -2000, path); pthread_mutex_unlock(mu()); errno = fail_errno; return 1; }
    if (full_at >= 0 && count >= full_at && !strcmp(op, "write")) { note(op, asked, -2000, path); pthread_mutex_unlock(mu()); errno = ENOSPC; return 1; }
    return 0;
}
static void end(const char *op, long asked, long res, const char *path)
{
    int e = errno;
    note(op, asked, res, path);
    pthread_mutex_unlock(mu());
    errno = e;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static void track(int fd, const char *path)
{
    struct stat st;
    if (fd < 0 || fd >= MAXFD) return;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) { free(names[fd]); names[fd] = strdup(path); }
}
static int do_open(int dir, const char *p, int flags, mode_t mode)
{
    int fd;
    const char *op = (flags & O_ACCMODE) == O_RDONLY ? "open" : "create";
    if (dir != AT_FDCWD || !inside(p)) return (int)syscall(SYS_openat, dir, p, flags, mode);
    if (begin(op, 0, p)) return -1;
    fd = (int)syscall(SYS_openat, dir, p, flags, mode);
    if (fd >= 0) track(fd, p);
    end(op, 0, fd, p);
    return fd;
}
#define OPEN(name, large) int name(const char *p, int flags, ...) { \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    return do_open(AT_FDCWD, p, flags | large, m); }
OPEN(open, 0)
OPEN(open64, O_LARGEFILE)
#define OPENAT(name) int name(int dir, const char *p, int flags, ...) { \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    return do_open(dir, p, flags, m); }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

/* what a transfer of n bytes is cut to; -1: interrupted */
static ssize_t cut(size_t n)
{
    if (have_eintr && !last_intr && rnd(&eintr) % 3 == 0) { last_intr = 1; return -1; }
    last_intr = 0;
    if (have_short && n > 1) {
        unsigned long r = rnd(&shrt);
        if (r % 4 == 0) return 1;
        if (r % 4 != 3) return (ssize_t)(1 + rnd(&shrt) % n);
    }
    return (ssize_t)n;
}
#define XFER(op, fd, n, call) do { \
    ssize_t r, k; \
    if (begin(op, (long)(n), names[fd])) return -1; \
    k = cut(n); \
    if (k < 0) { errno = EINTR; end(op, (long)(n), -1, names[fd]); return -1; } \
    { size_t len = (size_t)k; r = (call); } \
    end(op, (long)(n), r, names[fd]); \
    return r; } while (0)

ssize_t read(int fd, void *b, size_t n)
{
    if (!ours(fd)) return syscall(SYS_read, fd, b, n);
    XFER("read", fd, n, syscall(SYS_read, fd, b, len));
}
static ssize_t do_write(int fd, const void *b, size_t n)
{
    if (count + 1 == kill_at && kill_half) {
        pthread_mutex_lock(mu());
        count++;
        syscall(SYS_write, fd, b, n / 2);
        note("write", (long)n, -1000, names[fd]);
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
    XFER("write", fd, n, syscall(SYS_write, fd, b, len));
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (!ours(fd)) return syscall(SYS_write, fd, b, n);
    return do_write(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
    if (!ours(fd)) return syscall(SYS_pread64, fd, b, n, o);
    XFER("read", fd, n, syscall(SYS_pread64, fd, b, len, o));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    if (!ours(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    XFER("write", fd, n, syscall(SYS_pwrite64, fd, b, len, o));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
/* vectored transfers go through the first part that holds anything */
ssize_t readv(int fd, const struct iovec *v, int c)
{
    int i;
    if (!ours(fd)) return syscall(SYS_readv, fd, v, c);
    for (i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    int i;
    if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
    for (i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl)
{
    if (!ours(in) && !ours(out)) return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
    errno = EXDEV;      /* as on a kernel that cannot: callers fall back to read and write */
    return -1;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n)
{
    if (!ours(in) && !ours(out)) return syscall(SYS_sendfile, out, in, o, n);
    errno = EINVAL;
    return -1;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return sendfile(out, in, o, n); }

#define PATHOP(name, params, path, op, call) int name params { \
    int r; if (!inside(path)) return (int)(call); \
    if (begin(op, 0, path)) return -1; \
    r = (int)(call); end(op, 0, r, path); return r; }
PATHOP(unlink, (const char *p), p, "unlink", syscall(SYS_unlink, p))
PATHOP(unlinkat, (int d, const char *p, int f), p, "unlink", syscall(SYS_unlinkat, d, p, f))
PATHOP(rename, (const char *p, const char *q), p, "rename", syscall(SYS_rename, p, q))
PATHOP(renameat, (int d, const char *p, int e, const char *q), p, "rename", syscall(SYS_renameat, d, p, e, q))
PATHOP(truncate, (const char *p, off_t n), p, "truncate", syscall(SYS_truncate, p, n))
PATHOP(truncate64, (const char *p, off64_t n), p, "truncate", syscall(SYS_truncate, p, n))
int remove(const char *p)
{
    int r = unlink(p);
    if (r != 0 && errno == EISDIR) return rmdir(p);
    return r;
}
#define FDOP(name, params, fd, op, call) int name params { \
    int r; if (!ours(fd)) return (int)(call); \
    if (begin(op, 0, names[fd])) return -1; \
    r = (int)(call); end(op, 0, r, names[fd]); return r; }
FDOP(ftruncate, (int fd, off_t n), fd, "truncate", syscall(SYS_ftruncate, fd, n))
FDOP(ftruncate64, (int fd, off64_t n), fd, "truncate", syscall(SYS_ftruncate, fd, n))
FDOP(fsync, (int fd), fd, "sync", syscall(SYS_fsync, fd))
FDOP(fdatasync, (int fd), fd, "sync", syscall(SYS_fdatasync, fd))
static int meta(void)
{
    int hit;
    pthread_mutex_lock(mu());
    hit = ++metas == meta_at;
    pthread_mutex_unlock(mu());
    if (hit) errno = meta_errno;
    return hit;
}
off_t lseek(int fd, off_t o, int w)
{
    if (ours(fd) && meta()) return -1;
    return (off_t)syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int statx(int fd, const char *restrict p, int fl, unsigned m, struct statx *restrict b)
{
    if (p && !*p && ours(fd) && meta()) return -1;
    return (int)syscall(SYS_statx, fd, p, fl, m, b);
}
int fstat(int fd, struct stat *b)
{
    if (ours(fd) && meta()) return -1;
    return (int)syscall(SYS_newfstatat, fd, "", b, AT_EMPTY_PATH);
}
int fstat64(int fd, struct stat64 *b) { return fstat(fd, (struct stat *)b); }
int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && names[fd]) { free(names[fd]); names[fd] = NULL; }
    return (int)syscall(SYS_close, fd);
}

__attribute__((destructor)) static void peak(void)
{
    char b[4096], *p;
    long fd, n;
    if (!getenv("HSHIM_MEM")) return;
    fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/status", O_RDONLY, 0);
    n = syscall(SYS_read, fd, b, sizeof b - 1);
    syscall(SYS_close, fd);
    if (n <= 0) return;
    b[n] = 0;
    if ((p = strstr(b, "VmHWM:"))) note("mem", atol(p + 6), 0, NULL);
}
