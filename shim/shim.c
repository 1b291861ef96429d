/* LD_PRELOAD shim: puts the harness in charge of every file-system mutation,
 * of time and of name resolution of a krill-sync process.
 *
 * Active only in a process whose executable is called krill-sync*, and only
 * when KS_SHIM_SOCK names an inherited SOCK_SEQPACKET descriptor. Before every
 * mutating call a message is sent to the harness, which replies what to do:
 *   'c' continue, 'x' be killed before the call, 'e' fail with errno arg,
 *   'p' (write) write arg bytes and be killed, 's' (write) short write of arg
 *   bytes. Each reply also carries a number of seconds to add to the clock.
 * Mutations outside KS_SHIM_ROOT are reported as 'E' and always refused.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int sock = -1;
static int active = 0;
static int virt_time = 0;
static int log_reads = 0;
static int tls_port = 0;
static int stall = 0;
static int64_t base_time = 0;
static volatile int64_t off_s = 0;   /* seconds slept or added */
static volatile int64_t off_ns = 0;
static char root[PATH_MAX];
static size_t root_len;
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static __thread int busy = 0;

struct reply { int32_t act; int32_t arg; int64_t add; };

static long rsys(long n, long a, long b, long c, long d, long e, long f) {
  REAL(long, syscall, long, ...);
  return real_syscall(n, a, b, c, d, e, f);
}

static void die(void) {
  rsys(SYS_kill, getpid(), SIGKILL, 0, 0, 0, 0);
  for (;;) pause();
}

__attribute__((constructor)) static void init(void) {
  char exe[PATH_MAX];
  const char *s = getenv("KS_SHIM_SOCK");
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (!s || n <= 0) return;
  exe[n] = 0;
  char *b = strrchr(exe, '/');
  b = b ? b + 1 : exe;
  if (strncmp(b, "krill-sync", 10) != 0) return;
  sock = atoi(s);
  REAL(int, fcntl, int, int, ...);
  real_fcntl(sock, F_SETFD, FD_CLOEXEC);
  const char *t = getenv("KS_SHIM_TIME");
  if (t) { base_time = atoll(t); virt_time = 1; }
  const char *r = getenv("KS_SHIM_ROOT");
  if (r) { strncpy(root, r, sizeof root - 1); root_len = strlen(root); }
  log_reads = getenv("KS_SHIM_READS") != NULL;
  t = getenv("KS_SHIM_TLSPORT");
  if (t) tls_port = atoi(t);
  t = getenv("KS_SHIM_STALL");
  if (t) stall = atoi(t);
  active = 1;
}

/* Sends op and up to three strings; returns the reply. */
static struct reply ask(char op, const char *a, const char *b, const char *c) {
  struct reply rp = { 'c', 0, 0 };
  static char buf[4 * PATH_MAX];
  pthread_mutex_lock(&mtx);
  int n = snprintf(buf, sizeof buf, "%c\x01%s\x01%s\x01%s", op, a ? a : "", b ? b : "", c ? c : "");
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  ssize_t r;
  do { r = rsys(SYS_sendto, sock, (long)buf, n, MSG_NOSIGNAL, 0, 0); } while (r < 0 && errno == EINTR);
  if (r < 0) { dprintf(2, "shim: send: errno %d, %d bytes, fd %d: %s\n", errno, n, sock, buf); die(); }
  do { r = rsys(SYS_recvfrom, sock, (long)&rp, sizeof rp, 0, 0, 0); } while (r < 0 && errno == EINTR);
  if (r != sizeof rp) { dprintf(2, "shim: receive: %zd, errno %d\n", r, errno); die(); }
  off_s += rp.add;
  pthread_mutex_unlock(&mtx);
  return rp;
}

/* Absolute, lexically normalised path. */
static void norm(int dirfd, const char *path, char *out) {
  char tmp[2 * PATH_MAX + 2];
  if (path[0] == '/') {
    snprintf(tmp, sizeof tmp, "%s", path);
  } else if (dirfd == AT_FDCWD) {
    char cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "/");
    snprintf(tmp, sizeof tmp, "%s/%s", cwd, path);
  } else {
    char lnk[64], d[PATH_MAX];
    snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
    ssize_t n = readlink(lnk, d, sizeof d - 1);
    if (n < 0) n = 0;
    d[n] = 0;
    snprintf(tmp, sizeof tmp, "%s/%s", d, path);
  }
  /* normalise */
  char *o = out;
  *o = 0;
  char *save = NULL;
  for (char *p = strtok_r(tmp, "/", &save); p; p = strtok_r(NULL, "/", &save)) {
    if (!strcmp(p, ".")) continue;
    if (!strcmp(p, "..")) {
      char *q = strrchr(out, '/');
      if (q) *q = 0; else *out = 0;
      o = out + strlen(out);
      continue;
    }
    size_t l = strlen(p);
    if ((o - out) + l + 2 >= PATH_MAX) break;
    *o++ = '/';
    memcpy(o, p, l);
    o += l;
    *o = 0;
  }
  if (o == out) strcpy(out, "/");
}

static void fdpath(int fd, char *out) {
  char lnk[64];
  snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(lnk, out, PATH_MAX - 1);
  if (n < 0) n = 0;
  out[n] = 0;
}

static int inside(const char *p) {
  if (!root_len) return 1;
  return strncmp(p, root, root_len) == 0 && (p[root_len] == '/' || p[root_len] == 0);
}

static int ignorable(const char *p) {
  return (!strncmp(p, "/dev/", 5) && strncmp(p, "/dev/shm/", 9)) || !strncmp(p, "/proc/", 6);
}

/* Gate for a path operation: 0 go on, -1 fail with errno set. */
static int gate(char op, const char *a, const char *b, const char *c) {
  if (!inside(a) || (b && b[0] == '/' && !inside(b))) {
    char o[2] = { op, 0 };
    ask('E', a, b, o);
    errno = EACCES;
    return -1;
  }
  struct reply r = ask(op, a, b, c);
  if (r.act == 'x') die();
  if (r.act == 'e') { errno = r.arg; return -1; }
  return 0;
}

#define ENTER(call) if (!active || busy) return call; busy = 1
#define LEAVE(v) do { int e_ = errno; busy = 0; errno = e_; return v; } while (0)

/* ------------------------------------------------------------- open */
static int do_openat(int dirfd, const char *path, int flags, mode_t mode) {
  if (!active || busy) return rsys(SYS_openat, dirfd, (long)path, flags | O_LARGEFILE, mode, 0, 0);
  busy = 1;
  char p[PATH_MAX];
  norm(dirfd, path, p);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!ignorable(p)) {
    if (wr) {
      char f[32];
      snprintf(f, sizeof f, "%s%s", (flags & O_CREAT) ? "c" : "", (flags & O_TRUNC) ? "t" : "");
      if (gate('O', p, NULL, f)) LEAVE(-1);
    } else if (log_reads && inside(p) && !(flags & O_DIRECTORY)) {
      ask('r', p, NULL, NULL);
    }
  }
  int r = rsys(SYS_openat, dirfd, (long)path, flags | O_LARGEFILE, mode, 0, 0);
  LEAVE(r);
}
#define OPENMODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { OPENMODE return do_openat(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPENMODE return do_openat(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { OPENMODE return do_openat(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { OPENMODE return do_openat(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_openat(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_openat(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* ------------------------------------------------------------ write */
static int is_file(int fd) {
  struct stat st;
  if (fd <= 2 || fd == sock) return 0;
  if (rsys(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) != 0) return 0;
  return S_ISREG(st.st_mode);
}
/* returns number of bytes allowed, or -1 with errno; kill requested in *k */
static ssize_t gate_write(int fd, size_t n, int *k) {
  char p[PATH_MAX], num[32];
  *k = 0;
  fdpath(fd, p);
  snprintf(num, sizeof num, "%zu", n);
  struct reply r = ask('w', p, num, NULL);
  if (r.act == 'x') die();
  if (r.act == 'e') { errno = r.arg; return -1; }
  if (r.act == 'p') { *k = 1; return (size_t)r.arg < n ? (ssize_t)r.arg : (ssize_t)n; }
  if (r.act == 's') return (size_t)r.arg < n ? (ssize_t)r.arg : (ssize_t)n;
  return n;
}
ssize_t write(int fd, const void *buf, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (!active || busy || !is_file(fd)) return real_write(fd, buf, n);
  busy = 1;
  int k;
  ssize_t m = gate_write(fd, n, &k);
  if (m < 0) LEAVE(-1);
  ssize_t r = real_write(fd, buf, m);
  if (k) die();
  LEAVE(r);
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!active || busy || !is_file(fd)) return real_writev(fd, iov, cnt);
  if (cnt > 0) { for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len); }
  return 0;
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t o) {
  if (!active || busy || !is_file(fd)) return rsys(SYS_pwrite64, fd, (long)buf, n, o, 0, 0);
  busy = 1;
  int k;
  ssize_t m = gate_write(fd, n, &k);
  if (m < 0) LEAVE(-1);
  ssize_t r = rsys(SYS_pwrite64, fd, (long)buf, m, o, 0, 0);
  if (k) die();
  LEAVE(r);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned fl) {
  if (!active || busy || !is_file(out)) return rsys(SYS_copy_file_range, in, (long)oi, out, (long)oo, n, fl);
  busy = 1;
  struct stat st;
  size_t want = n;
  if (rsys(SYS_fstat, in, (long)&st, 0, 0, 0, 0) == 0 && st.st_size >= 0 && (size_t)st.st_size < want) want = st.st_size;
  int k;
  ssize_t m = gate_write(out, want, &k);
  if (m < 0) LEAVE(-1);
  ssize_t r;
  if (k || (size_t)m < want) {
    r = m ? rsys(SYS_copy_file_range, in, (long)oi, out, (long)oo, m, fl) : 0;
    if (k) die();
  } else r = rsys(SYS_copy_file_range, in, (long)oi, out, (long)oo, n, fl);
  LEAVE(r);
}
static ssize_t do_sendfile(int out, int in, off_t *o, size_t n) {
  if (!active || busy || !is_file(out)) return rsys(SYS_sendfile, out, in, (long)o, n, 0, 0);
  busy = 1;
  struct stat st;
  size_t want = n;
  if (rsys(SYS_fstat, in, (long)&st, 0, 0, 0, 0) == 0 && st.st_size >= 0 && (size_t)st.st_size < want) want = st.st_size;
  int k;
  ssize_t m = gate_write(out, want, &k);
  if (m < 0) LEAVE(-1);
  ssize_t r;
  if (k || (size_t)m < want) {
    r = m ? rsys(SYS_sendfile, out, in, (long)o, m, 0, 0) : 0;
    if (k) die();
  } else r = rsys(SYS_sendfile, out, in, (long)o, n, 0, 0);
  LEAVE(r);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t sendfile64(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }

/* ------------------------------------------------- path operations */
static int do_renameat2(int od, const char *o, int nd, const char *n, unsigned fl) {
  if (!active || busy) return rsys(SYS_renameat2, od, (long)o, nd, (long)n, fl, 0);
  busy = 1;
  char a[PATH_MAX], b[PATH_MAX];
  norm(od, o, a);
  norm(nd, n, b);
  if (gate('R', a, b, NULL)) LEAVE(-1);
  int r = rsys(SYS_renameat2, od, (long)o, nd, (long)n, fl, 0);
  LEAVE(r);
}
int rename(const char *o, const char *n) { return do_renameat2(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return do_renameat2(od, o, nd, n, 0); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned fl) { return do_renameat2(od, o, nd, n, fl); }

#define PATHOP(opc, dirfd, path, c, call) \
  busy = 1; char p_[PATH_MAX]; norm(dirfd, path, p_); \
  if (gate(opc, p_, NULL, c)) LEAVE(-1); \
  int r_ = call; LEAVE(r_)

int unlinkat(int d, const char *path, int fl) {
  if (!active || busy) return rsys(SYS_unlinkat, d, (long)path, fl, 0, 0, 0);
  PATHOP((fl & AT_REMOVEDIR) ? 'D' : 'U', d, path, NULL, rsys(SYS_unlinkat, d, (long)path, fl, 0, 0, 0));
}
int unlink(const char *path) { return unlinkat(AT_FDCWD, path, 0); }
int rmdir(const char *path) { return unlinkat(AT_FDCWD, path, AT_REMOVEDIR); }
int remove(const char *path) { struct stat st; if (lstat(path, &st)) return -1; return S_ISDIR(st.st_mode) ? rmdir(path) : unlink(path); }
int mkdirat(int d, const char *path, mode_t m) {
  if (!active || busy) return rsys(SYS_mkdirat, d, (long)path, m, 0, 0, 0);
  /* An attempt to create what exists is no mutation. */
  struct stat st;
  if (rsys(SYS_newfstatat, d, (long)path, (long)&st, AT_SYMLINK_NOFOLLOW, 0, 0) == 0)
    return rsys(SYS_mkdirat, d, (long)path, m, 0, 0, 0);
  PATHOP('M', d, path, NULL, rsys(SYS_mkdirat, d, (long)path, m, 0, 0, 0));
}
int mkdir(const char *path, mode_t m) { return mkdirat(AT_FDCWD, path, m); }
int symlinkat(const char *t, int d, const char *path) {
  if (!active || busy) return rsys(SYS_symlinkat, (long)t, d, (long)path, 0, 0, 0);
  PATHOP('S', d, path, t, rsys(SYS_symlinkat, (long)t, d, (long)path, 0, 0, 0));
}
int symlink(const char *t, const char *path) { return symlinkat(t, AT_FDCWD, path); }
int linkat(int od, const char *o, int nd, const char *n, int fl) {
  if (!active || busy) return rsys(SYS_linkat, od, (long)o, nd, (long)n, fl, 0);
  char s_[PATH_MAX];
  norm(od, o, s_);
  PATHOP('L', nd, n, s_, rsys(SYS_linkat, od, (long)o, nd, (long)n, fl, 0));
}
int link(const char *o, const char *n) { return linkat(AT_FDCWD, o, AT_FDCWD, n, 0); }
static int do_ftruncate(int fd, off_t l) {
  if (!active || busy || !is_file(fd)) return rsys(SYS_ftruncate, fd, l, 0, 0, 0, 0);
  busy = 1;
  char p[PATH_MAX];
  fdpath(fd, p);
  if (gate('T', p, NULL, NULL)) LEAVE(-1);
  int r = rsys(SYS_ftruncate, fd, l, 0, 0, 0, 0);
  LEAVE(r);
}
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off_t l) { return do_ftruncate(fd, l); }
int truncate(const char *path, off_t l) {
  if (!active || busy) return rsys(SYS_truncate, (long)path, l, 0, 0, 0, 0);
  PATHOP('T', AT_FDCWD, path, NULL, rsys(SYS_truncate, (long)path, l, 0, 0, 0, 0));
}
static int do_utimensat(int d, const char *path, const void *ts, int fl) {
  if (!active || busy) return rsys(SYS_utimensat, d, (long)path, (long)ts, fl, 0, 0);
  busy = 1;
  char p[PATH_MAX];
  if (path) norm(d, path, p); else fdpath(d, p);
  if (gate('t', p, NULL, NULL)) LEAVE(-1);
  int r = rsys(SYS_utimensat, d, (long)path, (long)ts, fl, 0, 0);
  LEAVE(r);
}
int utimensat(int d, const char *path, const struct timespec ts[2], int fl) { return do_utimensat(d, path, ts, fl); }
int futimens(int fd, const struct timespec ts[2]) { return do_utimensat(fd, NULL, ts, 0); }
int fchmodat(int d, const char *path, mode_t m, int fl) {
  REAL(int, fchmodat, int, const char *, mode_t, int);
  if (!active || busy) return real_fchmodat(d, path, m, fl);
  PATHOP('m', d, path, NULL, real_fchmodat(d, path, m, fl));
}
int chmod(const char *path, mode_t m) { return fchmodat(AT_FDCWD, path, m, 0); }
int fchmod(int fd, mode_t m) {
  if (!active || busy || !is_file(fd)) return rsys(SYS_fchmod, fd, m, 0, 0, 0, 0);
  busy = 1;
  char p[PATH_MAX];
  fdpath(fd, p);
  if (gate('m', p, NULL, NULL)) LEAVE(-1);
  int r = rsys(SYS_fchmod, fd, m, 0, 0, 0, 0);
  LEAVE(r);
}
/* ---------------------------------------------------------- file locks */
int flock(int fd, int op) {
  REAL(int, flock, int, int);
  if (!active || busy || !is_file(fd)) return real_flock(fd, op);
  busy = 1;
  char p[PATH_MAX];
  fdpath(fd, p);
  if (gate('F', p, op & LOCK_UN ? "unlock" : "lock", NULL)) LEAVE(-1);
  int r = real_flock(fd, op);
  LEAVE(r);
}
int lockf(int fd, int op, off_t len) {
  REAL(int, lockf, int, int, off_t);
  if (!active || busy || !is_file(fd)) return real_lockf(fd, op, len);
  busy = 1;
  char p[PATH_MAX];
  fdpath(fd, p);
  if (gate('F', p, op == F_ULOCK ? "unlock" : "lock", NULL)) LEAVE(-1);
  int r = real_lockf(fd, op, len);
  LEAVE(r);
}
int lockf64(int fd, int op, off64_t len) { return lockf(fd, op, len); }
long syscall(long n, ...) {
  long a[6];
  va_list ap;
  va_start(ap, n);
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (active && !busy) {
    switch (n) {
      case SYS_utimensat: return do_utimensat(a[0], (const char *)a[1], (const void *)a[2], a[3]);
      case SYS_renameat2: return do_renameat2(a[0], (const char *)a[1], a[2], (const char *)a[3], a[4]);
      case SYS_copy_file_range: return copy_file_range(a[0], (off_t *)a[1], a[2], (off_t *)a[3], a[4], a[5]);
      case SYS_futex:
        /* See epoll_wait. The time to wait for ends at a given moment. */
        if (stall > 0 && virt_time && (a[1] & 0x7f) == 9 && a[3]) {
          struct timespec now, *until = (struct timespec *)a[3];
          struct timespec d = { stall / 1000, (stall % 1000) * 1000000L };
          clock_gettime(CLOCK_MONOTONIC, &now);
          long left = until->tv_sec - now.tv_sec + 1;
          if (left > d.tv_sec + 1) {
            long r = rsys(SYS_futex, a[0], a[1] & 0x80, a[2], (long)&d, 0, 0);
            if (r < 0 && errno == ETIMEDOUT) {
              pthread_mutex_lock(&mtx);
              off_s += left;
              pthread_mutex_unlock(&mtx);
              errno = ETIMEDOUT;
            }
            return r;
          }
        }
        break;
      default: break;
    }
  }
  return rsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

/* ------------------------------------------------------------- time */
int clock_gettime(clockid_t c, struct timespec *ts) {
  int r = rsys(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  if (r == 0 && active && virt_time) {
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { ts->tv_sec = base_time + off_s; ts->tv_nsec = off_ns; }
    else if (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE) ts->tv_sec += off_s;
  }
  return r;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
static int do_sleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
  if (!active || busy || !virt_time) return -2;
  struct timespec now, d = *rq;
  if (flags & TIMER_ABSTIME) {
    clock_gettime(c, &now);
    d.tv_sec -= now.tv_sec; d.tv_nsec -= now.tv_nsec;
    if (d.tv_nsec < 0) { d.tv_nsec += 1000000000; d.tv_sec--; }
    if (d.tv_sec < 0) { d.tv_sec = 0; d.tv_nsec = 0; }
  }
  busy = 1;
  char a[32], b[32];
  snprintf(a, sizeof a, "%lld", (long long)d.tv_sec);
  snprintf(b, sizeof b, "%ld", d.tv_nsec);
  struct reply r = ask('Z', a, b, NULL);
  if (r.act == 'x') die();
  pthread_mutex_lock(&mtx);
  off_s += d.tv_sec;
  off_ns += d.tv_nsec;
  if (off_ns >= 1000000000) { off_ns -= 1000000000; off_s++; }
  pthread_mutex_unlock(&mtx);
  if (rm) { rm->tv_sec = 0; rm->tv_nsec = 0; }
  busy = 0;
  return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  int r = do_sleep(CLOCK_REALTIME, 0, rq, rm);
  if (r == -2) return rsys(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0);
  return r;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
  int r = do_sleep(c, fl, rq, rm);
  if (r == -2) { r = rsys(SYS_clock_nanosleep, c, fl, (long)rq, (long)rm, 0, 0); return r < 0 ? errno : 0; }
  return r;
}

/* ---------------------------------------------------------- network */
/* With KS_SHIM_STALL the server under test may be one that does not answer: if
   nothing happens for that many (real) milliseconds, a waiting time that was
   asked for passes at once. */
int epoll_wait(int ep, struct epoll_event *ev, int n, int to) {
  if (!active || !virt_time || stall <= 0 || to <= stall) return rsys(SYS_epoll_pwait, ep, (long)ev, n, to, 0, 8);
  int r = rsys(SYS_epoll_pwait, ep, (long)ev, n, stall, 0, 8);
  if (r != 0) return r;
  pthread_mutex_lock(&mtx);
  off_s += (to + 999) / 1000;
  pthread_mutex_unlock(&mtx);
  return 0;
}
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
  REAL(int, getaddrinfo, const char *, const char *, const struct addrinfo *, struct addrinfo **);
  if (!active || busy) return real_getaddrinfo(node, svc, h, res);
  busy = 1;
  struct reply r = ask('G', node, svc, NULL);
  int v;
  if (r.act == 'x') die();
  if (r.act == 'e') v = EAI_NONAME;
  else {
    struct addrinfo hh;
    memset(&hh, 0, sizeof hh);
    if (h) { hh.ai_socktype = h->ai_socktype; hh.ai_protocol = h->ai_protocol; }
    hh.ai_family = AF_INET;
    hh.ai_flags = AI_NUMERICHOST;
    v = real_getaddrinfo(tls_port ? "127.0.0.1" : node, svc, &hh, res);
  }
  LEAVE(v);
}
int connect(int fd, const struct sockaddr *sa, socklen_t len) {
  if (!active || busy || (sa->sa_family != AF_INET && sa->sa_family != AF_INET6))
    return rsys(SYS_connect, fd, (long)sa, len, 0, 0, 0);
  busy = 1;
  char ip[64] = "", port[16] = "";
  struct sockaddr_in in;
  if (sa->sa_family == AF_INET) {
    memcpy(&in, sa, sizeof in);
    inet_ntop(AF_INET, &in.sin_addr, ip, sizeof ip);
    snprintf(port, sizeof port, "%d", ntohs(in.sin_port));
  } else {
    const struct sockaddr_in6 *i6 = (const void *)sa;
    inet_ntop(AF_INET6, &i6->sin6_addr, ip, sizeof ip);
    snprintf(port, sizeof port, "%d", ntohs(i6->sin6_port));
  }
  struct reply r = ask('N', ip, port, NULL);
  if (r.act == 'x') die();
  if (r.act == 'e' || strncmp(ip, "127.", 4) != 0) { errno = r.act == 'e' ? r.arg : ECONNREFUSED; LEAVE(-1); }
  if (tls_port) { in.sin_port = htons(tls_port); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); }
  int v = rsys(SYS_connect, fd, (long)&in, sizeof in, 0, 0, 0);
  LEAVE(v);
}
