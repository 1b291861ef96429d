/* LD_PRELOAD helper for demonstrations: a shifted clock, a log of the calls
   which change files, and one fault (kill or errno) at a chosen call.
   FI_TIME=seconds  FI_LOG=file  FI_OP=rename|unlink|write|open|symlink|mkdir|rmdir
   FI_MATCH=substring of the (target) path  FI_N=which match (from 1)
   FI_ACT=kill|after|<errno>  FI_NOSLEEP=1 (sleeping moves the clock) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
static long shift; static int n, init;
static void setup(void) { if (!init) { init = 1; char *t = getenv("FI_TIME"); if (t) shift = atol(t); } }
#define REAL(f) __typeof__(&f) real = (__typeof__(&f))dlsym(RTLD_NEXT, #f)
static void logit(const char *op, const char *a, const char *b) {
  char *l = getenv("FI_LOG"); if (!l) return;
  int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
  ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  int fd = o(l, O_WRONLY | O_CREAT | O_APPEND, 0644); char buf[9000];
  int k = snprintf(buf, sizeof buf, "%s %s %s\n", op, a, b); w(fd, buf, k); close(fd);
}
/* 0: go on, 1: kill after the call, -1: errno is set */
static int fault(const char *op, const char *a, const char *b) {
  setup(); logit(op, a, b);
  char *o = getenv("FI_OP"), *m = getenv("FI_MATCH"), *w = getenv("FI_N"), *x = getenv("FI_ACT");
  if (!o || strcmp(o, op) || !x) return 0;
  if (m && !strstr(b && *b ? b : a, m)) return 0;
  if (++n != (w ? atoi(w) : 1)) return 0;
  if (!strcmp(x, "kill")) { kill(getpid(), SIGKILL); pause(); }
  if (!strcmp(x, "after")) return 1;
  errno = atoi(x); return -1;
}
#define AROUND(op, a, b, call) int f_ = fault(op, a, b); if (f_ < 0) return -1; __typeof__(call) r_ = call; if (f_ > 0) { kill(getpid(), SIGKILL); pause(); } return r_
/* FI_FLOCK=ms: wait (in real time) before each lock is taken */
int flock(int fd, int op) {
  int (*real)(int, int) = dlsym(RTLD_NEXT, "flock"); char *w = getenv("FI_FLOCK");
  if (w && !(op & 8)) usleep(1000 * atoi(w));
  return real(fd, op);
}
int rename(const char *a, const char *b) { REAL(rename); AROUND("rename", a, b, real(a, b)); }
int unlink(const char *a) { REAL(unlink); AROUND("unlink", a, "", real(a)); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); AROUND(f & AT_REMOVEDIR ? "rmdir" : "unlink", a, "", real(d, a, f)); }
int rmdir(const char *a) { REAL(rmdir); AROUND("rmdir", a, "", real(a)); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); AROUND("mkdir", a, "", real(a, m)); }
int symlink(const char *a, const char *b) { REAL(symlink); AROUND("symlink", a, b, real(a, b)); }
static int do_open(const char *fn, const char *p, int fl, mode_t m) {
  int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, fn);
  if (!(fl & (O_WRONLY | O_RDWR | O_CREAT))) { logit("read", p, ""); return real(p, fl, m); }
  AROUND("open", p, "", real(p, fl, m));
}
int open(const char *p, int fl, ...) { va_list v; va_start(v, fl); mode_t m = va_arg(v, int); va_end(v); return do_open("open", p, fl, m); }
int open64(const char *p, int fl, ...) { va_list v; va_start(v, fl); mode_t m = va_arg(v, int); va_end(v); return do_open("open64", p, fl, m); }
ssize_t write(int fd, const void *b, size_t k) {
  REAL(write); char l[64], p[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t q = readlink(l, p, sizeof p - 1); if (q < 0) q = 0; p[q] = 0;
  if (p[0] != '/' || strncmp(p, "/dev/", 5) == 0 && strncmp(p, "/dev/shm", 8)) return real(fd, b, k);
  AROUND("write", p, "", real(fd, b, k));
}
int clock_gettime(clockid_t c, struct timespec *t) {
  REAL(clock_gettime); setup(); int r = real(c, t); if (c == CLOCK_REALTIME) t->tv_sec += shift; return r;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  REAL(nanosleep); logit("sleep", "", ""); if ((getenv("FI_NOSLEEP") && !getenv("FI_NOSLEEP_OFF"))) { shift += a->tv_sec; return 0; } return real(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  REAL(clock_nanosleep); logit("sleep", "", ""); if ((getenv("FI_NOSLEEP") && !getenv("FI_NOSLEEP_OFF"))) { shift += a->tv_sec; return 0; } return real(c, f, a, b);
}
