/* Preloaded into the blocks crawler: every call that changes something below the directory "output" of the
 * working directory is counted and answered as the plan says.
 * CRAWL_PLAN: items separated by ';'
 *   c=<n>         at most n bytes per write
 *   d=<n>         room for n bytes in all, then ENOSPC
 *   f<idx>:<kind> the idx-th call: i EINTR, e EIO or EACCES once, n ENOSPC from now on (files and bytes), z a write answers 0,
 *                 k SIGKILL before, K SIGKILL after, t SIGKILL after half of the write
 * CRAWL_LOG: file the answers are recorded in. Nothing here looks at time or randomness. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static char *name_of[256];
static int logfd = -1, full, nplan, active;
static long cap = -1, room = -1, counter[128];
static struct { long idx; char op, kind; } plan[64];
static char root[512];
#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__)
REAL(ssize_t, write, int, const void *, size_t);
REAL(int, open, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(int, close, int);
REAL(int, rename, const char *, const char *);
REAL(int, unlink, const char *);
REAL(int, mkdir, const char *, mode_t);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, ftruncate, int, off_t);

__attribute__((constructor)) static void init(void) {
  r_write = dlsym(RTLD_NEXT, "write");
  r_open = dlsym(RTLD_NEXT, "open64");
  r_openat = dlsym(RTLD_NEXT, "openat64");
  r_close = dlsym(RTLD_NEXT, "close");
  r_rename = dlsym(RTLD_NEXT, "rename");
  r_unlink = dlsym(RTLD_NEXT, "unlink");
  r_mkdir = dlsym(RTLD_NEXT, "mkdir");
  r_fsync = dlsym(RTLD_NEXT, "fsync");
  r_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
  r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
  const char *l = getenv("CRAWL_LOG"), *q = getenv("CRAWL_PLAN");
  if (!l || !q || !getcwd(root, sizeof root - 10)) return;
  strcat(root, "/output");
  logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  active = 1;
  char b[2048], *sv = 0;
  snprintf(b, sizeof b, "%s", q);
  for (char *t = strtok_r(b, ";", &sv); t; t = strtok_r(0, ";", &sv)) {
    if (t[0] == 'c' && t[1] == '=') cap = atol(t + 2);
    else if (t[0] == 'd' && t[1] == '=') room = atol(t + 2);
    else if (t[0] == 'f' && strchr(t, ':') && nplan < 64) {
      plan[nplan].op = t[1];
      plan[nplan].idx = atol(t + 2);
      plan[nplan++].kind = strchr(t, ':')[1];
    }
  }
}
/* the part of the path after "output/", or null */
static const char *ours(const char *p) {
  if (!active || !p) return 0;
  size_t n = strlen(root);
  if (!strncmp(p, root, n)) p += n;
  else {
    while (p[0] == '.' && p[1] == '/') p += 2;
    if (strncmp(p, "output", 6)) return 0;
    p += 6;
  }
  while (*p == '/') p++;
  return *p ? p : ".";
}
/* "operation wanted got why path [path]": paths have no spaces or are the last */
static void rec(const char *op, size_t want, long got, const char *why, const char *a, const char *b) {
  char s[2400];
  int n = snprintf(s, sizeof s, "%s\t%zu\t%ld\t%s\t%s\t%s\n", op, want, got, why, a, b ? b : "");
  if (n >= (int)sizeof s) n = sizeof s - 1, s[n - 1] = '\n';
  if (logfd >= 0) syscall(SYS_write, logfd, s, (size_t)n);
}
static void die(const char *op, size_t want, long got, const char *a, const char *b) {
  rec(op, want, got, "kill", a, b);
  kill(getpid(), SIGKILL);
  pause();
}
static char fault(const char *op) {
  long k = counter['a']++, o = counter[(int)op[0]]++;
  for (int i = 0; i < nplan; i++)
    if (plan[i].idx == (plan[i].op == 'a' ? k : plan[i].op == op[0] ? o : -1)) return plan[i].kind;
  return 0;
}
/* 1: answered with an error in errno; makes: the call needs room on the disk */
static int answer(const char *op, size_t n, char k, int can_intr, int err, int makes, const char *a, const char *b) {
  switch (k) {
    case 'i': if (!can_intr) break; errno = EINTR; rec(op, n, -1, "eintr", a, b); return 1;
    case 'e': errno = err; rec(op, n, -1, err == EIO ? "eio" : "eacces", a, b); return 1;
    case 'n': full = 1; break;
    case 'k': die(op, n, -1, a, b);
  }
  if (makes && full) { errno = ENOSPC; rec(op, n, -1, "enospc", a, b); return 1; }
  return 0;
}
ssize_t write(int fd, const void *buf, size_t n) {
  const char *p = fd >= 0 && fd < 256 ? name_of[fd] : 0;
  if (!p || n == 0) return r_write(fd, buf, n);
  char k = fault("write");
  if (answer("write", n, k, 1, EIO, 1, p, 0)) return -1;
  if (k == 'z') { rec("write", n, 0, "zero", p, 0); return 0; }
  size_t m = n;
  if (cap > 0 && m > (size_t)cap) m = cap;
  if (room == 0) { errno = ENOSPC; rec("write", n, -1, "enospc", p, 0); return -1; }
  if (room > 0 && m > (size_t)room) m = room;
  if (k == 't') m = m / 2;
  ssize_t g = m ? r_write(fd, buf, m) : 0;
  if (g > 0 && room > 0) room -= g;
  if (k == 'K' || k == 't') die("write", n, g, p, 0);
  rec("write", n, g, m < n ? "short" : "-", p, 0);
  return g;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
  if (lseek(fd, o, SEEK_SET) < 0) return -1;
  return write(fd, buf, n);
}
static int do_open(int dir, const char *path, int flags, mode_t mode) {
  const char *p = (flags & (O_WRONLY | O_RDWR | O_CREAT)) ? ours(path) : 0;
  char k = 0;
  if (p) {
    k = fault("open");
    if (answer("open", 0, k, 1, EACCES, !!(flags & O_CREAT), p, 0)) return -1;
  }
  int fd = dir == AT_FDCWD ? r_open(path, flags, mode) : r_openat(dir, path, flags, mode);
  if (!p) return fd;
  if (fd >= 0 && fd < 256) name_of[fd] = strdup(p);
  if (k == 'K' || k == 't') die("open", (flags & O_TRUNC) != 0, fd < 0 ? -1 : 0, p, 0);
  int e = errno;
  rec("open", (flags & O_TRUNC) != 0, fd < 0 ? -1 : 0, "-", p, 0);
  errno = e;
  return fd;
}
#define OPEN(name) int name(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = (mode_t)va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, flags, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = (mode_t)va_arg(a, int); va_end(a); return do_open(d, p, flags, m); }
OPENAT(openat)
OPENAT(openat64)
int close(int fd) {
  if (fd >= 0 && fd < 256 && name_of[fd]) { free(name_of[fd]); name_of[fd] = 0; }
  return r_close(fd);
}
#define CALL(op, err, makes, a, b, real) \
  char k = fault(op); \
  if (answer(op, 0, k, 0, err, makes, a, b)) return -1; \
  int r = real, e = errno; \
  if (k == 'K' || k == 't') die(op, 0, r, a, b); \
  rec(op, 0, r, "-", a, b); \
  errno = e; \
  return r;
int rename(const char *a, const char *b) {
  const char *x = ours(a), *y = ours(b);
  if (!x && !y) return r_rename(a, b);
  CALL("rename", EACCES, 1, x ? x : "?", y ? y : "?", r_rename(a, b))
}
int renameat(int c, const char *a, int d, const char *b) {
  if (c == AT_FDCWD && d == AT_FDCWD) return rename(a, b);
  return (int)syscall(SYS_renameat, c, a, d, b);
}
int unlink(const char *a) {
  const char *x = ours(a);
  if (!x) return r_unlink(a);
  CALL("unlink", EACCES, 0, x, 0, r_unlink(a))
}
int mkdir(const char *a, mode_t m) {
  const char *x = ours(a);
  if (!x) return r_mkdir(a, m);
  CALL("mkdir", EACCES, 1, x, 0, r_mkdir(a, m))
}
#define FD(op) \
int op(int fd) { \
  const char *p = fd >= 0 && fd < 256 ? name_of[fd] : 0; \
  if (!p) return r_##op(fd); \
  CALL("sync", EIO, 0, p, 0, 0) \
}
FD(fsync)
FD(fdatasync)
int ftruncate64(int fd, off_t n) {
  const char *p = fd >= 0 && fd < 256 ? name_of[fd] : 0;
  if (!p) return r_ftruncate(fd, n);
  CALL("truncate", EIO, 0, p, 0, r_ftruncate(fd, n))
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
