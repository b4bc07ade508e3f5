/* Preloaded into the command line tools: every open, read and write on a file of the simulation (named
 * in CLI_SIM_PATHS as path=R,path=R; roles I and S are stdin and stdout) is answered as the plan says.
 * CLI_SIM_PLAN: items separated by ';'
 *   c<role>=<n>   at most n bytes per read or write
 *   d<role>=<n>   room for n bytes in all, then ENOSPC
 *   f<role><idx>:<kind>  the idx-th call on that file (0: open, then reads and writes) gets a fault (i EINTR, e EIO from now on, o EIO once,
 *                 s ENOSPC from now on, p EPIPE from now on, z write answers 0, k SIGKILL before, K after)
 * CLI_SIM_LOG: file the answers are recorded in. Nothing here looks at time or randomness. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char role_of[256];
static struct { char path[256]; char role; } paths[8];
static int npaths, logfd = -1;
static long cap[128], room[128];
static int sticky[128];
static struct { char role; long idx; char kind; } plan[64];
static int nplan;
static long counter[128];
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static int (*r_open)(const char *, int, ...);
static int (*r_close)(int);

static void rec(const char *op, char role, size_t want, long got, const char *why) {
  char b[128];
  int n = snprintf(b, sizeof b, "%s %c %zu %ld %s\n", op, role, want, got, why);
  if (logfd >= 0) syscall(SYS_write, logfd, b, (size_t)n);
}
__attribute__((constructor)) static void init(void) {
  r_read = dlsym(RTLD_NEXT, "read");
  r_write = dlsym(RTLD_NEXT, "write");
  r_open = dlsym(RTLD_NEXT, "open64");
  r_close = dlsym(RTLD_NEXT, "close");
  for (int i = 0; i < 128; i++) cap[i] = room[i] = -1;
  const char *l = getenv("CLI_SIM_LOG"), *p = getenv("CLI_SIM_PATHS"), *q = getenv("CLI_SIM_PLAN");
  if (!l || !p || !q) return;
  logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  role_of[0] = 'I';
  role_of[1] = 'S';
  counter['I'] = counter['S'] = 1;
  char b[2048], *sv = 0;
  snprintf(b, sizeof b, "%s", p);
  for (char *t = strtok_r(b, ",", &sv); t && npaths < 8; t = strtok_r(0, ",", &sv)) {
    char *e = strrchr(t, '=');
    if (!e) continue;
    *e = 0;
    snprintf(paths[npaths].path, 256, "%s", t);
    paths[npaths++].role = e[1];
  }
  snprintf(b, sizeof b, "%s", q);
  for (char *t = strtok_r(b, ";", &sv); t; t = strtok_r(0, ";", &sv)) {
    if (t[0] == 'c' && t[2] == '=') cap[(int)t[1]] = atol(t + 3);
    else if (t[0] == 'd' && t[2] == '=') room[(int)t[1]] = atol(t + 3);
    else if (t[0] == 'f' && strchr(t, ':') && nplan < 64) {
      plan[nplan].role = t[1];
      plan[nplan].idx = atol(t + 2);
      plan[nplan++].kind = strchr(t, ':')[1];
    }
  }
}
static char fault(char role) {
  long k = counter[(int)role]++;
  for (int i = 0; i < nplan; i++)
    if (plan[i].role == role && plan[i].idx == k) return plan[i].kind;
  return 0;
}
/* 1: answered with an error in errno */
static int answer(const char *op, char role, size_t n, char k) {
  int is_write = op[0] == 'w';
  switch (k) {
    case 'i': errno = EINTR; rec(op, role, n, -1, "eintr"); return 1;
    case 'o': errno = EIO; rec(op, role, n, -1, "eio-once"); return 1;
    case 'e': sticky[(int)role] = EIO; break;
    case 's': if (is_write) sticky[(int)role] = ENOSPC; break;
    case 'p': if (is_write && role == 'S') sticky[(int)role] = EPIPE; break;
    case 'k': rec(op, role, n, -1, "kill"); kill(getpid(), SIGKILL); pause();
  }
  if (sticky[(int)role]) {
    errno = sticky[(int)role];
    rec(op, role, n, -1, errno == EIO ? "eio" : errno == ENOSPC ? "enospc" : "epipe");
    return 1;
  }
  return 0;
}
ssize_t read(int fd, void *buf, size_t n) {
  char role = fd >= 0 && fd < 256 ? role_of[fd] : 0;
  if (!role || role == 'S') return r_read(fd, buf, n);
  char k = fault(role);
  if (answer("read", role, n, k)) return -1;
  size_t m = n;
  if (cap[(int)role] > 0 && m > (size_t)cap[(int)role]) m = cap[(int)role];
  ssize_t g = r_read(fd, buf, m);
  rec("read", role, n, g, g >= 0 && (size_t)g == m && m < n ? "short" : "-");
  if (k == 'K') { rec("read", role, n, g, "kill"); kill(getpid(), SIGKILL); pause(); }
  return g;
}
ssize_t write(int fd, const void *buf, size_t n) {
  char role = fd >= 0 && fd < 256 ? role_of[fd] : 0;
  if (!role || role == 'I' || n == 0) return r_write(fd, buf, n);
  char k = fault(role);
  if (answer("write", role, n, k)) return -1;
  if (k == 'z') { rec("write", role, n, 0, "zero"); return 0; }
  size_t m = n;
  if (cap[(int)role] > 0 && m > (size_t)cap[(int)role]) m = cap[(int)role];
  if (room[(int)role] >= 0) {
    if (room[(int)role] == 0) { errno = ENOSPC; rec("write", role, n, -1, "enospc"); return -1; }
    if (m > (size_t)room[(int)role]) m = room[(int)role];
  }
  ssize_t g = r_write(fd, buf, m);
  if (g > 0 && room[(int)role] >= 0) room[(int)role] -= g;
  rec("write", role, n, g, m < n ? "short" : "-");
  if (k == 'K') { rec("write", role, n, g, "kill"); kill(getpid(), SIGKILL); pause(); }
  return g;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  /* one buffer at a time: a short gather write */
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
static int do_open(const char *p, int flags, mode_t mode) {
  char role = 0;
  for (int i = 0; i < npaths; i++)
    if (!strcmp(paths[i].path, p)) role = paths[i].role;
  if (role) {
    char k = fault(role);
    if (k == 'e') { errno = EACCES; rec("open", role, 0, -1, "eacces"); return -1; }
    if (k == 'i') { errno = EINTR; rec("open", role, 0, -1, "eintr"); return -1; }
    if (k == 'o' || k == 's') { errno = EMFILE; rec("open", role, 0, -1, "emfile"); return -1; }
    if (k == 'k') { rec("open", role, 0, -1, "kill"); kill(getpid(), SIGKILL); pause(); }
  }
  int fd = r_open(p, flags, mode);
  if (role && fd >= 0 && fd < 256) { role_of[fd] = role; rec("open", role, 0, 0, "-"); }
  return fd;
}
int open64(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (mode_t)va_arg(a, int); va_end(a);
  return do_open(p, flags, m);
}
int open(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (mode_t)va_arg(a, int); va_end(a);
  return do_open(p, flags, m);
}
int close(int fd) {
  if (fd > 2 && fd < 256) role_of[fd] = 0;
  return r_close(fd);
}
