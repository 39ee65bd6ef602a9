/* Counts the file operations a process makes on paths under a prefix and, at the n-th, kills it (before, after or
   half-way through a write) or fails the operation. Loaded with LD_PRELOAD; armed with vf_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

enum { COUNT, KILL_BEFORE, KILL_AFTER, TORN, FAIL_EIO, FAIL_NOSPC, FAIL_ACCES };
static char prefix[4096];
static int armed, mode, target, counter, logfd = -1, pid_armed;
static unsigned char tracked[4096];

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

void vf_arm(const char *p, int m, int n, int lfd) {
  strncpy(prefix, p, sizeof prefix - 1); mode = m; target = n; logfd = lfd; counter = 0; armed = 1; pid_armed = getpid();
  memset(tracked, 0, sizeof tracked);
}
int vf_count(void) { return counter; }
static void note(const char *op) {
  if (logfd >= 0) { char b[64]; int k = snprintf(b, sizeof b, "%s\n", op); syscall(SYS_write, logfd, b, k); }
}
static int onpath(const char *p) { return armed && p && strncmp(p, prefix, strlen(prefix)) == 0; }
static int onfd(int fd) { return armed && fd >= 0 && fd < 4096 && tracked[fd]; }
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
/* returns 1 when the operation is the chosen one */
static int hit(const char *op) {
  note(op);
  if (counter++ != target || mode == COUNT) return 0;
  if (mode == KILL_BEFORE) die();
  return 1;
}
#define SIMPLE(op, call) do { if (hit(op)) { if (mode == FAIL_EIO) { errno = EIO; return -1; } \
  if (mode == FAIL_NOSPC) { errno = ENOSPC; return -1; } if (mode == FAIL_ACCES) { errno = EACCES; return -1; } \
  long r_ = call; (void)r_; if (mode == KILL_AFTER || mode == TORN) die(); return r_; } } while (0)

static int doopen(int fd, const char *p, int flags) { if (fd >= 0 && fd < 4096) tracked[fd] = onpath(p); return fd; }
#define OPENLIKE(name) int name(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
  REAL(int, name, const char *, int, ...); if (onpath(p)) { const char *o = (flags & O_ACCMODE) == O_RDONLY ? "open-read" : "open-write"; \
  if (hit(o)) { if (mode == FAIL_EIO) { errno = EIO; return -1; } if (mode == FAIL_NOSPC) { errno = ENOSPC; return -1; } if (mode == FAIL_ACCES) { errno = EACCES; return -1; } \
  int fd = doopen(real(p, flags, m), p, flags); if (mode == KILL_AFTER || mode == TORN) die(); return fd; } } \
  return doopen(real(p, flags, m), p, flags); }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(name) int name(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
  REAL(int, name, int, const char *, int, ...); if (onpath(p)) { const char *o = (flags & O_ACCMODE) == O_RDONLY ? "open-read" : "open-write"; \
  if (hit(o)) { if (mode == FAIL_EIO) { errno = EIO; return -1; } if (mode == FAIL_NOSPC) { errno = ENOSPC; return -1; } if (mode == FAIL_ACCES) { errno = EACCES; return -1; } \
  int fd = doopen(real(d, p, flags, m), p, flags); if (mode == KILL_AFTER || mode == TORN) die(); return fd; } } \
  return doopen(real(d, p, flags, m), p, flags); }
OPENATLIKE(openat)
OPENATLIKE(openat64)
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (onfd(fd) && hit("write")) {
    if (mode == FAIL_EIO) { errno = EIO; return -1; }
    if (mode == FAIL_ACCES) { errno = EACCES; return -1; }
    if (mode == FAIL_NOSPC) { if (n > 1) { real(fd, b, n / 2); } errno = ENOSPC; return -1; }
    if (mode == TORN) { real(fd, b, n / 2); die(); }
    ssize_t r = real(fd, b, n); if (mode == KILL_AFTER) die(); return r;
  }
  return real(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, read, int, void *, size_t);
  if (onfd(fd)) SIMPLE("read", real(fd, b, n));
  return real(fd, b, n);
}
int close(int fd) {
  REAL(int, close, int);
  if (onfd(fd)) { tracked[fd] = 0; if (hit("close")) { int r = real(fd); if (mode >= FAIL_EIO) { errno = EIO; return -1; } die(); return r; } }
  return real(fd);
}
int rename(const char *x, const char *y) { REAL(int, rename, const char *, const char *); if (onpath(x) || onpath(y)) SIMPLE("rename", real(x, y)); return real(x, y); }
int renameat(int a, const char *x, int b, const char *y) { REAL(int, renameat, int, const char *, int, const char *); if (onpath(x) || onpath(y)) SIMPLE("rename", real(a, x, b, y)); return real(a, x, b, y); }
int renameat2(int a, const char *x, int b, const char *y, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); if (onpath(x) || onpath(y)) SIMPLE("rename", real(a, x, b, y, f)); return real(a, x, b, y, f); }
int link(const char *x, const char *y) { REAL(int, link, const char *, const char *); if (onpath(x) || onpath(y)) SIMPLE("link", real(x, y)); return real(x, y); }
int unlink(const char *x) { REAL(int, unlink, const char *); if (onpath(x)) SIMPLE("unlink", real(x)); return real(x); }
int unlinkat(int d, const char *x, int f) { REAL(int, unlinkat, int, const char *, int); if (onpath(x)) SIMPLE("unlink", real(d, x, f)); return real(d, x, f); }
int remove(const char *x) { REAL(int, remove, const char *); if (onpath(x)) SIMPLE("unlink", real(x)); return real(x); }
int chmod(const char *x, mode_t m) { REAL(int, chmod, const char *, mode_t); if (onpath(x)) SIMPLE("chmod", real(x, m)); return real(x, m); }
int fchmod(int fd, mode_t m) { REAL(int, fchmod, int, mode_t); if (onfd(fd)) SIMPLE("chmod", real(fd, m)); return real(fd, m); }
int fchmodat(int d, const char *x, mode_t m, int f) { REAL(int, fchmodat, int, const char *, mode_t, int); if (onpath(x)) SIMPLE("chmod", real(d, x, m, f)); return real(d, x, m, f); }
int truncate(const char *x, off_t n) { REAL(int, truncate, const char *, off_t); if (onpath(x)) SIMPLE("truncate", real(x, n)); return real(x, n); }
int truncate64(const char *x, off64_t n) { REAL(int, truncate64, const char *, off64_t); if (onpath(x)) SIMPLE("truncate", real(x, n)); return real(x, n); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); if (onfd(fd)) SIMPLE("truncate", real(fd, n)); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); if (onfd(fd)) SIMPLE("truncate", real(fd, n)); return real(fd, n); }
int fsync(int fd) { REAL(int, fsync, int); if (onfd(fd)) SIMPLE("fsync", real(fd)); return real(fd); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); if (onfd(fd)) { if (hit("write")) { if (mode == FAIL_EIO) { errno = EIO; return -1; } \
  if (mode == FAIL_NOSPC) { errno = ENOSPC; return -1; } if (mode == FAIL_ACCES) { errno = EACCES; return -1; } if (mode == TORN) { real(fd, b, n / 2, o); die(); } ssize_t r = real(fd, b, n, o); if (mode == KILL_AFTER) die(); return r; } } return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
#include <sys/uio.h>
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, writev, int, const struct iovec *, int); if (onfd(fd)) { if (mode == TORN && counter == target && c > 0) { hit("write"); struct iovec h = v[0]; h.iov_len /= 2; real(fd, &h, 1); die(); } SIMPLE("write", real(fd, v, c)); } return real(fd, v, c); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { REAL(ssize_t, pwritev, int, const struct iovec *, int, off_t); if (onfd(fd)) { if (mode == TORN && counter == target && c > 0) { hit("write"); struct iovec h = v[0]; h.iov_len /= 2; real(fd, &h, 1, o); die(); } SIMPLE("write", real(fd, v, c, o)); } return real(fd, v, c, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { return pwritev(fd, v, c, o); }
int rmdir(const char *x) { REAL(int, rmdir, const char *); if (onpath(x)) SIMPLE("rmdir", real(x)); return real(x); }
int symlink(const char *x, const char *y) { REAL(int, symlink, const char *, const char *); if (onpath(y)) SIMPLE("symlink", real(x, y)); return real(x, y); }
int futimens(int fd, const struct timespec t[2]) { REAL(int, futimens, int, const struct timespec *); if (onfd(fd)) SIMPLE("utime", real(fd, t)); return real(fd, t); }
int utimensat(int d, const char *x, const struct timespec t[2], int f) { REAL(int, utimensat, int, const char *, const struct timespec *, int); if (onpath(x)) SIMPLE("utime", real(d, x, t, f)); return real(d, x, t, f); }
#include <stdlib.h>
/* VF_ARM="mode n logpath prefix" arms a program that cannot call vf_arm() itself; its children are left alone. */
__attribute__((constructor)) static void vf_init(void) {
  const char *e = getenv("VF_ARM"); char log[4096], pre[4096]; int m, n;
  if (!e || sscanf(e, "%d %d %4095s %4095s", &m, &n, log, pre) != 4) return;
  int fd = open(log, O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0600);
  vf_arm(pre, m, n, fd); unsetenv("VF_ARM"); unsetenv("LD_PRELOAD");
}
int mkdir(const char *x, mode_t m) { REAL(int, mkdir, const char *, mode_t); if (onpath(x)) SIMPLE("mkdir", real(x, m)); return real(x, m); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { REAL(ssize_t, sendfile, int, int, off_t *, size_t); if (onfd(o)) SIMPLE("sendfile", real(o, i, p, n)); return real(o, i, p, n); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); if (onfd(o)) SIMPLE("sendfile", real(o, i, p, n)); return real(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); if (onfd(o)) SIMPLE("copy_file_range", real(i, a, o, b, n, f)); return real(i, a, o, b, n, f); }
