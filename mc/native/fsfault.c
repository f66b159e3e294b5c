// Preloaded file-system fault injector. Counts every libc call that changes the file system (on any path, or a descriptor opened for writing)
// between arm() and disarm(), and at operation K either lets the process die before it, lets it die after it, lets a write reach the file
// only in part, or makes it fail with an error. Reads are not operations. Every path written is logged.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <unistd.h>

enum { NONE, DIE_BEFORE, DIE_AFTER, TORN, FAIL };
static volatile int armed, mode, target, count, err_no, torn_num, torn_den;
static int log_fd = -1, gate_in = -1, gate_out = -1;
static char tracked[4096];          // descriptors opened for writing while armed

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static void note(const char *op, const char *path) {
  if (log_fd < 0) return;
  char b[5000];
  int n = snprintf(b, sizeof b, "%d %s %s\n", count, op, path ? path : "");
  if (n > (int)sizeof b) n = sizeof b;
  syscall(SYS_write, log_fd, b, n);
}
static void die(void) { syscall(SYS_exit_group, 77); }

// one operation of the process: returns mode that applies to it
static int op(const char *name, const char *path) {
  count++;
  note(name, path);
  if (gate_in >= 0) {               // scheduler: announce, wait for permission
    char c = 'o';
    syscall(SYS_write, gate_out, &c, 1);
    while (syscall(SYS_read, gate_in, &c, 1) != 1) ;
  }
  if (count != target) return NONE;
  if (mode == DIE_BEFORE) die();
  return mode;
}
static void after(int m) { if (m == DIE_AFTER) die(); }

void fsf_arm(int k, int how, int err, int num, int den, int logfd, int gin, int gout) {
  count = 0; target = k; mode = how; err_no = err; torn_num = num; torn_den = den; log_fd = logfd; gate_in = gin; gate_out = gout;
  memset(tracked, 0, sizeof tracked);
  armed = 1;
}
int fsf_disarm(void) { armed = 0; return count; }

static void fdpath(int fd, char *buf, size_t n) {
  char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(p, buf, n - 1);
  buf[k < 0 ? 0 : k] = 0;
}
static int interesting(int fd) { return fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }
static int is_write(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
static int is_dev(const char *p) { return p && !strncmp(p, "/dev/", 5); }

static int do_open(const char *fn, int dirfd, const char *path, int flags, mode_t m) {
  int how = NONE, w = armed && is_write(flags) && !is_dev(path);
  if (w) { how = op("open", path); if (how == FAIL) { errno = err_no; return -1; } }
  int fd = syscall(SYS_openat, dirfd, path, flags, m);
  if (w && fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 1;
  if (w) after(how);
  return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open("open", AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open("open", AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open("openat", d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open("openat", d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open("creat", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

FILE *fopen(const char *p, const char *md) {
  REAL(fopen);
  if (!armed || !strpbrk(md, "wa+") || is_dev(p)) return real(p, md);
  int how = op("fopen", p); if (how == FAIL) { errno = err_no; return NULL; }
  FILE *f = real(p, md);
  if (f) tracked[fileno(f)] = 1;
  after(how);
  return f;
}

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int positioned) {
  char p[4096]; fdpath(fd, p, sizeof p);
  int how = op("write", p);
  if (how == FAIL) { errno = err_no; return -1; }
  size_t k = n;
  if (how == TORN) { k = n * torn_num / torn_den; if (k >= n && n) k = n - 1; }
  ssize_t r = k || !n ? (positioned ? syscall(SYS_pwrite64, fd, b, k, off) : syscall(SYS_write, fd, b, k)) : 0;
  if (how == TORN) die();
  after(how);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { if (armed && interesting(fd)) return do_write(fd, b, n, 0, 0); return syscall(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (armed && interesting(fd)) return do_write(fd, b, n, o, 1); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (armed && interesting(fd)) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    char *b = malloc(n + 1), *q = b; for (int i = 0; i < c; i++) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
    ssize_t r = do_write(fd, b, n, 0, 0); free(b); return r;
  }
  return syscall(SYS_writev, fd, v, c);
}

#define GEN(ret, name, params, args, path, bad) \
  ret name params { REAL(name); if (!armed) return real args; \
    int how = op(#name, path); if (how == FAIL) { errno = err_no; return bad; } \
    if (how == TORN) die(); \
    ret r = real args; after(how); return r; }
GEN(int, rename, (const char *a, const char *b), (a, b), b, -1)
GEN(int, renameat, (int d, const char *a, int e, const char *b), (d, a, e, b), b, -1)
GEN(int, renameat2, (int d, const char *a, int e, const char *b, unsigned f), (d, a, e, b, f), b, -1)
GEN(int, unlink, (const char *a), (a), a, -1)
GEN(int, unlinkat, (int d, const char *a, int f), (d, a, f), a, -1)
GEN(int, remove, (const char *a), (a), a, -1)
GEN(int, rmdir, (const char *a), (a), a, -1)
GEN(int, mkdir, (const char *a, mode_t m), (a, m), a, -1)
GEN(int, mkdirat, (int d, const char *a, mode_t m), (d, a, m), a, -1)
GEN(int, link, (const char *a, const char *b), (a, b), b, -1)
GEN(int, linkat, (int d, const char *a, int e, const char *b, int f), (d, a, e, b, f), b, -1)
GEN(int, symlink, (const char *a, const char *b), (a, b), b, -1)
GEN(int, truncate, (const char *a, off_t n), (a, n), a, -1)
GEN(int, chmod, (const char *a, mode_t m), (a, m), a, -1)

#define GENFD(ret, name, params, args, fd, bad) \
  ret name params { REAL(name); if (!armed || !interesting(fd)) return real args; \
    char p[4096]; fdpath(fd, p, sizeof p); \
    int how = op(#name, p); if (how == FAIL) { errno = err_no; return bad; } \
    if (how == TORN) die(); \
    ret r = real args; after(how); return r; }
GENFD(int, ftruncate, (int fd, off_t n), (fd, n), fd, -1)
GENFD(int, ftruncate64, (int fd, off_t n), (fd, n), fd, -1)
GENFD(int, fsync, (int fd), (fd), fd, -1)
GENFD(int, fdatasync, (int fd), (fd), fd, -1)
GENFD(int, fallocate, (int fd, int m, off_t o, off_t n), (fd, m, o, n), fd, -1)
GENFD(int, posix_fallocate, (int fd, off_t o, off_t n), (fd, o, n), fd, ENOSPC)
GENFD(ssize_t, sendfile, (int fd, int in, off_t *o, size_t n), (fd, in, o, n), fd, -1)
GENFD(ssize_t, sendfile64, (int fd, int in, off_t *o, size_t n), (fd, in, o, n), fd, -1)

ssize_t copy_file_range(int in, off_t *oi, int fd, off_t *oo, size_t n, unsigned f) {
  REAL(copy_file_range); if (!armed || !interesting(fd)) return real(in, oi, fd, oo, n, f);
  char p[4096]; fdpath(fd, p, sizeof p);
  int how = op("copy_file_range", p); if (how == FAIL) { errno = err_no; return -1; }
  if (how == TORN) { real(in, oi, fd, oo, n / 2, f); die(); }
  ssize_t r = real(in, oi, fd, oo, n, f); after(how); return r;
}
int close(int fd) {

  int w = armed && interesting(fd), how = NONE;
  if (w) { char p[4096]; fdpath(fd, p, sizeof p); how = op("close", p); tracked[fd] = 0; if (how == FAIL || how == TORN) how = NONE; }
  int r = syscall(SYS_close, fd);
  if (w) after(how);
  return r;
}
int dup2(int a, int b) { REAL(dup2); int r = real(a, b); if (r >= 0 && interesting(a) && r < (int)sizeof tracked) tracked[r] = 1; return r; }
int dup(int a) { REAL(dup); int r = real(a); if (r >= 0 && interesting(a) && r < (int)sizeof tracked) tracked[r] = 1; return r; }
