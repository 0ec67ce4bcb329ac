/* Preloaded into every process of a simulated build step.
 *
 * Counts the operations that change files (in the order they happen; the scheduler lets one step run
 * at a time), logs which files a step opens to read and to write, and at a chosen operation stops the
 * world (the scheduler then kills or interrupts the build), kills this process, or fails the operation.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <spawn.h>
#include <unistd.h>

struct ctl {
  volatile int count;   /* operations so far */
  int at;               /* operation to disturb; 0: none */
  int what;             /* 1 stop the world, 2 kill this process, 3 fail with err */
  int err;
  volatile int fired;   /* set when it happened */
};

static struct ctl *ctl;
static int logfd = -1;
static char root[4096];
static size_t rootlen;

__attribute__((constructor)) static void init(void) {
  const char *c = getenv("SIM_CTL"), *l = getenv("SIM_LOG"), *r = getenv("SIM_ROOT");
  if (!c || !l || !r) return;
  int fd = syscall(SYS_openat, AT_FDCWD, c, O_RDWR | O_CLOEXEC, 0);
  if (fd < 0) return;
  void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  syscall(SYS_close, fd);
  if (p == MAP_FAILED) return;
  fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
  /* out of the way of the small numbers programs play with */
  logfd = fcntl(fd, F_DUPFD_CLOEXEC, 200);
  syscall(SYS_close, fd);
  strncpy(root, r, sizeof root - 1);
  rootlen = strlen(root);
  ctl = p;
}

static int absolute(int dirfd, const char *path, char *out, size_t n) {
  if (!path) return 0;
  if (path[0] == '/') {
    snprintf(out, n, "%s", path);
  } else if (dirfd == AT_FDCWD) {
    if (!getcwd(out, n)) return 0;
    size_t k = strlen(out);
    snprintf(out + k, n - k, "/%s", path);
  } else {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
    ssize_t k = readlink(link, out, n - 1);
    if (k < 0) return 0;
    out[k] = 0;
    snprintf(out + k, n - k, "/%s", path);
  }
  return strncmp(out, root, rootlen) == 0;
}

static void note(char kind, int dirfd, const char *path) {
  char buf[9000];
  if (logfd < 0) return;
  buf[0] = kind;
  buf[1] = ' ';
  if (!absolute(dirfd, path, buf + 2, sizeof buf - 4)) return;
  size_t k = strlen(buf);
  buf[k++] = '\n';
  int e = errno;
  syscall(SYS_write, logfd, buf, k);
  errno = e;
}

/* -1: the operation fails (errno set), 1: stop half-way, 0: go on */
static int disturb(void) {
  int n = __sync_add_and_fetch(&ctl->count, 1);
  if (n != ctl->at) return 0;
  if (ctl->what == 3) {
    ctl->fired = 1;
    errno = ctl->err;
    return -1;
  }
  return 1;
}

static void act(void) {
  int what = ctl->what;
  ctl->fired = 1;
  if (what == 2) {
    kill(getpid(), SIGKILL);
  }
  for (;;) pause();
}

static int under(int dirfd, const char *path) {
  char buf[8192];
  return absolute(dirfd, path, buf, sizeof buf);
}

#define OP(dirfd, path, fail)                    \
  if (ctl && under(dirfd, path)) {               \
    int d_ = disturb();                          \
    if (d_ < 0) return fail;                     \
    if (d_ > 0) act();                           \
  }

/* a change that took place */
#define DONE(dirfd, path, call)                  \
  int r_ = call;                                 \
  if (ctl && r_ >= 0) note('W', dirfd, path);    \
  return r_;

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

static int writes(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

#define OPENBODY(dirfd, path, flags, call)                                   \
  int fd;                                                                    \
  if (ctl && writes(flags)) {                                                \
    OP(dirfd, path, -1)                                                      \
    fd = call;                                                               \
    if (fd >= 0) note('W', dirfd, path);                                     \
  } else {                                                                   \
    fd = call;                                                               \
    if (ctl) note(fd >= 0 ? 'R' : 'N', dirfd, path);                         \
  }                                                                          \
  return fd;

#define MODE(flags)                                     \
  mode_t mode = 0;                                      \
  if ((flags) & (O_CREAT | O_TMPFILE)) {                \
    va_list ap;                                         \
    va_start(ap, flags);                                \
    mode = va_arg(ap, int);                             \
    va_end(ap);                                         \
  }

int open(const char *path, int flags, ...) {
  MODE(flags)
  OPENBODY(AT_FDCWD, path, flags, syscall(SYS_openat, AT_FDCWD, path, flags, mode))
}
int open64(const char *path, int flags, ...) {
  MODE(flags)
  OPENBODY(AT_FDCWD, path, flags, syscall(SYS_openat, AT_FDCWD, path, flags, mode))
}
int openat(int dirfd, const char *path, int flags, ...) {
  MODE(flags)
  OPENBODY(dirfd, path, flags, syscall(SYS_openat, dirfd, path, flags, mode))
}
int openat64(int dirfd, const char *path, int flags, ...) {
  MODE(flags)
  OPENBODY(dirfd, path, flags, syscall(SYS_openat, dirfd, path, flags, mode))
}
int __open_2(const char *path, int flags) { OPENBODY(AT_FDCWD, path, flags, syscall(SYS_openat, AT_FDCWD, path, flags, 0)) }
int __open64_2(const char *path, int flags) { OPENBODY(AT_FDCWD, path, flags, syscall(SYS_openat, AT_FDCWD, path, flags, 0)) }
int __openat_2(int dirfd, const char *path, int flags) { OPENBODY(dirfd, path, flags, syscall(SYS_openat, dirfd, path, flags, 0)) }
int __openat64_2(int dirfd, const char *path, int flags) { OPENBODY(dirfd, path, flags, syscall(SYS_openat, dirfd, path, flags, 0)) }
int creat(const char *path, mode_t mode) { OPENBODY(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, mode)) }

static FILE *dofopen(FILE *(*real)(const char *, const char *), const char *path, const char *mode) {
  if (ctl && (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'))) {
    OP(AT_FDCWD, path, NULL)
    FILE *g = real(path, mode);
    if (g) note('W', AT_FDCWD, path);
    return g;
  }
  FILE *f = real(path, mode);
  if (ctl) note(f ? 'R' : 'N', AT_FDCWD, path);
  return f;
}
FILE *fopen(const char *path, const char *mode) { REAL(fopen); return dofopen(real, path, mode); }
FILE *fopen64(const char *path, const char *mode) { REAL(fopen64); return dofopen(real, path, mode); }

int rename(const char *a, const char *b) { REAL(rename); OP(AT_FDCWD, b, -1) DONE(AT_FDCWD, b, real(a, b)) }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(renameat); OP(d2, b, -1) DONE(d2, b, real(d1, a, d2, b)) }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { REAL(renameat2); OP(d2, b, -1) DONE(d2, b, real(d1, a, d2, b, f)) }
int unlink(const char *a) { REAL(unlink); OP(AT_FDCWD, a, -1) DONE(AT_FDCWD, a, real(a)) }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); OP(d, a, -1) DONE(d, a, real(d, a, f)) }
int rmdir(const char *a) { REAL(rmdir); OP(AT_FDCWD, a, -1) DONE(AT_FDCWD, a, real(a)) }
// a file system without hard links (or two of them)
#define NOLINK if (getenv("SIM_NOLINK")) { errno = EXDEV; return -1; }
int link(const char *a, const char *b) { REAL(link); NOLINK OP(AT_FDCWD, b, -1) if (ctl) note('R', AT_FDCWD, a); DONE(AT_FDCWD, b, real(a, b)) }
int linkat(int d1, const char *a, int d2, const char *b, int f) { REAL(linkat); NOLINK OP(d2, b, -1) if (ctl) note('R', d1, a); DONE(d2, b, real(d1, a, d2, b, f)) }
int symlink(const char *a, const char *b) { REAL(symlink); OP(AT_FDCWD, b, -1) DONE(AT_FDCWD, b, real(a, b)) }
int symlinkat(const char *a, int d, const char *b) { REAL(symlinkat); OP(d, b, -1) DONE(d, b, real(a, d, b)) }
int mkdir(const char *a, mode_t m) {
  REAL(mkdir);
  if (ctl && under(AT_FDCWD, a)) {
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, a, &st, 0) != 0) {
      int d = disturb();
      if (d < 0) return -1;
      if (d > 0) act();
    }
  }
  return real(a, m);
}
int utimensat(int d, const char *a, const struct timespec t[2], int f) { REAL(utimensat); if (!a) return real(d, a, t, f); OP(d, a, -1) DONE(d, a, real(d, a, t, f)) }

static int regular(int fd) {
  struct stat st;
  return fd != logfd && syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode);
}

ssize_t write(int fd, const void *p, size_t n) {
  if (ctl && n && regular(fd)) {
    int d = disturb();
    if (d < 0) return -1;
    if (d > 0) {
      syscall(SYS_write, fd, p, n / 2);
      act();
    }
  }
  return syscall(SYS_write, fd, p, n);
}

ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  if (ctl) {
    int d = disturb();
    if (d < 0) return -1;
    if (d > 0) act();
  }
  return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
