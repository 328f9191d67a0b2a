/* LD_PRELOAD shim: turns every file-system operation a process performs below a
 * given directory into a scheduling/crash point decided by an external controller.
 *
 * The shim is inert until vshim_attach(fd, prefix) is called (in a forked worker).
 * For each operation on a path below `prefix` it sends one text line on `fd` and
 * blocks until the controller answers with one byte:
 *    'g'  perform the operation
 *    'k'  die now, without performing it (what SIGKILL before the call would do)
 *    'p'  (write only) perform half of the write, then die
 * The operation itself is never altered otherwise.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static int g_fd = -1;
static char g_prefix[PATH_MAX];
static size_t g_plen;
static char *g_paths[MAXFD]; /* path of fds opened for writing below prefix */
static char g_locked[MAXFD]; /* fd holds a flock */
static pthread_t g_thread;
static __thread int g_in;

static long rawwrite(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static long rawread(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }

static void sendall(const char *b, size_t n) {
  while (n) {
    long r = rawwrite(g_fd, b, n);
    if (r < 0) { if (errno == EINTR) continue; syscall(SYS_exit_group, 99); }
    b += r; n -= r;
  }
}

static int active(void) { return g_fd >= 0 && !g_in && pthread_equal(pthread_self(), g_thread); }

static char ask(const char *kind, const char *p, const char *q, long n) {
  char buf[3 * PATH_MAX];
  int len = snprintf(buf, sizeof buf, "?\t%s\t%s\t%s\t%ld\n", kind, p, q ? q : "", n);
  int e = errno;
  g_in = 1;
  sendall(buf, len);
  char c = 0;
  for (;;) {
    long r = rawread(g_fd, &c, 1);
    if (r == 1) break;
    if (r < 0 && errno == EINTR) continue;
    syscall(SYS_exit_group, 98); /* controller gone */
  }
  g_in = 0;
  errno = e;
  if (c == 'k') syscall(SYS_exit_group, 137);
  return c;
}
static void tell(const char *kind, const char *p, long n) {
  char buf[2 * PATH_MAX];
  int e = errno;
  int len = snprintf(buf, sizeof buf, "!\t%s\t%s\t\t%ld\n", kind, p, n);
  sendall(buf, len);
  errno = e;
}

/* resolve (dirfd, path) to an absolute path; returns 0 if below prefix */
static int resolve(int dfd, const char *path, char *out) {
  if (!path) return -1;
  if (path[0] == '/') {
    if (strlen(path) >= PATH_MAX) return -1;
    strcpy(out, path);
  } else {
    char base[PATH_MAX];
    if (dfd == AT_FDCWD) {
      if (syscall(SYS_getcwd, base, sizeof base) < 0) return -1;
    } else {
      char pf[64];
      snprintf(pf, sizeof pf, "/proc/self/fd/%d", dfd);
      long r = syscall(SYS_readlinkat, AT_FDCWD, pf, base, sizeof base - 1);
      if (r < 0) return -1;
      base[r] = 0;
    }
    if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return -1;
  }
  return strncmp(out, g_prefix, g_plen) == 0 ? 0 : -1;
}

int vshim_attach(int fd, const char *prefix) {
  strncpy(g_prefix, prefix, sizeof g_prefix - 1);
  g_plen = strlen(g_prefix);
  g_thread = pthread_self();
  g_fd = fd;
  return 0;
}
void vshim_detach(void) { g_fd = -1; }
int vshim_present(void) { return 1; }
/* an application-level event (blocking) */
void vshim_event(const char *kind, const char *data) {
  if (g_fd >= 0) ask(kind, data, "", 0);
}
void vshim_note(const char *kind, const char *data) {
  if (g_fd >= 0) { g_in = 1; tell(kind, data, 0); g_in = 0; }
}

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static void track(int fd, const char *p) {
  if (fd >= 0 && fd < MAXFD) { free(g_paths[fd]); g_paths[fd] = strdup(p); g_locked[fd] = 0; }
}
static const char *oflags(int f) {
  if ((f & O_ACCMODE) == O_RDONLY) return (f & O_DIRECTORY) ? "d" : (f & O_CREAT) ? "rc" : "r";
  if (f & O_TRUNC) return "wt";
  if (f & O_APPEND) return "wa";
  return "w";
}

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  char p[PATH_MAX];
  if (active() && resolve(dfd, path, p) == 0) {
    ask("open", p, oflags(flags), flags);
    int fd = syscall(SYS_openat, dfd, path, flags, mode);
    track(fd, p);
    return fd;
  }
  int fd = syscall(SYS_openat, dfd, path, flags, mode);
  if (g_fd >= 0 && fd >= 0 && fd < MAXFD && g_paths[fd]) { free(g_paths[fd]); g_paths[fd] = NULL; g_locked[fd] = 0; }
  return fd;
}
#define VAMODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { VAMODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { VAMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { VAMODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { VAMODE return do_open(d, p, flags | O_LARGEFILE, m); }

static FILE *do_fopen(const char *p0, const char *m, FILE *(*real)(const char *, const char *)) {
  char p[PATH_MAX];
  if (active() && resolve(AT_FDCWD, p0, p) == 0) {
    ask("open", p, m[0] == 'r' ? "r" : "wt", 0);
    g_in = 1; FILE *f = real(p0, m); g_in = 0;
    if (f) track(fileno(f), p);
    return f;
  }
  return real(p0, m);
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(p, m, real); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(p, m, real); }
int fclose(FILE *f) {
  REAL(int, fclose, FILE *);
  if (active() && f) {
    int fd = fileno(f);
    if (fd >= 0 && fd < MAXFD) {
      char pf[64], base[PATH_MAX];
      snprintf(pf, sizeof pf, "/proc/self/fd/%d", fd);
      long r = syscall(SYS_readlinkat, AT_FDCWD, pf, base, sizeof base - 1);
      if (r > 0) { base[r] = 0; if (strncmp(base, g_prefix, g_plen) == 0) ask("fclose", base, "", 0); }
      free(g_paths[fd]); g_paths[fd] = NULL; g_locked[fd] = 0;
    }
  }
  return real(f);
}

ssize_t write(int fd, const void *b, size_t n) {
  if (fd >= 0 && fd < MAXFD && g_paths[fd] && active()) {
    char c = ask("write", g_paths[fd], "", (long)n);
    if (c == 'p') { rawwrite(fd, b, n / 2); syscall(SYS_exit_group, 137); }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (fd >= 0 && fd < MAXFD && g_paths[fd] && active()) {
    char c = ask("write", g_paths[fd], "v", k);
    if (c == 'p') { rawwrite(fd, v[0].iov_base, v[0].iov_len / 2); syscall(SYS_exit_group, 137); }
  }
  return syscall(SYS_writev, fd, v, k);
}
int close(int fd) {
  if (fd >= 0 && fd < MAXFD && g_paths[fd]) {
    if (g_locked[fd] && active()) { ask("unlock", g_paths[fd], "close", 0); }
    int locked = g_locked[fd];
    char p[PATH_MAX]; strncpy(p, g_paths[fd], sizeof p - 1); p[sizeof p - 1] = 0;
    free(g_paths[fd]); g_paths[fd] = NULL; g_locked[fd] = 0;
    int r = syscall(SYS_close, fd);
    if (locked && active()) tell("unlocked", p, 0);
    return r;
  }
  return syscall(SYS_close, fd);
}
int flock(int fd, int op) {
  if (fd >= 0 && fd < MAXFD && g_paths[fd] && active()) {
    if (op & LOCK_UN) {
      ask("unlock", g_paths[fd], "un", op);
      int r = syscall(SYS_flock, fd, op);
      g_locked[fd] = 0;
      tell("unlocked", g_paths[fd], r);
      return r;
    }
    ask("lock", g_paths[fd], (op & LOCK_EX) ? "ex" : "sh", op);
    int r = syscall(SYS_flock, fd, op);
    if (r == 0) g_locked[fd] = 1;
    tell("locked", g_paths[fd], r == 0 ? 0 : errno);
    return r;
  }
  return syscall(SYS_flock, fd, op);
}
int mkdir(const char *path, mode_t m) {
  char p[PATH_MAX];
  if (active() && resolve(AT_FDCWD, path, p) == 0) ask("mkdir", p, "", 0);
  return syscall(SYS_mkdirat, AT_FDCWD, path, m);
}
int mkdirat(int d, const char *path, mode_t m) {
  char p[PATH_MAX];
  if (active() && resolve(d, path, p) == 0) ask("mkdir", p, "", 0);
  return syscall(SYS_mkdirat, d, path, m);
}
int rmdir(const char *path) {
  char p[PATH_MAX];
  if (active() && resolve(AT_FDCWD, path, p) == 0) ask("rmdir", p, "", 0);
  return syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR);
}
int unlink(const char *path) {
  char p[PATH_MAX];
  if (active() && resolve(AT_FDCWD, path, p) == 0) ask("unlink", p, "", 0);
  return syscall(SYS_unlinkat, AT_FDCWD, path, 0);
}
int unlinkat(int d, const char *path, int fl) {
  char p[PATH_MAX];
  if (active() && resolve(d, path, p) == 0) ask((fl & AT_REMOVEDIR) ? "rmdir" : "unlink", p, "", 0);
  return syscall(SYS_unlinkat, d, path, fl);
}
int rename(const char *a, const char *b) {
  char p[PATH_MAX], q[PATH_MAX];
  if (active() && resolve(AT_FDCWD, b, q) == 0) { if (resolve(AT_FDCWD, a, p)) strcpy(p, "?"); ask("rename", q, p, 0); }
  return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
}
int renameat(int da, const char *a, int db, const char *b) {
  char p[PATH_MAX], q[PATH_MAX];
  if (active() && resolve(db, b, q) == 0) { if (resolve(da, a, p)) strcpy(p, "?"); ask("rename", q, p, 0); }
  return syscall(SYS_renameat, da, a, db, b);
}
int link(const char *a, const char *b) {
  char q[PATH_MAX];
  if (active() && resolve(AT_FDCWD, b, q) == 0) ask("link", q, a, 0);
  return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
}
DIR *opendir(const char *path) {
  REAL(DIR *, opendir, const char *);
  char p[PATH_MAX];
  if (active() && resolve(AT_FDCWD, path, p) == 0) { ask("opendir", p, "", 0); }
  return real(path);
}
int stat(const char *path, struct stat *st) {
  char p[PATH_MAX];
  if (active() && resolve(AT_FDCWD, path, p) == 0) ask("stat", p, "", 0);
  REAL(int, stat, const char *, struct stat *);
  if (real) return real(path, st);
  return syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}
int stat64(const char *path, struct stat64 *st) {
  char p[PATH_MAX];
  if (active() && resolve(AT_FDCWD, path, p) == 0) ask("stat", p, "", 0);
  return syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}
/* the pre-2.33 glibc entry point, which older binaries call */
int __xstat64(int v, const char *path, struct stat64 *st) {
  char p[PATH_MAX];
  if (active() && resolve(AT_FDCWD, path, p) == 0) ask("stat", p, "", 0);
  return syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}
int __xstat(int v, const char *path, struct stat *st) {
  char p[PATH_MAX];
  if (active() && resolve(AT_FDCWD, path, p) == 0) ask("stat", p, "", 0);
  return syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}
