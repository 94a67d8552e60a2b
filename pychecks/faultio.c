// Preloaded into the program under test: numbers the I/O calls it makes on
// files below $MC_FAULT_DIR, logs them, and makes the chosen ones fail.
//   MC_FAULT_LOG  file the calls are logged to: "index op result path"
//   MC_FAULTS     "index:what,...": what is e<errno> (fail), s<n> (transfer at
//                 most n bytes), or a<errno> (this and all later calls of the
//                 same operation fail)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { kMax = 1024, kOps = 64 };
static const char* path_of[kMax];
static int next_index, log_fd = -1, ready;
static struct { int at, op; char kind; long v; } fault[kOps];
static int n_faults;
static char dir[4096];
static const char* all_op;
static int all_errno;

static void setup(void) {
  if (ready) return;
  ready = 1;
  const char* d = getenv("MC_FAULT_DIR");
  if (d) strncpy(dir, d, sizeof dir - 1);
  const char* l = getenv("MC_FAULT_LOG");
  if (l) log_fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  const char* f = getenv("MC_FAULTS");
  while (f && *f && n_faults < kOps) {
    char* e;
    fault[n_faults].at = strtol(f, &e, 10);
    fault[n_faults].kind = e[1];
    fault[n_faults].v = strtol(e + 2, &e, 10);
    n_faults++;
    f = *e == ',' ? e + 1 : e;
  }
}
static int below(const char* p) {
  setup();
  if (!dir[0] || !p) return 0;
  char full[8192];
  if (p[0] == '/') {
    snprintf(full, sizeof full, "%s", p);
  } else {
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    snprintf(full, sizeof full, "%s/%s", cwd, p);
  }
  return !strncmp(full, dir, strlen(dir));
}
static int mine(int fd) { return fd >= 0 && fd < kMax && path_of[fd]; }
static void say(int i, const char* op, long r, const char* path) {
  if (log_fd < 0) return;
  char b[4200];
  int n = snprintf(b, sizeof b, "%d %s %ld %s\n", i, op, r, path ? path : "?");
  syscall(SYS_write, log_fd, b, n);
}
// 1: fail with errno set; 2: limit *n.
static int plan(int i, const char* op, size_t* n) {
  if (all_op && !strcmp(all_op, op)) {
    errno = all_errno;
    return 1;
  }
  for (int k = 0; k < n_faults; k++) {
    if (fault[k].at != i) continue;
    if (fault[k].kind == 's') {
      if (n && (size_t)fault[k].v < *n) *n = fault[k].v;
      return 2;
    }
    if (fault[k].kind == 'a') all_op = op, all_errno = fault[k].v;
    errno = fault[k].v;
    return 1;
  }
  return 0;
}
#define REAL(name) \
  static __typeof__(&name) real; \
  if (!real) real = (__typeof__(real))dlsym(RTLD_NEXT, #name)

static void track(int fd, const char* p) {
  if (fd >= 0 && fd < kMax) path_of[fd] = strdup(p);
}

#define FOPEN(name) \
  FILE* name(const char* p, const char* m) { \
    REAL(name); \
    if (!below(p)) return real(p, m); \
    int i = next_index++; \
    int w = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'); \
    const char* op = w ? "create" : "open"; \
    if (plan(i, op, 0) == 1) { say(i, op, -1, p); return 0; } \
    FILE* f = real(p, m); \
    int e = errno; \
    say(i, op, f ? 0 : -1, p); \
    if (f) track(fileno(f), p); \
    errno = e; \
    return f; \
  }
FOPEN(fopen)
FOPEN(fopen64)

#define OPEN(name, first, pass) \
  int name(first const char* p, int fl, ...) { \
    REAL(name); \
    int mode = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { \
      va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); \
    } \
    if (!below(p)) return real(pass p, fl, mode); \
    int i = next_index++; \
    const char* op = (fl & O_ACCMODE) == O_RDONLY ? "open" : "create"; \
    if (plan(i, op, 0) == 1) { say(i, op, -1, p); return -1; } \
    int fd = real(pass p, fl, mode); \
    int e = errno; \
    say(i, op, fd < 0 ? -1 : 0, p); \
    track(fd, p); \
    errno = e; \
    return fd; \
  }
#define NONE
#define ATDIR int at,
#define AT at,
OPEN(open, NONE, NONE)
OPEN(open64, NONE, NONE)
OPEN(openat, ATDIR, AT)
OPEN(openat64, ATDIR, AT)

ssize_t read(int fd, void* b, size_t n) {
  REAL(read);
  if (!mine(fd)) return real(fd, b, n);
  int i = next_index++;
  if (plan(i, "read", &n) == 1) { say(i, "read", -1, path_of[fd]); return -1; }
  ssize_t r = real(fd, b, n);
  int e = errno;
  say(i, "read", r, path_of[fd]);
  errno = e;
  return r;
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  REAL(readv);
  if (!mine(fd)) return real(fd, v, c);
  int i = next_index++;
  size_t n = 0;
  for (int k = 0; k < c; k++) n += v[k].iov_len;
  size_t all = n;
  int p = plan(i, "read", &n);
  if (p == 1) { say(i, "read", -1, path_of[fd]); return -1; }
  ssize_t r;
  if (p == 2 && n < all) {
    struct iovec w = v[0];
    if (w.iov_len > n) w.iov_len = n;
    r = real(fd, &w, 1);
  } else {
    r = real(fd, v, c);
  }
  int e = errno;
  say(i, "read", r, path_of[fd]);
  errno = e;
  return r;
}
ssize_t write(int fd, const void* b, size_t n) {
  REAL(write);
  if (!mine(fd)) return real(fd, b, n);
  int i = next_index++;
  if (plan(i, "write", &n) == 1) { say(i, "write", -1, path_of[fd]); return -1; }
  ssize_t r = real(fd, b, n);
  int e = errno;
  say(i, "write", r, path_of[fd]);
  errno = e;
  return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL(writev);
  if (!mine(fd)) return real(fd, v, c);
  int i = next_index++;
  size_t n = 0;
  for (int k = 0; k < c; k++) n += v[k].iov_len;
  size_t all = n;
  int p = plan(i, "write", &n);
  if (p == 1) { say(i, "write", -1, path_of[fd]); return -1; }
  ssize_t r;
  if (p == 2 && n < all) {
    struct iovec w[16];
    int k = 0;
    size_t left = n;
    for (; k < c && k < 16 && left; k++) {
      w[k] = v[k];
      if (w[k].iov_len > left) w[k].iov_len = left;
      left -= w[k].iov_len;
    }
    r = real(fd, w, k);
  } else {
    r = real(fd, v, c);
  }
  int e = errno;
  say(i, "write", r, path_of[fd]);
  errno = e;
  return r;
}
size_t fread(void* b, size_t s, size_t c, FILE* f) {
  REAL(fread);
  int fd = f ? fileno(f) : -1;
  if (!mine(fd)) return real(b, s, c, f);
  int i = next_index++;
  size_t n = s * c;
  if (plan(i, "read", &n) == 1) { say(i, "read", -1, path_of[fd]); f->_flags |= 0x20; return 0; }
  size_t r = real(b, s, s ? n / s : 0, f);
  say(i, "read", r * s, path_of[fd]);
  return r;
}
size_t fwrite(const void* b, size_t s, size_t c, FILE* f) {
  REAL(fwrite);
  int fd = f ? fileno(f) : -1;
  if (!mine(fd)) return real(b, s, c, f);
  int i = next_index++;
  size_t n = s * c;
  if (plan(i, "write", &n) == 1) { say(i, "write", -1, path_of[fd]); f->_flags |= 0x20; return 0; }
  size_t r = real(b, s, s ? n / s : 0, f);
  say(i, "write", r * s, path_of[fd]);
  return r;
}
int fflush(FILE* f) {
  REAL(fflush);
  int fd = f ? fileno(f) : -1;
  if (!mine(fd)) return real(f);
  int i = next_index++;
  if (plan(i, "flush", 0) == 1) { say(i, "flush", -1, path_of[fd]); return EOF; }
  int r = real(f);
  say(i, "flush", r, path_of[fd]);
  return r;
}
int fclose(FILE* f) {
  REAL(fclose);
  int fd = f ? fileno(f) : -1;
  if (!mine(fd)) return real(f);
  int i = next_index++;
  const char* p = path_of[fd];
  path_of[fd] = 0;
  int want = plan(i, "close", 0), e = errno;
  int r = real(f);
  if (want == 1) { r = EOF; errno = e; }
  say(i, "close", r, p);
  if (want == 1) errno = e;
  return r;
}
int close(int fd) {
  REAL(close);
  if (!mine(fd)) return real(fd);
  int i = next_index++;
  const char* p = path_of[fd];
  path_of[fd] = 0;
  int want = plan(i, "close", 0), e = errno;
  int r = real(fd);
  if (want == 1) { r = -1; errno = e; }
  say(i, "close", r, p);
  if (want == 1) errno = e;
  return r;
}
#define SEEK(name, type) \
  type name(int fd, type o, int w) { \
    REAL(name); \
    if (!mine(fd)) return real(fd, o, w); \
    int i = next_index++; \
    if (plan(i, "seek", 0) == 1) { say(i, "seek", -1, path_of[fd]); return -1; } \
    type r = real(fd, o, w); \
    say(i, "seek", (long)r, path_of[fd]); \
    return r; \
  }
SEEK(lseek, off_t)
SEEK(lseek64, off64_t)
int fsync(int fd) {
  REAL(fsync);
  if (!mine(fd)) return real(fd);
  int i = next_index++;
  if (plan(i, "sync", 0) == 1) { say(i, "sync", -1, path_of[fd]); return -1; }
  int r = real(fd);
  say(i, "sync", r, path_of[fd]);
  return r;
}
int rename(const char* a, const char* b) {
  REAL(rename);
  if (!below(a) && !below(b)) return real(a, b);
  int i = next_index++;
  if (plan(i, "rename", 0) == 1) { say(i, "rename", -1, b); return -1; }
  int r = real(a, b), e = errno;
  say(i, "rename", r, b);
  errno = e;
  return r;
}
