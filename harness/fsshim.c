// LD_PRELOAD shim: counts file system modifications below FSSHIM_PREFIX and
// ends the process at (mode kill) or fails (mode fail) the FSSHIM_AT'th one.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static unsigned long counter = 0, at = 0;
static int mode = -1; // 0 count, 1 kill, 2 fail
static char prefix[PATH_MAX];
static size_t plen;
static const char *count_file;
static unsigned char tracked[65536];

static void dump_count(void) {
  if (!count_file) return;
  char b[32];
  int n = snprintf(b, sizeof b, "%lu\n", counter);
  int (*ropen)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
  ssize_t (*rwrite)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  int fd = ropen(count_file, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { ssize_t r = rwrite(fd, b, n); (void)r; close(fd); }
}
static void init(void) {
  if (mode >= 0) return;
  const char *m = getenv("FSSHIM_MODE"), *p = getenv("FSSHIM_PREFIX"), *a = getenv("FSSHIM_AT");
  count_file = getenv("FSSHIM_COUNT");
  if (!m || !p) { mode = 0; plen = 0; prefix[0] = 1; plen = 1; return; }
  strncpy(prefix, p, sizeof prefix - 1);
  plen = strlen(prefix);
  at = a ? strtoul(a, 0, 10) : 0;
  mode = !strcmp(m, "kill") ? 1 : !strcmp(m, "fail") ? 2 : 0;
  atexit(dump_count);
}
static int under(const char *p) { return p && strncmp(p, prefix, plen) == 0; }
static int under_at(int dfd, const char *p) {
  if (!p) return 0;
  if (p[0] == '/' || dfd == AT_FDCWD) return under(p);
  return dfd >= 0 && dfd < 65536 && tracked[dfd];
}
static int hit(void) { // 1: the operation has to fail
  pthread_mutex_lock(&mu);
  counter++;
  int me = mode && counter == at;
  if (me && mode == 1) { dump_count(); _exit(77); }
  pthread_mutex_unlock(&mu);
  if (me) { errno = EIO; return 1; }
  return 0;
}
static int wr(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
static void track(int fd, int t) { if (fd >= 0 && fd < 65536) tracked[fd] = t; }

#define OPEN(NAME) \
int NAME(const char *path, int flags, ...) { \
  init(); mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
  int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, #NAME); \
  int u = under(path); \
  if (u && wr(flags) && hit()) return -1; \
  int fd = real(path, flags, m); track(fd, u); return fd; }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
int NAME(int dfd, const char *path, int flags, ...) { \
  init(); mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
  int (*real)(int, const char *, int, ...) = dlsym(RTLD_NEXT, #NAME); \
  int u = under_at(dfd, path); \
  if (u && wr(flags) && hit()) return -1; \
  int fd = real(dfd, path, flags, m); track(fd, u); return fd; }
OPENAT(openat)
OPENAT(openat64)
int close(int fd) { int (*real)(int) = dlsym(RTLD_NEXT, "close"); track(fd, 0); return real(fd); }
ssize_t write(int fd, const void *b, size_t n) {
  ssize_t (*real)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  if (fd >= 0 && fd < 65536 && tracked[fd]) {
    // a crash in the middle of a write leaves a part of the data
    if (mode == 1 && counter + 1 == at && n > 1) { ssize_t r = real(fd, b, n / 2); (void)r; }
    if (hit()) return -1;
  }
  return real(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  ssize_t (*real)(int, const struct iovec *, int) = dlsym(RTLD_NEXT, "writev");
  if (fd >= 0 && fd < 65536 && tracked[fd] && hit()) return -1;
  return real(fd, v, c); }
#define PW(NAME, OFF) ssize_t NAME(int fd, const void *b, size_t n, OFF o) { \
  ssize_t (*real)(int, const void *, size_t, OFF) = dlsym(RTLD_NEXT, #NAME); \
  if (fd >= 0 && fd < 65536 && tracked[fd] && hit()) return -1; \
  return real(fd, b, n, o); }
PW(pwrite, off_t)
PW(pwrite64, off64_t)
#define TR(NAME, OFF) int NAME(int fd, OFF o) { \
  int (*real)(int, OFF) = dlsym(RTLD_NEXT, #NAME); \
  if (fd >= 0 && fd < 65536 && tracked[fd] && hit()) return -1; \
  return real(fd, o); }
TR(ftruncate, off_t)
TR(ftruncate64, off64_t)
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  ssize_t (*real)(int, off64_t *, int, off64_t *, size_t, unsigned) = dlsym(RTLD_NEXT, "copy_file_range");
  if (b >= 0 && b < 65536 && tracked[b] && hit()) return -1;
  return real(a, x, b, y, n, f); }
int rename(const char *a, const char *b) {
  init(); int (*real)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
  if ((under(a) || under(b)) && hit()) return -1;
  return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) {
  init(); int (*real)(int, const char *, int, const char *) = dlsym(RTLD_NEXT, "renameat");
  if ((under_at(x, a) || under_at(y, b)) && hit()) return -1;
  return real(x, a, y, b); }
int unlink(const char *a) {
  init(); int (*real)(const char *) = dlsym(RTLD_NEXT, "unlink");
  if (under(a) && hit()) return -1;
  return real(a); }
int unlinkat(int d, const char *a, int f) {
  init(); int (*real)(int, const char *, int) = dlsym(RTLD_NEXT, "unlinkat");
  if (under_at(d, a) && hit()) return -1;
  return real(d, a, f); }
int rmdir(const char *a) {
  init(); int (*real)(const char *) = dlsym(RTLD_NEXT, "rmdir");
  if (under(a) && hit()) return -1;
  return real(a); }
int mkdir(const char *a, mode_t m) {
  init(); int (*real)(const char *, mode_t) = dlsym(RTLD_NEXT, "mkdir");
  struct stat st;
  if (under(a) && stat(a, &st) != 0 && hit()) return -1;
  return real(a, m); }
