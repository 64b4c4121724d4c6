/* LD_PRELOAD shim: counts the changes made to files below a directory and, when armed, ends the process
   (or raises a signal in it) at the k-th one, optionally after only part of a write has reached the file. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static size_t plen;
static volatile long count, target;
static int armed, num, den, sig;
static char watched[65536];
static char logbuf[1 << 20];
static size_t loglen;

void cs_arm(const char *p, long k, int n, int d, int s) {
  strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix);
  count = 0; target = k; num = n; den = d; sig = s; armed = 1; loglen = 0; logbuf[0] = 0;
}
void cs_disarm(void) { armed = 0; }
long cs_count(void) { return count; }
const char *cs_log(void) { return logbuf; }

static int below(const char *path) {
  char b[PATH_MAX];
  if (!armed || !path) return 0;
  if (path[0] != '/') {
    if (!getcwd(b, sizeof b)) return 0;
    size_t l = strlen(b);
    snprintf(b + l, sizeof b - l, "/%s", path);
    path = b;
  }
  return !strncmp(path, prefix, plen);
}
static const char *base(const char *p) { const char *s = p ? strrchr(p, '/') : 0; return s ? s + 1 : (p ? p : "?"); }

/* returns 1 when this event must be torn */
static int event(const char *what, const char *path) {
  if (!armed) return 0;
  ++count;
  int n = snprintf(logbuf + loglen, sizeof logbuf - loglen, "%s %s\n", what, base(path));
  if (n > 0 && loglen + n < sizeof logbuf - 1) loglen += n;
  if (count != target) return 0;
  if (sig) { armed = 0; raise(sig); return 0; }
  if (num == 0) _exit(99);
  return 1;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int opening(const char *path, int flags) {
  if (below(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) {
    struct stat st;
    if ((flags & O_TRUNC) || ((flags & O_CREAT) && stat(path, &st))) event("open", path);
    return 1;
  }
  return 0;
}
static int opened(int w, int fd) { if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = w; return fd; }
#define MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE REAL(int, open, const char *, int, ...); int w = opening(p, flags); return opened(w, real(p, flags, mode)); }
int open64(const char *p, int flags, ...) { MODE REAL(int, open64, const char *, int, ...); int w = opening(p, flags); return opened(w, real(p, flags, mode)); }
int openat(int d, const char *p, int flags, ...) { MODE REAL(int, openat, int, const char *, int, ...); int w = opening(p, flags); return opened(w, real(d, p, flags, mode)); }
int openat64(int d, const char *p, int flags, ...) { MODE REAL(int, openat64, int, const char *, int, ...); int w = opening(p, flags); return opened(w, real(d, p, flags, mode)); }
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); if ((m[0] != 'r' || strchr(m, '+')) && below(p)) event("fopen", p); return real(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); if ((m[0] != 'r' || strchr(m, '+')) && below(p)) event("fopen", p); return real(p, m); }
int close(int fd) { REAL(int, close, int); if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = 0; return real(fd); }
#define W(fd) (armed && fd >= 0 && fd < (int)sizeof watched && watched[fd])
#define PART(n) ((size_t)((double)(n) * num / den))
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); if (W(fd) && n && event("write", "")) { real(fd, b, PART(n)); _exit(99); } return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); if (W(fd) && n && event("write", "")) { real(fd, b, PART(n), o); _exit(99); } return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); if (W(fd) && n && event("write", "")) { real(fd, b, PART(n), o); _exit(99); } return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, writev, int, const struct iovec *, int); if (W(fd) && event("write", "")) _exit(99); return real(fd, v, c); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { REAL(ssize_t, sendfile, int, int, off_t *, size_t); if (W(o) && event("sendfile", "")) { struct stat st; fstat(i, &st); real(o, i, p, PART(st.st_size)); _exit(99); } return real(o, i, p, n); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); if (W(o) && event("sendfile", "")) { struct stat st; fstat(i, &st); real(o, i, p, PART(st.st_size)); _exit(99); } return real(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); if (W(o) && event("sendfile", "")) { struct stat st; fstat(i, &st); real(i, a, o, b, PART(st.st_size), f); _exit(99); } return real(i, a, o, b, n, f); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); if (W(fd) && event("ftruncate", "")) _exit(99); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); if (W(fd) && event("ftruncate", "")) _exit(99); return real(fd, n); }
int truncate(const char *p, off_t n) { REAL(int, truncate, const char *, off_t); if (below(p) && event("truncate", p)) _exit(99); return real(p, n); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if ((below(a) || below(b)) && event("rename", b)) _exit(99); return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if ((below(a) || below(b)) && event("rename", b)) _exit(99); return real(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); if ((below(a) || below(b)) && event("rename", b)) _exit(99); return real(d, a, e, b, f); }
int unlink(const char *p) { REAL(int, unlink, const char *); if (below(p) && event("unlink", p)) _exit(99); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); if (armed && (d != AT_FDCWD || below(p)) && event("unlink", p)) _exit(99); return real(d, p, f); }
int rmdir(const char *p) { REAL(int, rmdir, const char *); if (below(p) && event("rmdir", p)) _exit(99); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); struct stat st; if (below(p) && stat(p, &st) && event("mkdir", p)) _exit(99); return real(p, m); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); if (below(b) && event("link", b)) _exit(99); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); if (below(b) && event("symlink", b)) _exit(99); return real(a, b); }
