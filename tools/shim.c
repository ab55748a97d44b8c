// Preloaded into the repository's tools: every open, read, write and stat they make passes here, and the plan in
// SIMPLAN decides what it returns. One plan is one exactly repeatable execution (the tools are single threaded).
//   r@3=EIO   the 4th read of a tracked file fails        r*=short1   every read returns at most 1 byte
//   w@0=ENOSPC the 1st write to standard output fails     o@1=EACCES  the 2nd open of a tracked file fails
//   s@0=size0 the 1st stat of a tracked file reports size 0 (a file still growing)
//   r#900=EIO the read that would continue after the first 900 bytes read of tracked files fails (an earlier one stops there);
//   r@3=KILL  the process is killed at its 4th read (any class)
//   w#900=... likewise for standard output      u@0=EACCES the 1st removal of a tracked file fails
// What fired is appended to SIMLOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#define MAXR 256
static struct { char cls; int nth; int err; int lim; long off; } rule[MAXR]; static long total[256];
static int envon; static int nrule, logfd = -1, cnt[256]; static char track[8][256]; static int ntrack; static unsigned char tracked[1024];
static long raw(long n, long a, long b, long c, long d, long e) { long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8) : "rcx", "r11", "memory"); return r; }
static const struct { const char* n; int e; } E[] = {{"EINTR", EINTR}, {"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EPIPE", EPIPE}, {"EACCES", EACCES}, {"ENOENT", ENOENT}, {"EMFILE", EMFILE}, {"EISDIR", EISDIR}, {"EFBIG", EFBIG}, {"ESTALE", ESTALE}, {"EBUSY", EBUSY}, {"KILL", 4000}};
__attribute__((constructor)) static void init(void) {
  char* p = getenv("SIMPLAN"); char* l = getenv("SIMLOG"); char* t = getenv("SIMTRACK");
  if (l) { logfd = raw(SYS_openat, AT_FDCWD, (long)l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600, 0); if (logfd >= 0) { long hi = raw(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 900, 0, 0); if (hi >= 0) { raw(SYS_close, logfd, 0, 0, 0, 0); logfd = hi; } } }
  if (t) { char b[2048]; snprintf(b, sizeof b, "%s", t); char* sv; for (char* s = strtok_r(b, ":", &sv); s && ntrack < 8; s = strtok_r(0, ":", &sv)) snprintf(track[ntrack++], 256, "%s", s); }
  if (p) { char b[8192]; snprintf(b, sizeof b, "%s", p); char* sv;
    for (char* s = strtok_r(b, ";", &sv); s && nrule < MAXR; s = strtok_r(0, ";", &sv)) {
      char* eq = strchr(s, '='); if (!eq) continue; rule[nrule].cls = s[0]; rule[nrule].nth = s[1] == '*' ? -1 : s[1] == '#' ? -2 : atoi(s + 2); rule[nrule].off = s[1] == '#' ? atol(s + 2) : -1; rule[nrule].err = 0; rule[nrule].lim = 0; eq++;
      if (!strncmp(eq, "short", 5)) rule[nrule].lim = atoi(eq + 5); else if (!strncmp(eq, "size", 4)) rule[nrule].lim = 1 + atoi(eq + 4); else for (unsigned i = 0; i < sizeof E / sizeof *E; i++) if (!strcmp(E[i].n, eq)) rule[nrule].err = E[i].e;
      nrule++; } }
  envon = getenv("SIMENV") != 0; unsetenv("SIMENV"); unsetenv("LD_PRELOAD"); unsetenv("SIMPLAN"); unsetenv("SIMLOG");
}
// SIMENV=1: variables nobody set are there, with a harmless value
char* getenv(const char* n) {
  extern char** environ; size_t l = strlen(n); if (environ) for (char** e = environ; *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  static const char* const std[] = {"RUST", "LD_", "MALLOC", "GLIBC", "LIBC", "LANG", "LC_", "TZ", "TMP", "TEMP", "HOME", "PATH", "SIM", "PWD", "OLDPWD", "GCONV", "NLS", "POSIX", "LOCPATH", "CARGO", "COLUMNS", "LINES", "TERM", "NO_COLOR"};
  if (!envon) return 0; for (unsigned i = 0; i < sizeof std / sizeof *std; i++) if (!strncmp(n, std[i], strlen(std[i]))) return 0;
  return (char*)"1";
}
static int ask(char cls, int* lim) {   // error to return (0: none), limit
  int k = cnt[(int)cls]++; *lim = 0; int err = 0;
  for (int i = 0; i < nrule; i++) if (rule[i].cls == cls && (rule[i].nth == -1 || rule[i].nth == k || (rule[i].off >= 0 && total[(int)cls] == rule[i].off))) { if (rule[i].err) { err = rule[i].err; if (rule[i].off >= 0 && err == EINTR) rule[i].off = -1; } else *lim = rule[i].lim; }
  if ((err || *lim) && logfd >= 0) { char b[64]; const char* n = "short"; if (err) for (unsigned i = 0; i < sizeof E / sizeof *E; i++) if (E[i].e == err) n = E[i].n; int m = snprintf(b, sizeof b, "%c%d:%s\n", cls, k, n); raw(SYS_write, logfd, (long)b, m, 0, 0); }
  if (err == 4000) raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0), 9, 0, 0, 0);   // the process dies here
  return err;
}
static size_t upto(char cls, size_t n) { for (int i = 0; i < nrule; i++) if (rule[i].cls == cls && rule[i].off > total[(int)cls] && n > (size_t)(rule[i].off - total[(int)cls])) n = rule[i].off - total[(int)cls]; return n; }
static long adv(char cls, long r) { if (r > 0) total[(int)cls] += r; return r; }
static int is_tracked(const char* p) { for (int i = 0; i < ntrack; i++) if (strstr(p, track[i])) return 1; return 0; }
static long ret(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
static int doopen(int dir, const char* p, int fl, int mode) {
  int lim, t = is_tracked(p) && (fl & O_ACCMODE) == O_RDONLY; if (t) { int e = ask('o', &lim); if (e) { errno = e; return -1; } }
  long fd = raw(SYS_openat, dir, (long)p, fl, mode, 0); if (fd >= 0 && fd < 1024) tracked[fd] = t; return ret(fd);
}
#define MODE int m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char* p, int fl, ...) { MODE return doopen(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { MODE return doopen(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char* p, int fl, ...) { MODE return doopen(d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { MODE return doopen(d, p, fl | O_LARGEFILE, m); }
int close(int fd) { if (fd >= 0 && fd < 1024) tracked[fd] = 0; return ret(raw(SYS_close, fd, 0, 0, 0, 0)); }
static int isr(int fd) { return fd >= 0 && fd < 1024 && tracked[fd]; }
ssize_t read(int fd, void* b, size_t n) { int lim; if (isr(fd)) { int e = ask('r', &lim); if (e) { errno = e; return -1; } if (lim && n > (size_t)lim) n = lim; n = upto('r', n); return ret(adv('r', raw(SYS_read, fd, (long)b, n, 0, 0))); } return ret(raw(SYS_read, fd, (long)b, n, 0, 0)); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { int lim; if (isr(fd)) { int e = ask('r', &lim); if (e) { errno = e; return -1; } if (lim && n > (size_t)lim) n = lim; n = upto('r', n); return ret(adv('r', raw(SYS_pread64, fd, (long)b, n, o, 0))); } return ret(raw(SYS_pread64, fd, (long)b, n, o, 0)); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) { if (isr(fd) && c > 0) return read(fd, v[0].iov_base, v[0].iov_len); return ret(raw(SYS_readv, fd, (long)v, c, 0, 0)); }
ssize_t write(int fd, const void* b, size_t n) { int lim; if (fd == 1) { int e = ask('w', &lim); if (e) { errno = e; return -1; } if (lim && n > (size_t)lim) n = lim; n = upto('w', n); return ret(adv('w', raw(SYS_write, fd, (long)b, n, 0, 0))); } return ret(raw(SYS_write, fd, (long)b, n, 0, 0)); }
ssize_t writev(int fd, const struct iovec* v, int c) { if (fd == 1) { for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; } return ret(raw(SYS_writev, fd, (long)v, c, 0, 0)); }
int statx(int d, const char* p, int fl, unsigned mask, struct statx* s) {
  int lim = 0, t = (p && *p) ? is_tracked(p) : isr(d); long r = raw(SYS_statx, d, (long)p, fl, mask, (long)s);
  if (r == 0 && t) { ask('s', &lim); if (lim) s->stx_size = lim - 1; } return ret(r);
}
int unlink(const char* p) { int lim; if (is_tracked(p)) { int e = ask('u', &lim); if (e) { errno = e; return -1; } } return ret(raw(SYS_unlink, (long)p, 0, 0, 0, 0)); }
int unlinkat(int d, const char* p, int fl) { int lim; if (is_tracked(p)) { int e = ask('u', &lim); if (e) { errno = e; return -1; } } return ret(raw(SYS_unlinkat, d, (long)p, fl, 0, 0)); }
ssize_t copy_file_range(int a, off64_t* x, int b, off64_t* y, size_t n, unsigned f) { errno = EINVAL; return -1; }
ssize_t sendfile(int a, int b, off_t* o, size_t n) { errno = EINVAL; return -1; }
ssize_t sendfile64(int a, int b, off64_t* o, size_t n) { errno = EINVAL; return -1; }
ssize_t splice(int a, off64_t* x, int b, off64_t* y, size_t n, unsigned f) { errno = EINVAL; return -1; }
