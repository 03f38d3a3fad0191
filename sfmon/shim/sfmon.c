/* sfmon: LD_PRELOAD runtime monitor for the silverfox binary.
 *
 *  SFMON_NOW   = seconds since the epoch: the wall clock the process sees
 *  SFMON_JUMP  = "<n>:<s>": from the n-th look at the wall clock on it is <s> seconds later (never if n is 0)
 *  SFMON_COLS  = pretend stdout is a terminal that many columns wide
 *  SFMON_LOG   = file descriptor number: append one line per file-system event
 *  SFMON_FAULT = "<kind>:<n>[:<arg>]": at the n-th (1-based) mutating event
 *                  kill    die (SIGKILL) before the call takes effect
 *                  killaft die right after the call took effect
 *                  part    write only <arg> bytes of it, then die
 *                  enospc  write only <arg> bytes, later writes fail with ENOSPC
 *                  short   transfer only <arg> bytes this once (legal short write)
 *                  eintr   fail this once with EINTR
 *                  fail    fail this call with errno <arg>
 *                  failopen  fail the n-th open-for-writing with errno <arg>
 *                  failopenr fail the n-th open-for-reading of a user's file with errno <arg>
 *                  failread  fail the n-th read of a user's file with errno <arg>
 *                  shortread the n-th read of a user's file gives at most <arg> bytes
 *                  outfail   the n-th write to standard output and all later ones fail with errno <arg>
 *                  outpart   the n-th write to standard output transfers <arg> bytes, all later ones fail with ENOSPC
 *                  outshort  the n-th write to standard output or standard error transfers at most <arg> bytes (legal)
 *                  outeintr  the n-th write to standard output or standard error is interrupted (EINTR)
 *                  outkill   die (SIGKILL) before the n-th write to standard output or standard error
 *                  outnone   nothing; writes to standard output and standard error are put into the log
 *                  stop    stop (SIGSTOP) before the n-th file operation of any kind on a user's file (reading included)
 *
 * "Mutating event" = a call that can change a file other than stdout/stderr
 * (write, open for writing, truncate, rename, unlink, ...).  Only events are
 * observed; no verdict is taken here.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int inited;
static long long fake_now = -1, jump_by;
static long jump_at, nclock;
static int jumps;
static int cols = 0;
static int logfd = -1;
enum { F_NONE, F_KILL, F_KILLAFT, F_PART, F_ENOSPC, F_SHORT, F_EINTR, F_FAIL, F_FAILOPEN, F_FAILOPENR, F_FAILREAD, F_SHORTREAD, F_OUTFAIL, F_OUTPART, F_OUTSHORT, F_OUTEINTR, F_OUTKILL, F_OUTNONE, F_STOP };
static int fkind = F_NONE;
static long fn = 0, farg = 0;
static long nop = 0, nmut = 0, nopen = 0, nopenr = 0, nread = 0;
static unsigned char userfd[1024];
static int full = 0;

static void init(void) {
  if (inited) return;
  inited = 1;
  const char *s;
  if ((s = getenv("SFMON_NOW"))) fake_now = atoll(s);
  if ((s = getenv("SFMON_JUMP")) && sscanf(s, "%ld:%lld", &jump_at, &jump_by) == 2) jumps = 1;
  if ((s = getenv("SFMON_COLS"))) cols = atoi(s);
  if ((s = getenv("SFMON_LOG"))) logfd = atoi(s);
  if ((s = getenv("SFMON_FAULT"))) {
    char k[32] = "";
    sscanf(s, "%31[a-z]:%ld:%ld", k, &fn, &farg);
    static const char *names[] = {"", "kill", "killaft", "part", "enospc", "short", "eintr", "fail", "failopen", "failopenr", "failread", "shortread", "outfail", "outpart", "outshort", "outeintr", "outkill", "outnone", "stop"};
    for (int i = 1; i <= F_STOP; i++)
      if (!strcmp(k, names[i])) fkind = i;
  }
}
static void lim(int what, rlim_t v) {
  struct rlimit l = {v, v};
  setrlimit(what, &l);
}
/* CPU time, not wall-clock time, decides what a hang is: a run normally takes milliseconds */
__attribute__((constructor)) static void ctor(void) {
  init();
  const char *s = getenv("SFMON_LIM");
  if (s) {
    lim(RLIMIT_CPU, 20);
    lim(RLIMIT_CORE, 0);
    lim(RLIMIT_FSIZE, 64L << 20);
    if (*s == '1') lim(RLIMIT_AS, 3L << 30);
  }
  if ((s = getenv("SFMON_STACK"))) lim(RLIMIT_STACK, atol(s) << 10);
}

static void die(void) {
  syscall(SYS_kill, (long)getpid(), (long)SIGKILL);
  for (;;) pause();
}
static void ev(const char *fmt, ...) {
  init();
  if (logfd < 0) return;
  char buf[1200];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  syscall(SYS_write, (long)logfd, buf, (long)n);
}

/* which environment variables are looked at */
extern char **environ;
char *getenv(const char *name) {
  size_t n = strlen(name);
  if (inited && strncmp(name, "SFMON_", 6)) ev("getenv %s", name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return NULL;
}

/* a point at which another process may come in between */
static void point(const char *what) {
  init();
  nop++;
  if (fkind == F_STOP && nop == fn) {
    ev("STOP before %s", what);
    syscall(SYS_kill, (long)getpid(), (long)SIGSTOP);
  }
}

/* --- clock ------------------------------------------------------------- */
int clock_gettime(clockid_t id, struct timespec *ts) {
  init();
  long r = syscall(SYS_clock_gettime, (long)id, ts);
  if (r == 0 && fake_now >= 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    nclock++;
    if (jumps) ev("clock");
    ts->tv_sec = fake_now + (jump_at && nclock >= jump_at ? jump_by : 0);
    ts->tv_nsec = 0;
  }
  return (int)r;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

/* --- terminal ---------------------------------------------------------- */
int isatty(int fd) {
  init();
  if (cols > 0 && fd == 1) return 1;
  struct { char b[256]; } t;
  return syscall(SYS_ioctl, (long)fd, (long)0x5401, &t) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
  init();
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (cols > 0 && fd == 1 && req == TIOCGWINSZ) {
    struct winsize *w = arg;
    memset(w, 0, sizeof *w);
    w->ws_row = 24;
    w->ws_col = (unsigned short)cols;
    return 0;
  }
  return (int)syscall(SYS_ioctl, (long)fd, (long)req, arg);
}

/* --- mutating events --------------------------------------------------- */
/* returns 1 when this event is the one to be faulted */
static int hit(void) {
  point("a change");
  nmut++;
  return fkind != F_NONE && fkind < F_FAILOPEN && nmut == fn;
}
static int is_report(int fd) { return fd == 1 || fd == 2 || fd == logfd; }

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, (long)fd, b, (long)n); }

static long nout = 0;
static int outbad = 0;
static ssize_t report_write(int fd, const void *b, size_t n) {
  init();
  if (fd == logfd || fkind < F_OUTFAIL || fkind > F_OUTNONE) return raw_write(fd, b, n);
  nout++;
  int here = nout == fn;
  if (here && fkind == F_OUTKILL) { ev("KILL before output %d %zu", fd, n); die(); }
  if (here && fkind == F_OUTEINTR) { ev("output %d %zu EINTR", fd, n); errno = EINTR; return -1; }
  if (here && fkind == F_OUTSHORT) {
    size_t k = (size_t)farg < n ? (size_t)farg : n;
    if (k == 0 && n > 0) k = 1;
    ev("output %d %zu short %zu", fd, n, k);
    return raw_write(fd, b, k);
  }
  if (fd == 1 && (outbad || (here && fkind == F_OUTFAIL))) {
    outbad = 1;
    errno = fkind == F_OUTFAIL ? (int)farg : ENOSPC;
    int e = errno;
    ev("output %d %zu errno %d", fd, n, e);
    errno = e;
    return -1;
  }
  if (here && fd == 1 && fkind == F_OUTPART) {
    size_t k = (size_t)farg < n ? (size_t)farg : n;
    outbad = 1;
    ev("output %d %zu part %zu", fd, n, k);
    if (k == 0 && n > 0) { errno = ENOSPC; return -1; }
    return raw_write(fd, b, k);
  }
  ev("output %d %zu", fd, n);
  return raw_write(fd, b, n);
}
static ssize_t do_write(int fd, const void *b, size_t n) {
  if (is_report(fd)) return report_write(fd, b, n);
  if (full) { ev("write %d %zu ENOSPC", fd, n); errno = ENOSPC; return -1; }
  if (hit()) {
    size_t k = (size_t)farg < n ? (size_t)farg : n;
    switch (fkind) {
    case F_KILL: ev("KILL before write %d %zu", fd, n); die();
    case F_PART: raw_write(fd, b, k); ev("KILL in write %d %zu after %zu", fd, n, k); die();
    case F_KILLAFT: raw_write(fd, b, n); ev("KILL after write %d %zu", fd, n); die();
    case F_ENOSPC:
      full = 1;
      ev("write %d %zu ENOSPC after %zu", fd, n, k);
      if (k > 0) return raw_write(fd, b, k);
      errno = ENOSPC;
      return -1;
    case F_SHORT:
      if (k == 0) k = 1;
      ev("write %d %zu short %zu", fd, n, k);
      return raw_write(fd, b, k);
    case F_EINTR: ev("write %d %zu EINTR", fd, n); errno = EINTR; return -1;
    case F_FAIL: ev("write %d %zu errno %ld", fd, n, farg); errno = (int)farg; return -1;
    }
  }
  ssize_t r = raw_write(fd, b, n);
  ev("write %d %zu -> %zd", fd, n, r);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  init();
  if (is_report(fd) && (fkind < F_OUTFAIL || fkind > F_OUTNONE)) return syscall(SYS_writev, (long)fd, v, (long)c);
  size_t tot = 0;
  for (int i = 0; i < c; i++) tot += v[i].iov_len;
  char *b = malloc(tot ? tot : 1);
  size_t o = 0;
  for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  ssize_t r = do_write(fd, b, tot);
  int e = errno;
  free(b);
  errno = e;
  return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) {
  if (hit()) {
    if (fkind == F_KILL || fkind == F_PART) die();
    if (fkind == F_KILLAFT) { syscall(SYS_pwrite64, (long)fd, b, (long)n, (long)off); die(); }
    if (fkind == F_EINTR) { errno = EINTR; return -1; }
    if (fkind == F_FAIL || fkind == F_ENOSPC) { errno = fkind == F_FAIL ? (int)farg : ENOSPC; return -1; }
  }
  ev("pwrite %d %zu @%lld", fd, n, (long long)off);
  return syscall(SYS_pwrite64, (long)fd, b, (long)n, (long)off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return pwrite64(fd, b, n, off); }

static int gate(const char *what) {
  /* for non-write mutators: returns -1 with errno set when the call must fail, 1 = die afterwards */
  ev("%s", what);
  if (!hit()) return 0;
  switch (fkind) {
  case F_KILL: case F_PART: die();
  case F_KILLAFT: return 1;
  case F_EINTR: errno = EINTR; return -1;
  case F_ENOSPC: full = 1; errno = ENOSPC; return -1;
  case F_FAIL: errno = (int)farg; return -1;
  }
  return 0;
}
/* not a system file (time zones, /proc, ...) */
static int users_file(const char *p) {
  static const char *sys[] = {"/usr/", "/etc/", "/proc/", "/sys/", "/lib", "/dev/null", "/dev/urandom", "/dev/tty"};
  for (unsigned i = 0; i < sizeof sys / sizeof *sys; i++)
    if (!strncmp(p, sys[i], strlen(sys[i]))) return 0;
  return 1;
}
ssize_t read(int fd, void *b, size_t n) {
  init();
  if (fd >= 0 && fd < 1024 && userfd[fd] && n > 0) {
    point("read");
    nread++;
    if (fkind == F_FAILREAD && nread == fn) { ev("read-r %d errno %ld", fd, farg); errno = (int)farg; return -1; }
    if (fkind == F_SHORTREAD && nread == fn) { if ((size_t)farg < n) n = farg > 0 ? (size_t)farg : 1; ev("read-r %d short %zu", fd, n); }
    else ev("read-r %d", fd);
  }
  return syscall(SYS_read, (long)fd, b, (long)n);
}
static int do_open(int dfd, const char *p, int flags, mode_t mode) {
  init();
  int acc = flags & O_ACCMODE, w = acc == O_WRONLY || acc == O_RDWR || (flags & (O_CREAT | O_TRUNC));
  if (w) {
    char what[1100];
    snprintf(what, sizeof what, "open-w %s flags=%s%s%s%s", p, flags & O_APPEND ? "A" : "", flags & O_TRUNC ? "T" : "",
             flags & O_CREAT ? "C" : "", flags & O_EXCL ? "X" : "");
    nopen++;
    if (fkind == F_FAILOPEN && nopen == fn) { ev("open-w %s errno %ld", p, farg); errno = (int)farg; return -1; }
    int g = gate(what);
    if (g < 0) return -1;
    int r = (int)syscall(SYS_openat, (long)dfd, p, (long)flags, (long)mode);
    if (g == 1) die();
    if (r >= 0 && r < 1024) userfd[r] = acc == O_RDWR;
    return r;
  }
  int user = users_file(p) && !(flags & O_DIRECTORY);
  if (user) {
    point("open");
    nopenr++;
    if (fkind == F_FAILOPENR && nopenr == fn) { ev("open-r %s errno %ld", p, farg); errno = (int)farg; return -1; }
  }
  int r = (int)syscall(SYS_openat, (long)dfd, p, (long)flags, (long)mode);
  int e = errno;
  ev("open-r %s -> %d", p, r < 0 ? -e : 0);
  if (r >= 0 && r < 1024) userfd[r] = (unsigned char)user;
  errno = e;
  return r;
}
#define OPENBODY(dfd) \
  mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
  return do_open(dfd, p, flags, m);
int open(const char *p, int flags, ...) { OPENBODY(AT_FDCWD) }
int open64(const char *p, int flags, ...) { OPENBODY(AT_FDCWD) }
int openat(int d, const char *p, int flags, ...) { OPENBODY(d) }
int openat64(int d, const char *p, int flags, ...) { OPENBODY(d) }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define GATED(desc, call) do { \
  char w_[1100]; snprintf(w_, sizeof w_, desc); \
  int g_ = gate(w_); if (g_ < 0) return -1; \
  int r_ = (int)(call); if (g_ == 1) die(); return r_; } while (0)
#define D(...) __VA_ARGS__
int ftruncate64(int fd, off64_t l) { GATED(D("ftruncate %d %lld", fd, (long long)l), syscall(SYS_ftruncate, (long)fd, (long)l)); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int truncate64(const char *p, off64_t l) { GATED(D("truncate %s %lld", p, (long long)l), syscall(SYS_truncate, p, (long)l)); }
int truncate(const char *p, off_t l) { return truncate64(p, l); }
int rename(const char *a, const char *b) { GATED(D("rename %s %s", a, b), syscall(SYS_rename, a, b)); }
int renameat(int d, const char *a, int e, const char *b) { GATED(D("renameat %s %s", a, b), syscall(SYS_renameat2, (long)d, a, (long)e, b, 0L)); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { GATED(D("renameat2 %s %s", a, b), syscall(SYS_renameat2, (long)d, a, (long)e, b, (long)f)); }
int unlink(const char *p) { GATED(D("unlink %s", p), syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { GATED(D("unlinkat %s", p), syscall(SYS_unlinkat, (long)d, p, (long)f)); }
int mkdir(const char *p, mode_t m) { GATED(D("mkdir %s", p), syscall(SYS_mkdir, p, (long)m)); }
int rmdir(const char *p) { GATED(D("rmdir %s", p), syscall(SYS_rmdir, p)); }
int link(const char *a, const char *b) { GATED(D("link %s %s", a, b), syscall(SYS_link, a, b)); }
int symlink(const char *a, const char *b) { GATED(D("symlink %s %s", a, b), syscall(SYS_symlink, a, b)); }
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  int g = gate("copy_file_range");
  if (g < 0) return -1;
  ssize_t r = syscall(SYS_copy_file_range, (long)a, ao, (long)b, bo, (long)n, (long)f);
  if (g == 1) die();
  return r;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (is_report(o)) return syscall(SYS_sendfile, (long)o, (long)i, off, (long)n);
  int g = gate("sendfile");
  if (g < 0) return -1;
  ssize_t r = syscall(SYS_sendfile, (long)o, (long)i, off, (long)n);
  if (g == 1) die();
  return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
