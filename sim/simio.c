/* simio.c - the simulated disk, clock and entropy source (LD_PRELOAD).
 *
 * Every system call the process under test makes on a file below the armed root directory
 * passes through here.  The simulator decides, from an explicit plan, which call fails, is cut
 * short, is torn, or is the last one the process ever makes.  Outside the armed root, and when
 * the simulation is off, all calls pass straight through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <time.h>
#include <unistd.h>

enum { C_OPENR = 0, C_OPENW, C_READ, C_WRITE, C_TRUNC, C_CLOSE, C_RENAME, C_UNLINK, C_FSYNC, C_FLOCK, C_MKDIR, C_NCLASS };
enum { A_NONE = 0, A_ERR, A_SHORT, A_TORN_CRASH, A_CRASH_BEFORE, A_CRASH_AFTER, A_FLIP, A_QUOTA, A_NACTION };

#define MAXFD 4096
#define MAXFAULT 32
#define MAXLOG 200000
#define SUFLEN 96

struct fault { uint32_t mask; int nth; int action; int arg; int repeat; int seen; int fired; char suffix[SUFLEN]; };
struct logent { int32_t cls; int32_t fid; int64_t off; int64_t len; int64_t res; };

static char root[PATH_MAX]; static size_t rootlen = 0;
static int on = 0;            /* disk faults and log active */
static int nfault = 0;
static struct fault faults[MAXFAULT];
struct stats { long seqno; long counts[C_NCLASS]; long fired[C_NCLASS][A_NACTION]; long crashed; };
static struct stats local_stats; static struct stats *S = &local_stats;   /* moved to a shared page so that counts survive a crash */
static long quota = -1;
static short fdfile[MAXFD];   /* 0: not tracked, else file id + 1 */
static char *fnames[4096]; static int nfn = 0;
static struct logent *logbuf = NULL; static int nlog = 0;

/* clock + entropy */
static int clk_on = 0; static int64_t clk_ns = 0, clk_step_ns = 0, mono_ns = 0, slept_ns = 0; static long sleeps = 0;
static int rnd_on = 0; static uint64_t rnd_state = 0;
static int stdio_on = 0;      /* buffered I/O of the C library (numpy's own reading and writing) and file times from the simulated clock too */

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = NULL; if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int fid_of(const char *p) {
  for (int i = 0; i < nfn; i++) if (!strcmp(fnames[i], p)) return i;
  if (nfn >= 4096) return 4095;
  fnames[nfn] = strdup(p); return nfn++;
}
static const char *absp(const char *p, char *buf) {
  if (p == NULL) return NULL;
  if (p[0] == '/') return p;
  if (!getcwd(buf, PATH_MAX)) return p;
  size_t l = strlen(buf); if (l + strlen(p) + 2 > PATH_MAX) return p;
  buf[l] = '/'; strcpy(buf + l + 1, (p[0]=='.' && p[1]=='/') ? p + 2 : p); return buf;
}
static int tracked_path(const char *p, char *buf, const char **out) {
  if (!rootlen) return 0;
  const char *a = absp(p, buf); *out = a;
  return a && !strncmp(a, root, rootlen) && a[rootlen] == '/';
}
static void logit(int cls, int fid, int64_t off, int64_t len, int64_t res) {
  if (!on) return;
  if (!logbuf) logbuf = malloc(sizeof(struct logent) * MAXLOG);
  if (logbuf && nlog < MAXLOG) { struct logent *e = &logbuf[nlog++]; e->cls = cls; e->fid = fid; e->off = off; e->len = len; e->res = res; }
}
static int suffix_ok(const char *path, const char *suf) {
  if (*suf == '!') return !suffix_ok(path, suf + 1);
  if (*suf == '*') return strstr(path, suf + 1) != NULL;
  size_t a = strlen(path), b = strlen(suf);
  return b == 0 || (a >= b && !strcmp(path + a - b, suf));
}
/* ---- interleaving of simulated processes: hand control to the scheduler and wait for it to be given back ---- */
static int sched_fd = -1; static long sched_n = 0;
struct schedmsg { int64_t kind, cls, clk, wake; };
static void sched_point(int kind, int cls, int64_t wake) {
  if (sched_fd < 0) return;
  struct schedmsg m = { kind, cls, clk_ns, wake }; int64_t now = 0; char *p = (char *)&m; size_t n = sizeof m; int e = errno;
  while (n) { ssize_t r = syscall(SYS_write, sched_fd, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) _exit(139); p += r; n -= r; }
  p = (char *)&now; n = sizeof now;
  while (n) { ssize_t r = syscall(SYS_read, sched_fd, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) _exit(139); p += r; n -= r; }
  if (now > clk_ns) { mono_ns += now - clk_ns; clk_ns = now; }
  sched_n++; errno = e;
}
void simio_sched(int fd) { sched_fd = fd; }
int simio_sched_fd(void) { return sched_fd; }
void simio_yield(void) { sched_point(1, -1, 0); }
/* decide the fate of the current call */
static struct fault *decide(int cls, int fid) {
  struct fault *hit = NULL;
  if (!on) return NULL;
  sched_point(1, cls, 0);
  S->seqno++; S->counts[cls]++;
  for (int i = 0; i < nfault; i++) {
    struct fault *f = &faults[i];
    if (!(f->mask & (1u << cls))) continue;
    if (!suffix_ok(fnames[fid], f->suffix)) continue;
    int k = f->seen++;
    if (!hit && k >= f->nth && (f->repeat < 0 || k < f->nth + f->repeat)) hit = f;
  }
  if (hit) { hit->fired++; S->fired[cls][hit->action]++; }
  return hit;
}
static void die(void) { S->crashed++; _exit(137); }

/* ---- control interface (ctypes) ---- */
void simio_root(const char *p) { strncpy(root, p, PATH_MAX - 1); rootlen = strlen(root); }
void simio_on(int v) { on = v; }
void simio_reset(void) { nfault = 0; memset(S, 0, sizeof *S); quota = -1; nlog = 0; }
void simio_clear_faults(void) { nfault = 0; quota = -1; }
int simio_add_fault(uint32_t mask, int nth, int action, int arg, int repeat, const char *suffix) {
  if (nfault >= MAXFAULT) return -1;
  struct fault *f = &faults[nfault]; memset(f, 0, sizeof *f);
  f->mask = mask; f->nth = nth; f->action = action; f->arg = arg; f->repeat = repeat; strncpy(f->suffix, suffix ? suffix : "", SUFLEN - 1);
  return nfault++;
}
int simio_fault_fired(int i) { return (i >= 0 && i < nfault) ? faults[i].fired : 0; }
int simio_fault_seen(int i) { return (i >= 0 && i < nfault) ? faults[i].seen : 0; }
void simio_quota(long q) { quota = q; }
static struct stats *stk[16]; static int nstk = 0;
/* statistics of the next simulated process live in a shared page, so that they survive its crash */
int simio_push(void) {
  void *p = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED || nstk >= 16) return -1;
  memset(p, 0, sizeof *S); stk[nstk++] = S; S = p; return 0;
}
void simio_pop(void) { if (nstk > 0) { munmap(S, sizeof *S); S = stk[--nstk]; } }
void *simio_detach(void) { void *p = S; if (nstk > 0) S = stk[--nstk]; return p; }
void simio_attach(void *p) { stk[nstk++] = S; S = p; }
long simio_crashed(void) { return S->crashed; }
long simio_seq(void) { return S->seqno; }
long simio_count(int c) { return S->counts[c]; }
long simio_fired(int c, int a) { return S->fired[c][a]; }
int simio_nlog(void) { return nlog; }
void simio_log(int i, int64_t *out) { struct logent *e = &logbuf[i]; out[0] = e->cls; out[1] = e->fid; out[2] = e->off; out[3] = e->len; out[4] = e->res; }
const char *simio_fname(int i) { return fnames[i]; }
int simio_open_fds(const char *suffix) { int n = 0; for (int i = 0; i < MAXFD; i++) if (fdfile[i] && suffix_ok(fnames[fdfile[i]-1], suffix)) n++; return n; }
int simio_clock_pause(int p) { int was = clk_on; clk_on = !p; return was; }
void simio_clock(int v, int64_t start_ns, int64_t step_ns) { clk_on = v; clk_ns = start_ns; clk_step_ns = step_ns; if (v) { mono_ns = 1000000000LL; slept_ns = 0; sleeps = 0; } }
void simio_clock_jump(int64_t d) { clk_ns += d; }
int64_t simio_clock_now(void) { return clk_ns; }
int64_t simio_slept(void) { return slept_ns; }
long simio_sleeps(void) { return sleeps; }
void simio_rand(int v, uint64_t seed) { rnd_on = v; rnd_state = seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL; }

void simio_stdio(int v) { stdio_on = v; }

/* ---- files ---- */
/* with simio_stdio: files get their times from the simulated clock, with the granularity of a kernel tick */
static void stamp(int fd) {
  if (!stdio_on || !clk_on || !on) return;
  int64_t t = clk_ns - clk_ns % 4000000LL;
  struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = t / 1000000000LL; ts[0].tv_nsec = ts[1].tv_nsec = t % 1000000000LL;
  int e = errno; syscall(SYS_utimensat, fd, NULL, ts, 0); errno = e;
}
static int after_open(int fd, const char *a, int cls) {
  if (fd >= 0 && fd < MAXFD) { int id = fid_of(a); fdfile[fd] = id + 1; logit(cls, id, 0, 0, 0); }
  return fd;
}
static int do_open(int which, int dirfd, const char *path, int flags, mode_t mode) {
  REAL(int, open64, const char *, int, ...); REAL(int, openat64, int, const char *, int, ...);
  char buf[PATH_MAX]; const char *a = NULL;
  int t = (which == 0 || dirfd == AT_FDCWD) && !(flags & O_DIRECTORY) && tracked_path(path, buf, &a);
  int cls = ((flags & O_ACCMODE) == O_RDONLY) ? C_OPENR : C_OPENW;
  struct fault *f = NULL; char keep[PATH_MAX];
  if (t) {
    strncpy(keep, a, PATH_MAX - 1); keep[PATH_MAX - 1] = 0; a = keep;
    f = decide(cls, fid_of(a));
    if (f) {
      if (f->action == A_ERR) { logit(cls, fid_of(a), 0, 0, -f->arg); errno = f->arg; return -1; }
      if (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH) die();
    }
  }
  int fd = which ? real_openat64(dirfd, path, flags, mode) : real_open64(path, flags, mode);
  if (t) { after_open(fd, a, cls); if (fd >= 0 && (flags & O_TRUNC)) stamp(fd); if (f && f->action == A_CRASH_AFTER) die(); }
  return fd;
}
#define MODEARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open64(const char *p, int flags, ...) { MODEARG return do_open(0, 0, p, flags, mode); }
int open(const char *p, int flags, ...) { MODEARG return do_open(0, 0, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODEARG return do_open(1, d, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODEARG return do_open(1, d, p, flags, mode); }

int close(int fd) {
  REAL(int, close, int);
  if (fd >= 0 && fd < MAXFD && fdfile[fd]) {
    int id = fdfile[fd] - 1; fdfile[fd] = 0;
    struct fault *f = decide(C_CLOSE, id);
    if (f && (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH)) die();
    int r = real_close(fd);
    logit(C_CLOSE, id, 0, 0, r);
    if (f && f->action == A_CRASH_AFTER) die();
    if (f && f->action == A_ERR) { errno = f->arg; return -1; }
    return r;
  }
  return real_close(fd);
}
int dup(int fd) {
  REAL(int, dup, int); int r = real_dup(fd);
  if (r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) fdfile[r] = fdfile[fd];
  return r;
}

static int do_fcntl(int which, int fd, int cmd, void *arg) {
  REAL(int, fcntl, int, int, ...); REAL(int, fcntl64, int, int, ...);
  int r = which ? real_fcntl64(fd, cmd, arg) : real_fcntl(fd, cmd, arg);
  if (stdio_on && (cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD) && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) fdfile[r] = fdfile[fd];
  return r;
}
#define FARG void *arg; va_list ap; va_start(ap, cmd); arg = va_arg(ap, void *); va_end(ap);
int fcntl(int fd, int cmd, ...) { FARG return do_fcntl(0, fd, cmd, arg); }
int fcntl64(int fd, int cmd, ...) { FARG return do_fcntl(1, fd, cmd, arg); }

/* one write: kind 0 write, 1 pwrite64 */
static ssize_t do_write(int fd, const void *b, size_t n, off64_t off, int kind) {
  REAL(ssize_t, write, int, const void *, size_t); REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
  if (!(fd >= 0 && fd < MAXFD && fdfile[fd])) return kind ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
  int id = fdfile[fd] - 1;
  struct fault *f = decide(C_WRITE, id); size_t m = n;
  if (f) {
    switch (f->action) {
      case A_ERR: logit(C_WRITE, id, off, n, -f->arg); errno = f->arg; return -1;
      case A_CRASH_BEFORE: die();
      case A_TORN_CRASH: m = n ? (size_t)(((uint64_t)n * (uint64_t)(f->arg % 1000)) / 1000) : 0;
        if (m) { if (kind) real_pwrite64(fd, b, m, off); else real_write(fd, b, m); stamp(fd); } die();
      case A_SHORT: if (n > 1) { m = (size_t)(((uint64_t)n * (uint64_t)(f->arg % 1000)) / 1000); if (m == 0) m = 1; } break;
    }
  }
  if (quota >= 0 && on) {
    if (quota == 0 && n > 0) { S->fired[C_WRITE][A_QUOTA]++; logit(C_WRITE, id, off, n, -ENOSPC); errno = ENOSPC; return -1; }
    if ((long)m > quota) { m = quota; S->fired[C_WRITE][A_QUOTA]++; }
  }
  ssize_t r = kind ? real_pwrite64(fd, b, m, off) : real_write(fd, b, m);
  if (r > 0) stamp(fd);
  if (r > 0 && quota >= 0 && on) quota -= r;
  logit(C_WRITE, id, off, n, r);
  if (f && f->action == A_CRASH_AFTER) die();
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }

static ssize_t do_read(int fd, void *b, size_t n, off64_t off, int kind) {
  REAL(ssize_t, read, int, void *, size_t); REAL(ssize_t, pread64, int, void *, size_t, off64_t);
  if (!(fd >= 0 && fd < MAXFD && fdfile[fd])) return kind ? real_pread64(fd, b, n, off) : real_read(fd, b, n);
  int id = fdfile[fd] - 1;
  struct fault *f = decide(C_READ, id); size_t m = n;
  if (f) {
    switch (f->action) {
      case A_ERR: logit(C_READ, id, off, n, -f->arg); errno = f->arg; return -1;
      case A_CRASH_BEFORE: case A_TORN_CRASH: die();
      case A_SHORT: if (n > 1) { m = (size_t)(((uint64_t)n * (uint64_t)(f->arg % 1000)) / 1000); if (m == 0) m = 1; } break;
    }
  }
  ssize_t r = kind ? real_pread64(fd, b, m, off) : real_read(fd, b, m);
  if (f && f->action == A_FLIP && r > 0) ((unsigned char *)b)[(size_t)f->arg % (size_t)r] ^= 0x10;
  logit(C_READ, id, off, n, r);
  if (f && f->action == A_CRASH_AFTER) die();
  return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1, 0); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }

/* buffered I/O: what is written goes to the file at once, so that it is there if the process dies later */
static int stdio_file(FILE *fp) { int fd; return stdio_on && on && fp && (fd = fileno(fp)) >= 0 && fd < MAXFD && fdfile[fd] ? fd : -1; }
size_t fwrite(const void *b, size_t size, size_t n, FILE *fp) {
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  int fd = stdio_file(fp);
  if (fd < 0 || !size || !n) return real_fwrite(b, size, n, fp);
  int id = fdfile[fd] - 1; size_t m = n; int err = 0;
  struct fault *f = decide(C_WRITE, id);
  if (f) {
    if (f->action == A_ERR) { m = 0; err = f->arg; }
    if (f->action == A_CRASH_BEFORE) die();
    if (f->action == A_TORN_CRASH || f->action == A_SHORT) { m = (size_t)(((uint64_t)n * (uint64_t)(f->arg % 1000)) / 1000); if (f->action == A_SHORT) err = ENOSPC; }
  }
  if (quota >= 0) {
    if ((long)(m * size) > quota) { m = (size_t)quota / size; err = ENOSPC; S->fired[C_WRITE][A_QUOTA]++; }
    quota -= m * size;
  }
  size_t r = m ? real_fwrite(b, size, m, fp) : 0;
  fflush(fp); if (m) stamp(fd);
  logit(C_WRITE, id, -1, n * size, r * size);
  if (f && (f->action == A_TORN_CRASH || f->action == A_CRASH_AFTER)) die();
  if (err) { fp->_flags |= 0x20; errno = err; }
  return r;
}
size_t fread(void *b, size_t size, size_t n, FILE *fp) {
  REAL(size_t, fread, void *, size_t, size_t, FILE *);
  int fd = stdio_file(fp);
  if (fd < 0 || !size || !n) return real_fread(b, size, n, fp);
  int id = fdfile[fd] - 1; size_t m = n;
  struct fault *f = decide(C_READ, id);
  if (f) {
    if (f->action == A_ERR) m = (size_t)(((uint64_t)n * 3) / 4);
    if (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH) die();
  }
  size_t r = m ? real_fread(b, size, m, fp) : 0;
  if (f && f->action == A_FLIP && r > 0) ((unsigned char *)b)[(size_t)f->arg % (r * size)] ^= 0x10;
  logit(C_READ, id, -1, n * size, r * size);
  if (f && f->action == A_CRASH_AFTER) die();
  if (f && f->action == A_ERR) { fp->_flags |= 0x20; errno = f->arg; }
  return r;
}
int fclose(FILE *fp) {
  REAL(int, fclose, FILE *);
  int fd = stdio_file(fp);
  if (fd < 0) return real_fclose(fp);
  int id = fdfile[fd] - 1; fdfile[fd] = 0;
  struct fault *f = decide(C_CLOSE, id);
  if (f && (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH)) die();
  int r = real_fclose(fp);
  logit(C_CLOSE, id, 0, 0, r);
  if (f && f->action == A_CRASH_AFTER) die();
  if (f && f->action == A_ERR) { errno = f->arg; return EOF; }
  return r;
}

/* bulk in-kernel copies are presented to the plan as one write on the destination */
static int bulk(int out_fd, size_t n, size_t *m, struct fault **fo) {
  *fo = NULL; *m = n;
  if (!(out_fd >= 0 && out_fd < MAXFD && fdfile[out_fd])) return 0;
  int id = fdfile[out_fd] - 1; struct fault *f = decide(C_WRITE, id); *fo = f;
  if (f) {
    if (f->action == A_ERR) { errno = f->arg; return -1; }
    if (f->action == A_CRASH_BEFORE) die();
    if (f->action == A_SHORT || f->action == A_TORN_CRASH) { *m = 1 + (n > 65536 ? 65536 : n) / 3; if (*m > n) *m = n; }
  }
  logit(C_WRITE, id, -2, n, *m);
  if (quota == 0 && on) { S->fired[C_WRITE][A_QUOTA]++; errno = ENOSPC; return -1; }
  if (quota > 0 && on && (long)*m > quota) *m = quota;
  return 0;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); size_t m; struct fault *f;
  if (bulk(o, n, &m, &f) < 0) return -1;
  ssize_t r = real_sendfile64(o, i, off, m);
  if (r > 0 && quota > 0 && on && fdfile[o]) quota -= r;
  if (f && (f->action == A_TORN_CRASH || f->action == A_CRASH_AFTER)) die();
  return r;
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); size_t m; struct fault *f;
  if (bulk(o, n, &m, &f) < 0) return -1;
  ssize_t r = real_copy_file_range(i, io, o, oo, m, fl);
  if (f && (f->action == A_TORN_CRASH || f->action == A_CRASH_AFTER)) die();
  return r;
}
int ftruncate64(int fd, off64_t len) {
  REAL(int, ftruncate64, int, off64_t);
  if (!(fd >= 0 && fd < MAXFD && fdfile[fd])) return real_ftruncate64(fd, len);
  int id = fdfile[fd] - 1; struct fault *f = decide(C_TRUNC, id);
  if (f) { if (f->action == A_ERR) { logit(C_TRUNC, id, len, 0, -f->arg); errno = f->arg; return -1; }
           if (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH) die(); }
  int r = real_ftruncate64(fd, len); logit(C_TRUNC, id, len, 0, r);
  if (f && f->action == A_CRASH_AFTER) die();
  return r;
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }

static int two_path(const char *p, int cls, struct fault **fo) {
  char buf[PATH_MAX]; const char *a; *fo = NULL;
  if (!tracked_path(p, buf, &a)) return 0;
  char keep[PATH_MAX]; strncpy(keep, a, PATH_MAX - 1); keep[PATH_MAX - 1] = 0;
  int id = fid_of(keep); struct fault *f = decide(cls, id); *fo = f;
  if (f) { if (f->action == A_ERR) { logit(cls, id, 0, 0, -f->arg); errno = f->arg; return -1; }
           if (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH) die(); }
  logit(cls, id, 0, 0, 0);
  return 0;
}
#define TAIL(f) if ((f) && (f)->action == A_CRASH_AFTER) die()
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); struct fault *f;
  if (two_path(b, C_RENAME, &f) < 0) return -1; int r = real_rename(a, b); TAIL(f); return r; }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); struct fault *f;
  if (two_path(b, C_RENAME, &f) < 0) return -1; int r = real_renameat(d, a, e, b); TAIL(f); return r; }
int unlink(const char *a) { REAL(int, unlink, const char *); struct fault *f;
  if (two_path(a, C_UNLINK, &f) < 0) return -1; int r = real_unlink(a); TAIL(f); return r; }
int unlinkat(int d, const char *a, int fl) { REAL(int, unlinkat, int, const char *, int); struct fault *f = NULL;
  if (d == AT_FDCWD && two_path(a, C_UNLINK, &f) < 0) return -1; int r = real_unlinkat(d, a, fl); TAIL(f); return r; }
int remove(const char *a) { REAL(int, remove, const char *); struct fault *f;
  if (two_path(a, C_UNLINK, &f) < 0) return -1; int r = real_remove(a); TAIL(f); return r; }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); struct fault *f;
  if (two_path(a, C_MKDIR, &f) < 0) return -1; int r = real_mkdir(a, m); TAIL(f); return r; }
int fsync(int fd) { REAL(int, fsync, int);
  if (!(fd >= 0 && fd < MAXFD && fdfile[fd])) return real_fsync(fd);
  struct fault *f = decide(C_FSYNC, fdfile[fd] - 1);
  if (f) { if (f->action == A_ERR) { errno = f->arg; return -1; } if (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH) die(); }
  TAIL(f); return 0; }
int flock(int fd, int op) { REAL(int, flock, int, int);
  if (!(fd >= 0 && fd < MAXFD && fdfile[fd]) || (op & LOCK_UN)) return real_flock(fd, op);
  int id = fdfile[fd] - 1; struct fault *f = decide(C_FLOCK, id);
  if (f) { if (f->action == A_ERR) { logit(C_FLOCK, id, 0, 0, -f->arg); errno = f->arg; return -1; } if (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH) die(); }
  int r = real_flock(fd, op); TAIL(f); return r; }

/* ---- clock and entropy ---- */
int clock_gettime(clockid_t id, struct timespec *ts) {
  REAL(int, clock_gettime, clockid_t, struct timespec *);
  if (!clk_on) return real_clock_gettime(id, ts);
  int64_t v;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) { clk_ns += clk_step_ns; v = clk_ns; } else { mono_ns += 1000; v = mono_ns; }
  ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  REAL(int, gettimeofday, struct timeval *, void *);
  if (!clk_on) return real_gettimeofday(tv, tz);
  clk_ns += clk_step_ns; tv->tv_sec = clk_ns / 1000000000LL; tv->tv_usec = (clk_ns % 1000000000LL) / 1000; return 0;
}
time_t time(time_t *t) {
  REAL(time_t, time, time_t *);
  if (!clk_on) return real_time(t);
  time_t v = clk_ns / 1000000000LL; if (t) *t = v; return v;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
  if (!clk_on) return real_clock_nanosleep(id, flags, rq, rm);
  int64_t d = (int64_t)rq->tv_sec * 1000000000LL + rq->tv_nsec;
  if (flags & TIMER_ABSTIME) { d -= (id == CLOCK_REALTIME ? clk_ns : mono_ns); if (d < 0) d = 0; }
  slept_ns += d; sleeps++;
  if (sched_fd >= 0) { sched_point(2, -1, clk_ns + d); return 0; }
  clk_ns += d; mono_ns += d; return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  REAL(int, nanosleep, const struct timespec *, struct timespec *);
  if (!clk_on) return real_nanosleep(rq, rm);
  int64_t d = (int64_t)rq->tv_sec * 1000000000LL + rq->tv_nsec;
  slept_ns += d; sleeps++;
  if (sched_fd >= 0) { sched_point(2, -1, clk_ns + d); return 0; }
  clk_ns += d; mono_ns += d; return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  REAL(ssize_t, getrandom, void *, size_t, unsigned);
  if (!rnd_on) return real_getrandom(b, n, fl);
  unsigned char *p = b;
  for (size_t i = 0; i < n; i++) { rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17; p[i] = (unsigned char)(rnd_state >> 24); }
  return (ssize_t)n;
}
