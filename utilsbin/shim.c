// The simulated operating system of the tools: loaded into the real binary, it decides what every
// system call the tools depend on returns, the way the plan of the run says. The plan is read from
// descriptor 200, the file's content from 202, and what happened is recorded in 201.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NSTEP 64
struct step { uint32_t kind, arg; };          // 0: at most arg, 1: EINTR, 2: errno arg, 3: zero
struct plan {
  uint32_t magic, open_err, open_eintr, stat_mode;
  uint64_t stat_size;
  uint32_t nread, nwrite, nrand, lseek_err;
  struct step rd[NSTEP], wr[NSTEP], rn[NSTEP];
  uint64_t wlimit;                              // bytes standard output takes before it is full
  uint32_t wlimit_errno, err_broken;
  uint64_t entropy, now, clock_step;
  uint32_t jump_every; int32_t jump_s;
  uint64_t env_seed; uint32_t layout, pid, no_getrandom, urandom_err;
  char path[512];
  uint32_t refuse, oom_at, oom_min, oom_on;     // the memory request that is refused (and all after it)
};
struct log {
  uint32_t magic;
  uint32_t opens, open_errs, open_eintrs, reads, rshort, reintr, rerr, stats;
  uint32_t writes, wshort, weintr, werr, after_err, rands, rshorts, rintr, rfail, clocks, envs, seeks, mmaps, nogr, urerr;
  uint64_t delivered, accepted, entropy_used, seeded;
  uint32_t effects, effect;                     // effects on the world, and the first one's kind
  char what[120];
  uint32_t allocs, refused;                     // memory requests
};
static struct plan *P;
static int armed;                               // the program itself runs
static struct log *L;
static uint64_t clen;
static int target_fd = -1, rnd_fd = -1;
static uint64_t pos;
static uint32_t ri, wi, ni;
static uint64_t outfds = 2;                     // descriptors that are standard output
static int wdead;
static uint32_t wdead_errno;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
static uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
__attribute__((constructor)) static void init(void) {
  struct stat st;
  void *p = (void *)raw(SYS_mmap, 0, sizeof(struct plan), PROT_READ, MAP_PRIVATE, 200, 0);
  if ((long)p < 0 && (long)p > -4096) return;
  if (((struct plan *)p)->magic != 0x59534D31) return;
  void *l = (void *)raw(SYS_mmap, 0, sizeof(struct log), PROT_READ | PROT_WRITE, MAP_SHARED, 201, 0);
  if ((long)l < 0 && (long)l > -4096) return;
  L = l; P = p;
  L->magic = 0x59534D32;
  if (raw(SYS_fstat, 202, (long)&st, 0, 0, 0, 0) == 0) clen = st.st_size;
  raw(SYS_close, 200, 0, 0, 0, 0, 0); raw(SYS_close, 201, 0, 0, 0, 0, 0);
  // another layout of memory
  if (P->layout) {
    raw(SYS_mmap, 0, 4096ul * (1 + mix(P->layout) % 5000), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (uint32_t i = 0; i < 3 + P->layout % 60; i++) { volatile char *q = malloc(16 + mix(P->layout + i) % 400); if (q) *q = 1; if (q && i % 3) free((void *)q); }
  }
  armed = 1;
}
// memory requests
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static int no_memory(size_t n) {
  if (!armed) return 0;
  if (n < P->oom_min) return 0;
  uint32_t k = __atomic_add_fetch(&L->allocs, 1, __ATOMIC_RELAXED);
  if (!P->oom_at || k < P->oom_at || (k > P->oom_at && !P->oom_on)) return 0;
  L->refused++;
  errno = ENOMEM;
  return 1;
}
void *malloc(size_t n) { return no_memory(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return no_memory(a * b) ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return n && no_memory(n) ? 0 : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return no_memory(n) ? 0 : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return no_memory(n) ? 0 : __libc_memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) {
  if (no_memory(n)) return ENOMEM;
  void *p = __libc_memalign(a, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
// something is done to the world outside: recorded, and refused if the plan says so
static int effect(int kind, const char *what, int err) {
  if (!L->effects++) {
    L->effect = kind;
    for (int i = 0; what && what[i] && i < 119; i++) L->what[i] = what[i];
  }
  if (!P->refuse) return 0;
  errno = err;
  return -1;
}
static int is_target(const char *p) { return P && p && P->path[0] && strcmp(p, P->path) == 0; }
static int is_rnd(const char *p) { return P && p && (strcmp(p, "/dev/urandom") == 0 || strcmp(p, "/dev/random") == 0); }

static uint8_t ebyte(uint64_t i) {
  if (P->entropy == 0) return 0;
  if (P->entropy == ~0ull) return 0xff;
  return mix(P->entropy ^ mix(i >> 3)) >> (8 * (i & 7));
}
static ssize_t entropy(void *b, size_t n) {
  L->rands++;
  if (n == 0) return 0;
  if (ni < P->nrand) {
    struct step s = P->rn[ni++];
    if (s.kind == 1) { L->rintr++; errno = EINTR; return -1; }
    if (s.kind == 2) { L->rfail++; errno = s.arg; return -1; }
    if (s.kind == 0 && s.arg < n) { L->rshorts++; n = s.arg ? s.arg : 1; }
  }
  for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = ebyte(L->entropy_used++);
  L->seeded += n;
  return n;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!P) return ret(raw(SYS_getrandom, (long)b, n, f, 0, 0, 0));
  if (P->no_getrandom) { L->nogr++; errno = P->no_getrandom; return -1; }
  return entropy(b, n);
}
int getentropy(void *b, size_t n) {
  if (!P) return ret(raw(SYS_getrandom, (long)b, n, 0, 0, 0, 0)) < 0 ? -1 : 0;
  size_t d = 0;
  while (d < n) { ssize_t k = entropy((char *)b + d, n - d); if (k < 0) { if (errno == EINTR) continue; return -1; } d += k; }
  return 0;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (P && n == SYS_getrandom) return getrandom((void *)a, b, c);
  return ret(raw(n, a, b, c, d, e, f));
}
int poll(struct pollfd *f, nfds_t n, int t) {
  if (P && n == 1 && rnd_fd >= 0 && f[0].fd == rnd_fd) { f[0].revents = POLLIN; return 1; }
  return ret(raw(SYS_poll, (long)f, n, t, 0, 0, 0));
}

static int out_fd(int fd) { return fd >= 0 && fd < 64 && (outfds >> fd & 1); }
static int is_out(int fd, int y) {
  if (fd >= 0 && fd < 64) outfds = y ? outfds | 1ull << fd : outfds & ~(1ull << fd);
  return fd;
}
int dup(int fd) { return is_out(ret(raw(SYS_dup, fd, 0, 0, 0, 0, 0)), out_fd(fd)); }
int dup2(int fd, int to) { return is_out(ret(raw(SYS_dup2, fd, to, 0, 0, 0, 0)), out_fd(fd)); }
int dup3(int fd, int to, int fl) { return is_out(ret(raw(SYS_dup3, fd, to, fl, 0, 0, 0)), out_fd(fd)); }
int fcntl(int fd, int c, ...) {
  va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap);
  int r = ret(raw(SYS_fcntl, fd, c, a, 0, 0, 0));
  if ((c == F_DUPFD || c == F_DUPFD_CLOEXEC) && r >= 0) is_out(r, out_fd(fd));
  return r;
}
int fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, c, a); }

static int do_open(int dir, const char *p, int fl, int mode) {
  if (P && p && ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC | O_TMPFILE) & ~O_DIRECTORY))) {
    static const char *fine[] = {"/dev/stdout", "/dev/stderr", "/dev/null", "/dev/tty", "/proc/self/fd/1", "/proc/self/fd/2", "/dev/fd/1", "/dev/fd/2", "/dev/urandom", "/dev/random", 0};
    int ok = 0;
    for (int i = 0; fine[i]; i++) ok |= !strcmp(p, fine[i]);
    if (!ok && effect(1, p, EROFS)) return -1;
  }
  if (is_target(p)) {
    L->opens++;
    if (L->open_eintrs < P->open_eintr) { L->open_eintrs++; errno = EINTR; return -1; }
    if (P->open_err) { L->open_errs++; errno = P->open_err; return -1; }
    int fd = ret(raw(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY | O_CLOEXEC, 0, 0, 0));
    target_fd = fd; pos = 0; 
    return fd;
  }
  if (is_rnd(p) && P->urandom_err) { L->urerr++; errno = P->urandom_err; return -1; }
  if (is_rnd(p)) { rnd_fd = ret(raw(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY | O_CLOEXEC, 0, 0, 0)); return rnd_fd; }
  int fd = ret(raw(SYS_openat, dir, (long)p, fl, mode, 0, 0));
  if (P && p && (fl & O_ACCMODE) != O_RDONLY && (!strcmp(p, "/dev/stdout") || !strcmp(p, "/proc/self/fd/1") || !strcmp(p, "/dev/fd/1"))) is_out(fd, 1);
  return fd;
}
#define OPEN(name, ...) int mode = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, int); va_end(ap);
int open(const char *p, int fl, ...) { OPEN() return do_open(AT_FDCWD, p, fl, mode); }
int open64(const char *p, int fl, ...) { OPEN() return do_open(AT_FDCWD, p, fl, mode); }
int openat(int d, const char *p, int fl, ...) { OPEN() return do_open(d, p, fl, mode); }
int openat64(int d, const char *p, int fl, ...) { OPEN() return do_open(d, p, fl, mode); }
int close(int fd) {
  if (fd >= 0 && fd == target_fd) target_fd = -1;
  if (fd >= 0 && fd == rnd_fd) rnd_fd = -1;
  if (fd != 1) is_out(fd, 0);
  return ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}

static ssize_t target_read(void *b, size_t n, uint64_t *at) {
  L->reads++;
  uint64_t left = *at < clen ? clen - *at : 0;
  if (n > left) n = left;
  if (ri < P->nread) {
    struct step s = P->rd[ri++];
    if (s.kind == 1) { L->reintr++; errno = EINTR; return -1; }
    if (s.kind == 2) { L->rerr++; errno = s.arg; return -1; }
    if (s.kind == 0) { uint32_t k = s.arg ? s.arg : 1; if (k < n) { L->rshort++; n = k; } }
  }
  ssize_t k = n ? ret(raw(SYS_pread64, 202, (long)b, n, *at, 0, 0)) : 0;
  if (k > 0) { *at += k; L->delivered += k; }
  return k;
}
ssize_t read(int fd, void *b, size_t n) {
  if (P && fd >= 0 && fd == target_fd) return target_read(b, n, &pos);
  if (P && fd >= 0 && fd == rnd_fd) return entropy(b, n);
  if (P && fd == 0 && n) effect(2, "", 0);
  return ret(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (P && fd >= 0 && fd == target_fd) { uint64_t p = o; return target_read(b, n, &p); }
  return ret(raw(SYS_pread64, fd, (long)b, n, o, 0, 0));
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (P && fd >= 0 && fd == target_fd) {
    for (int i = 0; i < n; i++) if (v[i].iov_len) return target_read(v[i].iov_base, v[i].iov_len, &pos);
    return 0;
  }
  return ret(raw(SYS_readv, fd, (long)v, n, 0, 0, 0));
}
off_t lseek(int fd, off_t o, int w) {
  if (P && fd >= 0 && fd == target_fd) {
    L->seeks++;
    if (P->lseek_err) { errno = P->lseek_err; return -1; }
    if (w == SEEK_SET) pos = o; else if (w == SEEK_CUR) pos += o; else if (w == SEEK_END) pos = (P->stat_mode == 2 ? P->stat_size : clen) + o;
    return pos;
  }
  return ret(raw(SYS_lseek, fd, o, w, 0, 0, 0));
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (P && fd >= 0 && fd == target_fd) { L->mmaps++; return (void *)ret(raw(SYS_mmap, (long)a, n, pr, fl, 202, o)); }
  return (void *)ret(raw(SYS_mmap, (long)a, n, pr, fl, fd, o));
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap(a, n, pr, fl, fd, o); }
ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t e, unsigned f) { if (P && a == target_fd) { errno = EXDEV; return -1; } return ret(raw(SYS_copy_file_range, a, (long)b, c, (long)d, e, f)); }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { if (P && (b == target_fd || out_fd(a))) { errno = EINVAL; return -1; } return ret(raw(SYS_sendfile, a, b, (long)c, d, 0, 0)); }
ssize_t sendfile64(int a, int b, off_t *c, size_t d) { return sendfile(a, b, c, d); }

static int fill(struct stat *st) {
  L->stats++;
  if (P->stat_mode == 1) { errno = EIO; return -1; }
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = 4711; st->st_dev = 1;
  st->st_size = P->stat_mode == 2 ? P->stat_size : clen;
  return 0;
}
static int fillx(struct statx *st) {
  struct stat s;
  if (fill(&s)) return -1;
  memset(st, 0, sizeof *st);
  st->stx_mask = STATX_BASIC_STATS; st->stx_mode = s.st_mode; st->stx_nlink = 1; st->stx_blksize = 4096; st->stx_ino = 4711; st->stx_size = s.st_size;
  return 0;
}
static int path_stat(struct stat *st) {
  if (P->open_err == ENOENT || P->open_err == ENOTDIR || P->open_err == ELOOP || P->open_err == ENAMETOOLONG) { errno = P->open_err; return -1; }
  return fill(st);
}
int fstat(int fd, struct stat *st) { if (P && fd >= 0 && fd == target_fd) return fill(st); return ret(raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0)); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) { if (is_target(p)) return path_stat(st); return ret(raw(SYS_stat, (long)p, (long)st, 0, 0, 0, 0)); }
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) { if (is_target(p)) return path_stat(st); return ret(raw(SYS_lstat, (long)p, (long)st, 0, 0, 0, 0)); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int access(const char *p, int m) { struct stat st; if (is_target(p)) return path_stat(&st); return ret(raw(SYS_access, (long)p, m, 0, 0, 0, 0)); }
int statx(int d, const char *p, int fl, unsigned m, struct statx *st) {
  if (P && ((target_fd >= 0 && d == target_fd && (!p || !*p)) || is_target(p))) {
    if (p && *p && (P->open_err == ENOENT || P->open_err == ENOTDIR || P->open_err == ELOOP || P->open_err == ENAMETOOLONG)) { errno = P->open_err; return -1; }
    return fillx(st);
  }
  return ret(raw(SYS_statx, d, (long)p, fl, m, (long)st, 0));
}

static ssize_t out(const void *b, size_t n) {
  L->writes++;
  if (wdead) { L->after_err++; errno = wdead_errno; return -1; }
  if (n == 0) return 0;
  if (wi < P->nwrite) {
    struct step s = P->wr[wi++];
    if (s.kind == 1) { L->weintr++; errno = EINTR; return -1; }
    if (s.kind == 2) { L->werr++; wdead = 1; wdead_errno = s.arg; errno = s.arg; return -1; }
    if (s.kind == 3) { L->werr++; wdead = 1; wdead_errno = EIO; return 0; }
    uint32_t k = s.arg ? s.arg : 1;
    if (k < n) { L->wshort++; n = k; }
  }
  if (L->accepted + n > P->wlimit) {
    if (L->accepted >= P->wlimit) { L->werr++; wdead = 1; wdead_errno = P->wlimit_errno; errno = wdead_errno; return -1; }
    n = P->wlimit - L->accepted; L->wshort++;
  }
  // the capture never fails
  size_t d = 0;
  while (d < n) { long k = raw(SYS_write, 1, (long)b + d, n - d, 0, 0, 0); if (k <= 0) break; d += k; }
  L->accepted += n;
  return n;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (P && out_fd(fd)) return out(b, n);
  if (P && fd == 2 && P->err_broken) { errno = EIO; return -1; }
  return ret(raw(SYS_write, fd, (long)b, n, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (P && out_fd(fd)) {
    // as one write of the first pieces, at most
    static char buf[1 << 16]; size_t k = 0;
    for (int i = 0; i < n && k < sizeof buf; i++) { size_t m = v[i].iov_len; if (m > sizeof buf - k) m = sizeof buf - k; memcpy(buf + k, v[i].iov_base, m); k += m; }
    return out(buf, k);
  }
  if (P && fd == 2 && P->err_broken) { errno = EIO; return -1; }
  return ret(raw(SYS_writev, fd, (long)v, n, 0, 0, 0));
}

ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (P && out_fd(fd)) { errno = ESPIPE; return -1; }
  return ret(raw(SYS_pwrite64, fd, (long)b, n, o, 0, 0));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { if (P && (out_fd(c) || (a >= 0 && a == target_fd))) { errno = EINVAL; return -1; } return ret(raw(SYS_splice, a, (long)b, c, (long)d, n, f)); }
ssize_t vmsplice(int fd, const struct iovec *v, size_t n, unsigned f) { if (P && out_fd(fd)) { errno = EBADF; return -1; } return ret(raw(SYS_vmsplice, fd, (long)v, n, f, 0, 0)); }

static uint64_t tick(void) {
  static uint64_t n, now; 
  if (!n) now = P->now;
  n++; L->clocks++;
  now += P->clock_step;
  if (P->jump_every && n % P->jump_every == 0) now += (int64_t)P->jump_s * 1000000000ll;
  return now;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!P) return ret(raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
  uint64_t n = tick(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  if (!P) return ret(raw(SYS_gettimeofday, (long)t, (long)z, 0, 0, 0, 0));
  uint64_t n = tick(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0;
}
time_t time(time_t *t) {
  if (!P) return ret(raw(SYS_time, (long)t, 0, 0, 0, 0, 0));
  time_t n = tick() / 1000000000; if (t) *t = n; return n;
}
int nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; if (P) return 0; return ret(raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0)); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (P) return 0; return -raw(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0); }
pid_t getpid(void) { if (P && P->pid) return P->pid; return raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }

extern char **environ;
char *getenv(const char *k) {
  size_t n = strlen(k);
  if (environ) for (char **e = environ; *e; e++) if (strncmp(*e, k, n) == 0 && (*e)[n] == '=') return *e + n + 1;
  if (!P || !P->env_seed || strncmp(k, "LD_", 3) == 0 || strncmp(k, "RUST_MIN_STACK", 14) == 0 || strncmp(k, "GCONV", 5) == 0 || strncmp(k, "MALLOC", 6) == 0) return 0;
  uint64_t h = P->env_seed;
  for (const char *c = k; *c; c++) h = mix(h ^ (uint8_t)*c);
  L->envs++;
  static const char *vals[] = {"1", "0", "true", "en_US.UTF-8", "C", "de_DE.UTF-8", "/nonexistent", "40", "always", "", "never", "full"};
  if (h % 3 == 0) return 0;
  return (char *)vals[(h >> 8) % 12];
}
char *secure_getenv(const char *k) { return getenv(k); }

// ---- what no tool does
#define NO(kind, what, err, real) do { if (P && effect(kind, what, err)) return -1; return ret(real); } while (0)
int unlink(const char *p) { NO(3, p, EROFS, raw(SYS_unlink, (long)p, 0, 0, 0, 0, 0)); }
int unlinkat(int d, const char *p, int f) { NO(3, p, EROFS, raw(SYS_unlinkat, d, (long)p, f, 0, 0, 0)); }
int rmdir(const char *p) { NO(3, p, EROFS, raw(SYS_rmdir, (long)p, 0, 0, 0, 0, 0)); }
int rename(const char *p, const char *q) { NO(4, p, EROFS, raw(SYS_rename, (long)p, (long)q, 0, 0, 0, 0)); }
int renameat(int a, const char *p, int b, const char *q) { NO(4, p, EROFS, raw(SYS_renameat, a, (long)p, b, (long)q, 0, 0)); }
int renameat2(int a, const char *p, int b, const char *q, unsigned f) { NO(4, p, EROFS, raw(SYS_renameat2, a, (long)p, b, (long)q, f, 0)); }
int mkdir(const char *p, mode_t m) { NO(5, p, EROFS, raw(SYS_mkdir, (long)p, m, 0, 0, 0, 0)); }
int mkdirat(int d, const char *p, mode_t m) { NO(5, p, EROFS, raw(SYS_mkdirat, d, (long)p, m, 0, 0, 0)); }
int link(const char *p, const char *q) { NO(5, q, EROFS, raw(SYS_link, (long)p, (long)q, 0, 0, 0, 0)); }
int linkat(int a, const char *p, int b, const char *q, int f) { NO(5, q, EROFS, raw(SYS_linkat, a, (long)p, b, (long)q, f, 0)); }
int symlink(const char *p, const char *q) { NO(5, q, EROFS, raw(SYS_symlink, (long)p, (long)q, 0, 0, 0, 0)); }
int truncate(const char *p, off_t n) { NO(6, p, EROFS, raw(SYS_truncate, (long)p, n, 0, 0, 0, 0)); }
int truncate64(const char *p, off_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) { NO(6, "", EROFS, raw(SYS_ftruncate, fd, n, 0, 0, 0, 0)); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fallocate(int fd, int m, off_t o, off_t n) { NO(6, "", EROFS, raw(SYS_fallocate, fd, m, o, n, 0, 0)); }
int chmod(const char *p, mode_t m) { NO(7, p, EROFS, raw(SYS_chmod, (long)p, m, 0, 0, 0, 0)); }
int fchmod(int fd, mode_t m) { NO(7, "", EROFS, raw(SYS_fchmod, fd, m, 0, 0, 0, 0)); }
int fchmodat(int d, const char *p, mode_t m, int f) { NO(7, p, EROFS, raw(SYS_fchmodat, d, (long)p, m, f, 0, 0)); }
int chown(const char *p, uid_t u, gid_t g) { NO(7, p, EROFS, raw(SYS_chown, (long)p, u, g, 0, 0, 0)); }
int fchown(int fd, uid_t u, gid_t g) { NO(7, "", EROFS, raw(SYS_fchown, fd, u, g, 0, 0, 0)); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { NO(7, p, EROFS, raw(SYS_utimensat, d, (long)p, (long)t, f, 0, 0)); }
int futimens(int fd, const struct timespec t[2]) { NO(7, "", EROFS, raw(SYS_utimensat, fd, 0, (long)t, 0, 0, 0)); }
int flock(int fd, int op) { NO(8, "", EAGAIN, raw(SYS_flock, fd, op, 0, 0, 0, 0)); }
int socket(int a, int b, int c) { NO(9, "", EACCES, raw(SYS_socket, a, b, c, 0, 0, 0)); }
pid_t fork(void) { if (P && effect(10, "", EAGAIN)) return -1; return ((pid_t (*)(void))dlsym(RTLD_NEXT, "fork"))(); }
pid_t vfork(void) { return fork(); }
int posix_spawn(pid_t *a, const char *p, const void *b, const void *c, char *const d[], char *const e[]) {
  if (P && effect(10, p, EAGAIN)) return EAGAIN;
  return ((int (*)(pid_t *, const char *, const void *, const void *, char *const[], char *const[]))dlsym(RTLD_NEXT, "posix_spawn"))(a, p, b, c, d, e);
}
int posix_spawnp(pid_t *a, const char *p, const void *b, const void *c, char *const d[], char *const e[]) {
  if (P && effect(10, p, EAGAIN)) return EAGAIN;
  return ((int (*)(pid_t *, const char *, const void *, const void *, char *const[], char *const[]))dlsym(RTLD_NEXT, "posix_spawnp"))(a, p, b, c, d, e);
}
int execve(const char *p, char *const a[], char *const e[]) { NO(11, p, EACCES, raw(SYS_execve, (long)p, (long)a, (long)e, 0, 0, 0)); }
int execvp(const char *p, char *const a[]) { if (P && effect(11, p, EACCES)) return -1; return ((int (*)(const char *, char *const[]))dlsym(RTLD_NEXT, "execvp"))(p, a); }
int kill(pid_t p, int s) { NO(12, "", EPERM, raw(SYS_kill, p, s, 0, 0, 0, 0)); }
int chdir(const char *p) { NO(13, p, EACCES, raw(SYS_chdir, (long)p, 0, 0, 0, 0, 0)); }
mode_t umask(mode_t m) { if (P && effect(13, "umask", EPERM)) return 022; return raw(SYS_umask, m, 0, 0, 0, 0, 0); }
int setrlimit(__rlimit_resource_t r, const struct rlimit *l) { NO(13, "limits", EPERM, raw(SYS_setrlimit, r, (long)l, 0, 0, 0, 0)); }
int shm_open(const char *p, int f, mode_t m) { if (P && effect(1, p, EACCES)) return -1; return ((int (*)(const char *, int, mode_t))dlsym(RTLD_NEXT, "shm_open"))(p, f, m); }
