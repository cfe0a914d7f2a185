/* libc seam of the simulator (LD_PRELOAD).  While disarmed every call goes
 * straight to libc.  While armed, in a forked simulated run, fds 0/1/2 are
 * virtual (data, chunking, EINTR, errors, capacity and crash points come from
 * the scenario in shared memory) and opens/reads/stats/writes of source and
 * debug files follow the scenario's file rules.  Everything is logged. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXCHUNK 512
#define MAXRULE 24
#define MAXEV 60000
#define DATACAP (6u << 20)
#define STDINCAP (1u << 20)

/* kinds of logged events */
enum { EV_READ0 = 1, EV_WRITE = 2, EV_OPEN = 3, EV_FREAD = 4, EV_STAT = 5,
       EV_FWRITE = 6, EV_CLOSE = 7, EV_UNLINK = 8 };
/* rule ops */
enum { OP_OPEN = 1, OP_READ = 2, OP_STAT = 3, OP_WRITE = 4 };
/* rule actions */
enum { ACT_ERRNO = 1, ACT_SHORT = 2, ACT_REDIRECT = 3, ACT_EOF = 4 };

typedef struct { int32_t op, nth, persist, action, arg, seen, fired, limit;
                 char match[96]; char alt[256]; } rule_t;
typedef struct { uint8_t kind, fd, fault, pad; int32_t res, err; uint32_t off, len; } ev_t;

typedef struct {
  uint32_t magic;
  uint32_t nev, evlost, ndata, flood;
  uint32_t max_ev, max_out;
  int32_t kill_at;                 /* event number before which we die, -1 never */
  uint32_t killed;
  uint64_t rnd;
  /* stdin */
  uint32_t in_len, in_pos, in_nchunk, in_ichunk;
  int32_t in_end_errno;            /* 0: EOF at the end */
  uint32_t in_reads_after_eof, in_eintr, in_short;
  int32_t in_chunk[MAXCHUNK];      /* >0 max bytes, -n errno n */
  /* stdout / stderr */
  uint32_t out_nchunk[2], out_ichunk[2];
  int32_t out_chunk[2][MAXCHUNK];
  int64_t out_cap[2];              /* bytes accepted before out_errno, -1 = unlimited */
  int32_t out_errno[2];
  int64_t out_total[2];
  uint32_t out_short[2], out_eintr[2], out_err[2];
  uint32_t nrule;
  rule_t rule[MAXRULE];
  uint32_t nopen;
  char tail[32];                   /* the last bytes written to the output, in long runs */
  uint32_t lean;                   /* long runs: transfers are counted, not logged, and the input starts again */
  ev_t ev[MAXEV];
  uint8_t in_data[STDINCAP];
  uint8_t data[DATACAP];
} shm_t;

static shm_t *S;
static int armed;
static char tracked[1024];     /* fd -> 1 + index of path, 0 untracked */
static char fdpath[1024][128];

uint32_t sim_sizeof(void) { return (uint32_t)sizeof(shm_t); }
void *sim_field(const char *n) {
#define F(x) if (!strcmp(n, #x)) return (void *)&S->x;
  F(magic) F(nev) F(evlost) F(ndata) F(flood) F(max_ev) F(lean) F(tail) F(max_out) F(kill_at) F(killed) F(rnd)
  F(in_len) F(in_pos) F(in_nchunk) F(in_ichunk) F(in_end_errno) F(in_reads_after_eof) F(in_eintr) F(in_short) F(in_chunk)
  F(out_nchunk) F(out_ichunk) F(out_chunk) F(out_cap) F(out_errno) F(out_total) F(out_short) F(out_eintr) F(out_err)
  F(nrule) F(rule) F(nopen) F(ev) F(in_data) F(data)
  return NULL;
}
void sim_attach(void *p) { S = (shm_t *)p; }
void sim_reset(void) {
  uint32_t nev = S->nev; (void)nev;
  memset(S, 0, (size_t)((char *)&S->ev[0] - (char *)S));
  S->magic = 0x53494d31; S->kill_at = -1; S->max_ev = MAXEV - 16; S->max_out = DATACAP - 65536;
  S->out_cap[0] = S->out_cap[1] = -1;
}
void sim_rule(int op, int nth, int persist, int action, int arg, int limit, const char *match, const char *alt) {
  if (S->nrule >= MAXRULE) return;
  rule_t *r = &S->rule[S->nrule++];
  memset(r, 0, sizeof *r);
  r->op = op; r->nth = nth; r->persist = persist; r->action = action; r->arg = arg; r->limit = limit;
  strncpy(r->match, match, sizeof r->match - 1); strncpy(r->alt, alt, sizeof r->alt - 1);
}
void sim_arm(int on) { armed = on; if (on) memset(tracked, 0, sizeof tracked); }

static void *sym(const char *n) { return dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = sym(#name)

static ssize_t raw_write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return real(fd, b, n); }

static uint32_t put_data(const void *b, size_t n) {
  if (S->ndata + n > DATACAP) { S->flood = 1; _exit(97); }
  memcpy(S->data + S->ndata, b, n); uint32_t o = S->ndata; S->ndata += n; return o;
}
static void tick(void) {
  if (S->kill_at >= 0 && (int32_t)S->nev >= S->kill_at) { S->killed = 1; kill(getpid(), SIGKILL); for (;;) pause(); }
  if (S->nev >= S->max_ev) { S->flood = 1; _exit(97); }
}
static ev_t *log_ev(int kind, int fd, long res, int err, const void *b, size_t n, int fault) {
  uint32_t off = n ? put_data(b, n) : S->ndata;
  ev_t *e = &S->ev[S->nev++];
  e->kind = kind; e->fd = fd; e->res = (int32_t)res; e->err = err; e->off = off; e->len = n; e->fault = fault;
  return e;
}
static int is_src(const char *p) {
  size_t n = strlen(p);
  return (n > 4 && !strcmp(p + n - 4, ".ama")) || (n > 6 && !strcmp(p + n - 6, ".amasm"));
}
static int suffix(const char *p, const char *m) {
  size_t a = strlen(p), b = strlen(m);
  if (!b) return 1;
  return a >= b && !strcmp(p + a - b, m) && (a == b || p[a - b - 1] == '/');
}
static rule_t *match_rule(int op, const char *p) {
  rule_t *hit = NULL;
  for (uint32_t i = 0; i < S->nrule; i++) {
    rule_t *r = &S->rule[i];
    if (r->op != op || !suffix(p, r->match)) continue;
    int k = r->seen++;
    if (!hit && (k == r->nth || (r->persist && k >= r->nth))) hit = r;
  }
  if (hit) hit->fired++;
  return hit;
}

/* ---- read ---- */
ssize_t read(int fd, void *buf, size_t n) {
  REAL(ssize_t, read, int, void *, size_t);
  if (!armed) return real(fd, buf, n);
  if (fd == 0) {
    tick();
    int32_t c = 0;
    if (S->in_ichunk < S->in_nchunk) c = S->in_chunk[S->in_ichunk++];
    if (c < 0) { S->in_eintr++; log_ev(EV_READ0, 0, -1, -c, 0, 0, 1); errno = -c; return -1; }
    if (S->lean && S->in_pos == S->in_len) S->in_pos = 0;
    uint32_t left = S->in_len - S->in_pos;
    if (!left) {
      S->in_reads_after_eof++;
      if (S->in_end_errno) { log_ev(EV_READ0, 0, -1, S->in_end_errno, 0, 0, 1); errno = S->in_end_errno; return -1; }
      log_ev(EV_READ0, 0, 0, 0, 0, 0, 0); return 0;
    }
    size_t m = n; if (m > left) m = left; if (c > 0 && m > (size_t)c) { m = c; S->in_short++; }
    memcpy(buf, S->in_data + S->in_pos, m); S->in_pos += m;
    if (!S->lean) log_ev(EV_READ0, 0, m, 0, 0, 0, 0);
    return m;
  }
  if (fd > 2 && fd < 1024 && tracked[fd]) {
    tick();
    rule_t *r = match_rule(OP_READ, fdpath[fd]);
    if (r) {
      if (r->action == ACT_ERRNO) { log_ev(EV_FREAD, fd, -1, r->arg, fdpath[fd], strlen(fdpath[fd]), 1); errno = r->arg; return -1; }
      if (r->action == ACT_EOF) { log_ev(EV_FREAD, fd, 0, 0, fdpath[fd], strlen(fdpath[fd]), 1); return 0; }
      if (r->action == ACT_SHORT && n > (size_t)r->arg) n = r->arg;
    }
    ssize_t k = real(fd, buf, n);
    log_ev(EV_FREAD, fd, k, k < 0 ? errno : 0, fdpath[fd], strlen(fdpath[fd]), r != NULL);
    return k;
  }
  return real(fd, buf, n);
}

/* ---- write ---- */
static ssize_t vwrite(int fd, const void *buf, size_t n) {
  int j = fd - 1;
  tick();
  int32_t c = 0;
  if (S->out_ichunk[j] < S->out_nchunk[j]) c = S->out_chunk[j][S->out_ichunk[j]++];
  if (c < 0) { S->out_eintr[j]++; log_ev(EV_WRITE, fd, -1, -c, 0, 0, 1); errno = -c; return -1; }
  size_t m = n;
  int f = 0;
  if (c > 0 && m > (size_t)c) { m = c; S->out_short[j]++; f = 1; }
  if (S->out_cap[j] >= 0) {
    int64_t room = S->out_cap[j] - S->out_total[j];
    if (room <= 0 && n > 0) { S->out_err[j]++; log_ev(EV_WRITE, fd, -1, S->out_errno[j], 0, 0, 1); errno = S->out_errno[j]; return -1; }
    if ((int64_t)m > room) { m = room; f = 1; }
  }
  if (S->out_total[0] + S->out_total[1] + (int64_t)m > (int64_t)S->max_out) { S->flood = 1; _exit(97); }
  S->out_total[j] += m;
  if (S->lean && fd == 1) {
    size_t k = m < sizeof S->tail ? m : sizeof S->tail;
    memmove(S->tail, S->tail + k, sizeof S->tail - k);
    memcpy(S->tail + sizeof S->tail - k, (const char *)buf + m - k, k);
    return m;
  }
  log_ev(EV_WRITE, fd, m, 0, buf, m, f);
  return m;
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (!armed) return raw_write(fd, buf, n);
  if (fd == 1 || fd == 2) return vwrite(fd, buf, n);
  if (fd > 2 && fd < 1024 && tracked[fd]) {
    tick();
    rule_t *r = match_rule(OP_WRITE, fdpath[fd]);
    if (r) {
      if (r->action == ACT_ERRNO) { log_ev(EV_FWRITE, fd, -1, r->arg, fdpath[fd], strlen(fdpath[fd]), 1); errno = r->arg; return -1; }
      if (r->action == ACT_SHORT && n > (size_t)r->arg) n = r->arg;
    }
    ssize_t k = raw_write(fd, buf, n);
    log_ev(EV_FWRITE, fd, k, k < 0 ? errno : 0, fdpath[fd], strlen(fdpath[fd]), r != NULL);
    return k;
  }
  return raw_write(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!armed || (fd != 1 && fd != 2)) return real(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t k = vwrite(fd, v[i].iov_base, v[i].iov_len);
    if (k < 0) return t ? t : k;
    t += k;
    if ((size_t)k < v[i].iov_len) break;
  }
  return t;
}

/* ---- open ---- */
static int hooked_open(int dirfd, const char *path, int flags, mode_t mode) {
  REAL(int, openat64, int, const char *, int, mode_t);
  if (!armed || !path || !is_src(path)) return real(dirfd, path, flags, mode);
  tick();
  rule_t *r = match_rule(OP_OPEN, path);
  const char *p = path;
  if (r) {
    if (r->action == ACT_ERRNO) { log_ev(EV_OPEN, 255, -1, r->arg, path, strlen(path), 1); errno = r->arg; return -1; }
    if (r->action == ACT_REDIRECT) p = r->alt;
  }
  int fd = real(dirfd, p, flags, mode);
  int e = errno;
  ev_t *ev = log_ev(EV_OPEN, fd < 0 ? 255 : fd, fd < 0 ? -1 : 0, fd < 0 ? e : 0, path, strlen(path), r != NULL);
  ev->pad = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_TRUNC | O_CREAT)) ? 1 : 0;
  if (fd >= 0 && fd < 1024) { tracked[fd] = 1; strncpy(fdpath[fd], path, 127); fdpath[fd][127] = 0; S->nopen++; }
  errno = e;
  return fd;
}
int open(const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return hooked_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return hooked_open(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return hooked_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return hooked_open(d, p, f, m); }
int close(int fd) {
  REAL(int, close, int);
  if (armed && fd > 2 && fd < 1024 && tracked[fd]) { tracked[fd] = 0; S->nopen--; }
  return real(fd);
}

/* ---- stat / unlink / rename ---- */
static int stat_fault(const char *path) {
  if (!armed || !path || !is_src(path)) return 0;
  tick();
  rule_t *r = match_rule(OP_STAT, path);
  log_ev(EV_STAT, 255, r ? -1 : 0, r ? r->arg : 0, path, strlen(path), r != NULL);
  if (r) { errno = r->arg; return 1; }
  return 0;
}
int stat(const char *p, struct stat *b) { REAL(int, stat, const char *, struct stat *); return stat_fault(p) ? -1 : real(p, b); }
int stat64(const char *p, struct stat64 *b) { REAL(int, stat64, const char *, struct stat64 *); return stat_fault(p) ? -1 : real(p, b); }
int fstatat(int d, const char *p, struct stat *b, int f) { REAL(int, fstatat, int, const char *, struct stat *, int); return stat_fault(p) ? -1 : real(d, p, b, f); }
int fstatat64(int d, const char *p, struct stat64 *b, int f) { REAL(int, fstatat64, int, const char *, struct stat64 *, int); return stat_fault(p) ? -1 : real(d, p, b, f); }
int unlink(const char *p) { REAL(int, unlink, const char *); if (armed && p && is_src(p)) { tick(); log_ev(EV_UNLINK, 255, 0, 0, p, strlen(p), 0); } return real(p); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if (armed && a && b && (is_src(a) || is_src(b))) { tick(); log_ev(EV_UNLINK, 255, 0, 0, b, strlen(b), 0); } return real(a, b); }

/* ---- randomness ---- */
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  REAL(ssize_t, getrandom, void *, size_t, unsigned);
  if (!armed) return real(buf, n, fl);
  uint8_t *b = buf;
  for (size_t i = 0; i < n; i++) {
    S->rnd = S->rnd * 6364136223846793005ULL + 1442695040888963407ULL;
    b[i] = (uint8_t)(S->rnd >> 56);
  }
  return n;
}
