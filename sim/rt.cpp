// Simulator runtime.  See rt.h and DESIGN.md.
#undef _FORTIFY_SOURCE
#include "rt.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <locale.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/sendfile.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <execinfo.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <iostream>
#include <new>
#include <random>

extern "C" int fstalign_cli_main(int argc, char **argv);
int sim_csv_block_len = 1 << 24;  // read by the patched csv.h

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

// ---------------------------------------------------------------- shared arena
namespace {
const size_t ARENA = 512u << 20;
const int MAXF = 40, MAXFAULT = 24;
const size_t TRACE_CAP = 2u << 20;
const size_t CFG_CAP = 1u << 20;
const size_t MEM_CAP = 3000u << 20;

struct ShFile {
  char path[120];
  int exists, was_input, modified, opens_r, opens_w, nreads, nwrites, ncloses;
  int64_t rbytes, wbytes;
  int64_t mtime;  // seconds
  int64_t a0, a1;  // allocations made before it was first opened and when it was last closed
  size_t off, len, cap;
};
struct Shared {
  int nfiles;
  ShFile files[MAXF];
  size_t bump;
  size_t trace_len;
  int want_trace, want_sites;
  uint64_t hash, sched_hash;
  int64_t steps, allocs, io_ops, sched_points, switches, spurious, threads, eintrs, short_reads, short_writes,
      clock_jumps, escapes, decisions, sim_ns;
  int fired[MAXFAULT];
  int reason;  // K_* set by the child before a simulator-initiated exit
  int wstatus, stuck;
  size_t cfg_len;
};
Shared *S;
// which distinct call path made each of the first allocations of a run
const int64_t SITE_CAP = 150000;
uint16_t *site_log;
uint64_t site_tab[1 << 14];
uint16_t site_id[1 << 14];
int nsites = 0;
char *stack_top = nullptr;
char *arena;
char *trace_buf() { return arena + (1 << 16); }
char *cfg_buf() { return trace_buf() + TRACE_CAP; }
size_t data_start() { return (1 << 16) + TRACE_CAP + CFG_CAP; }

bool g_active = false;
__thread int in_sim = 0;
__thread int my_th = -1;
struct Guard {
  Guard() { in_sim++; }
  ~Guard() { in_sim--; }
};

Env E;
Rng R(1);
enum Op { O_OPEN, O_READ, O_WRITE, O_CLOSE, O_ALLOC, O_THREAD, O_KILL, O_NOP };
struct CF {
  Op op;
  char path[120];
  int64_t nth, off;
  int err, persist;
  int64_t seen;
};
CF cf[MAXFAULT];
int ncf = 0;
bool have_alloc_fault = false;
int64_t kill_at = -1;

uint64_t rnd() {
  S->decisions++;
  return R.next();
}
bool choosy() { return E.limit < 0 || S->decisions < E.limit; }
bool mille(int m) { return m > 0 && choosy() && (int)(rnd() % 1000) < m; }

void ev(const char *fmt, ...) {
  char b[256];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  S->hash = fnv(b, n, S->hash);
  if (S->want_trace && S->trace_len + n + 1 < TRACE_CAP) {
    memcpy(trace_buf() + S->trace_len, b, n);
    S->trace_len += n;
    trace_buf()[S->trace_len++] = '\n';
  }
}
[[noreturn]] void sim_exit(int reason) {
  S->reason = reason;
  syscall(SYS_exit_group, 90 + reason);
  __builtin_unreachable();
}
void fire(int i, const char *what) {
  S->fired[i]++;
  if (S->fired[i] <= 3) ev("FAULT %d %s %s", i, what, cf[i].path);
}
inline void step() {
  int64_t s = ++S->steps;
  if (s == kill_at) {
    for (int i = 0; i < ncf; i++)
      if (cf[i].op == O_KILL) fire(i, "kill");
    sim_exit(K_KILLED);
  }
  if (s > E.cap) sim_exit(K_STEPCAP);
}

// ---------------------------------------------------------------- virtual time
int64_t real_off = 0;
void advance(int64_t ns) { S->sim_ns += ns; }

// ---------------------------------------------------------------- threads
enum TS { T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_DONE };
struct Th {
  int st;
  const void *on;
  const void *mutex;  // to re-acquire after a cond wait
  bool timed, timed_out, detached;
  int64_t deadline;
  void *(*fn)(void *);
  void *arg, *ret;
  pthread_t real;
  int go;  // futex
  int tid;
};
const int MAXT = 32;
Th th[MAXT];
int nth_ = 0, cur = 0;
struct Mx {
  const void *a;
  int owner, count;
};
Mx mx[256];
int nmx = 0;
Mx *find_mx(const void *a) {
  for (int i = 0; i < nmx; i++)
    if (mx[i].a == a) return &mx[i];
  return nullptr;
}
void futex_wait(int *p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(int *p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void park(int me) {
  while (!__atomic_load_n(&th[me].go, __ATOMIC_ACQUIRE)) futex_wait(&th[me].go, 0);
  __atomic_store_n(&th[me].go, 0, __ATOMIC_RELEASE);
}
void unpark(int t) {
  __atomic_store_n(&th[t].go, 1, __ATOMIC_RELEASE);
  futex_wake(&th[t].go);
}
// Choose who runs next.  `me` may be blocked or done.
void reschedule(int me, bool may_stay) {
  S->sched_points++;
  int run[MAXT], n = 0, ntimed = 0, ncond = 0;
  for (int i = 0; i < nth_; i++) {
    if (th[i].st == T_RUN) run[n++] = i;
    if (th[i].st == T_COND) ncond++;
    if ((th[i].st == T_COND || th[i].st == T_SLEEP || th[i].st == T_MUTEX) && th[i].timed) ntimed++;
  }
  if (ncond && mille(E.spurious)) {
    int k = (int)(rnd() % ncond);
    for (int i = 0; i < nth_; i++)
      if (th[i].st == T_COND && k-- == 0) {
        th[i].st = T_RUN;
        run[n++] = i;
        S->spurious++;
        ev("spurious wake t%d", i);
        break;
      }
  }
  if (ntimed && (n == 0 || (E.sched && mille(30)))) {
    int best = -1;
    for (int i = 0; i < nth_; i++)
      if (th[i].timed && (th[i].st == T_COND || th[i].st == T_SLEEP || th[i].st == T_MUTEX))
        if (best < 0 || th[i].deadline < th[best].deadline) best = i;
    if (th[best].deadline > S->sim_ns) S->sim_ns = th[best].deadline;
    th[best].st = T_RUN;
    th[best].timed_out = true;
    run[n++] = best;
  }
  if (n == 0) {
    ev("DEADLOCK");
    sim_exit(K_DEADLOCK);
  }
  int pick = run[0];
  bool me_ok = may_stay && th[me].st == T_RUN;
  if (n == 1) {
    pick = run[0];
  } else if (E.sched == 0 || !choosy()) {
    pick = me_ok ? me : run[0];
  } else {
    if (me_ok && (rnd() & 1))
      pick = me;
    else
      pick = run[rnd() % n];
    S->sched_hash = fnv(&pick, sizeof pick, S->sched_hash);
  }
  if (pick != me) {
    S->switches++;
    ev("switch t%d->t%d", me, pick);
    cur = pick;
    unpark(pick);
    if (th[me].st != T_DONE) park(me);
  }
}
void sched_point() {
  if (nth_ > 1) reschedule(my_th, true);
}
void lock_mx(const void *a, bool rec) {
  for (;;) {
    Mx *m = find_mx(a);
    if (!m) {
      if (nmx == 256) {
        int k = 0;
        for (int i = 0; i < nmx; i++)
          if (mx[i].owner >= 0) mx[k++] = mx[i];
        nmx = k;
        if (nmx == 256) sim_exit(K_STUCK);
      }
      m = &mx[nmx++];
      *m = {a, my_th, 1};
      return;
    }
    if (m->owner < 0) {
      m->owner = my_th;
      m->count = 1;
      return;
    }
    if (m->owner == my_th && rec) {
      m->count++;
      return;
    }
    th[my_th].st = T_MUTEX;
    th[my_th].on = a;
    th[my_th].timed = false;
    reschedule(my_th, false);
  }
}
void unlock_mx(const void *a) {
  Mx *m = find_mx(a);
  if (!m || m->owner != my_th) {
    ev("unlock of a mutex not held");
    return;
  }
  if (--m->count > 0) return;
  m->owner = -1;
  for (int i = 0; i < nth_; i++)
    if (th[i].st == T_MUTEX && th[i].on == a) th[i].st = T_RUN;
}
bool is_rec(pthread_mutex_t *m) { return (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP; }

// ---------------------------------------------------------------- files
const int FD0 = 100000, MAXFD = 64;
struct Fd {
  int used, file, flags, owner_file;
  int64_t pos;
  FILE *fp;
  bool append, rd, wr, dir;
};
Fd fds[MAXFD];
// scratch places are simulated like the run's own directory, as what one run leaves there the next one finds
bool handled(const char *p) {
  if (!p || !*p) return false;
  for (auto d : {"/sim/", "/tmp/", "/var/tmp/", "/dev/shm/"})
    if (strncmp(p, d, strlen(d)) == 0) return true;
  return p[0] != '/';
}
bool is_sim_dir(const char *p) { return p && (strcmp(p, "/sim") == 0 || strcmp(p, "/sim/") == 0); }
ShFile *find_file(const char *p) {
  for (int i = 0; i < S->nfiles; i++)
    if (strcmp(S->files[i].path, p) == 0) return &S->files[i];
  return nullptr;
}
ShFile *make_file(const char *p) {
  ShFile *f = find_file(p);
  if (f) return f;
  if (S->nfiles >= MAXF || strlen(p) >= sizeof f->path) return nullptr;
  f = &S->files[S->nfiles++];
  memset(f, 0, sizeof *f);
  strcpy(f->path, p);
  return f;
}
void ensure(ShFile *f, size_t need) {
  if (need <= f->cap) return;
  size_t cap = f->cap ? f->cap : 4096;
  while (cap < need) cap *= 2;
  if (S->bump + cap > ARENA) sim_exit(K_MEMCAP);
  if (f->len) memcpy(arena + S->bump, arena + f->off, f->len);
  f->off = S->bump;
  f->cap = cap;
  S->bump += (cap + 63) & ~63ull;
}
bool fmatch(const CF &c, const char *path) { return c.path[0] == 0 || strcmp(c.path, path) == 0; }
// returns errno to inject or 0
int fault_at(Op op, const char *path) {
  for (int i = 0; i < ncf; i++)
    if (cf[i].op == op && fmatch(cf[i], path)) {
      cf[i].seen++;
      if (cf[i].seen == cf[i].nth || (cf[i].persist && cf[i].seen > cf[i].nth)) {
        fire(i, op == O_OPEN ? "open" : op == O_READ ? "read" : op == O_CLOSE ? "close" : "op");
        return cf[i].err;
      }
    }
  return 0;
}
int sim_open(const char *path, int flags) {
  step();
  S->io_ops++;
  advance(20000);
  int e = fault_at(O_OPEN, path);
  bool wr = (flags & O_ACCMODE) != O_RDONLY, rd = (flags & O_ACCMODE) != O_WRONLY;
  if (e) {
    ev("open %s %s -> errno %d", path, wr ? "w" : "r", e);
    errno = e;
    return -1;
  }
  ShFile *f = find_file(path);
  if (!f || !f->exists) {
    if (!(flags & O_CREAT)) {
      ev("open %s -> ENOENT", path);
      errno = ENOENT;
      return -1;
    }
    f = make_file(path);
    if (!f) {
      errno = ENOSPC;
      return -1;
    }
    f->exists = 1;
    f->len = 0;
    f->modified = 1;
    f->mtime = E.clock0 + S->sim_ns / 1000000000;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  }
  if (flags & O_TRUNC) {
    if (f->len) f->modified = 1;
    f->len = 0;
    f->mtime = E.clock0 + S->sim_ns / 1000000000;
  }
  int k = -1;
  for (int i = 3; i < MAXFD; i++)
    if (!fds[i].used) {
      k = i;
      break;
    }
  if (k < 0) {
    errno = EMFILE;
    return -1;
  }
  fds[k] = Fd();
  fds[k].used = 1;
  fds[k].file = (int)(f - S->files);
  fds[k].rd = rd;
  fds[k].wr = wr;
  fds[k].append = flags & O_APPEND;
  if (f->opens_r + f->opens_w == 0) f->a0 = S->allocs;
  if (wr)
    f->opens_w++;
  else
    f->opens_r++;
  ev("open %s flags %x -> %d", path, flags, k);
  return k;
}
ssize_t sim_read(int k, void *buf, size_t n, bool fdlevel) {
  step();
  S->io_ops++;
  Fd &d = fds[k];
  if (!d.used || !d.rd) {
    errno = EBADF;
    return -1;
  }
  ShFile *f = &S->files[d.file];
  f->nreads++;
  advance(30000 + (E.chunk ? (int64_t)(R.s >> 44) : 0));
  int e = fault_at(O_READ, f->path);
  if (e) {
    ev("read %s @%ld -> errno %d", f->path, (long)d.pos, e);
    errno = e;
    return -1;
  }
  if (fdlevel && mille(E.eintr)) {
    S->eintrs++;
    ev("read %s -> EINTR", f->path);
    errno = EINTR;
    return -1;
  }
  size_t left = d.pos < (int64_t)f->len ? f->len - d.pos : 0;
  size_t m = n < left ? n : left;
  if (E.chunk && m > 1 && choosy()) {
    int mode = E.chunk;
    if (mode == 4) {
      mode = (int)(rnd() % 5);
    }
    size_t cap = mode == 0 ? m : mode == 1 ? 1 + rnd() % 7 : mode == 2 ? 1 + rnd() % 64 : 1 + rnd() % 1024;
    if (cap < m) {
      m = cap;
      S->short_reads++;
    }
  }
  if (m) memcpy(buf, arena + f->off + d.pos, m);
  d.pos += m;
  f->rbytes += m;
  ev("read %s %zu -> %zu", f->path, n, m);
  return m;
}
ssize_t sim_write(int k, const void *buf, size_t n, bool fdlevel) {
  step();
  S->io_ops++;
  Fd &d = fds[k];
  if (!d.used || !d.wr) {
    errno = EBADF;
    return -1;
  }
  ShFile *f = &S->files[d.file];
  f->nwrites++;
  advance(40000);
  f->mtime = E.clock0 + S->sim_ns / 1000000000;
  if (d.append) d.pos = f->len;
  size_t m = n;
  for (int i = 0; i < ncf; i++)
    if (cf[i].op == O_WRITE && fmatch(cf[i], f->path)) {
      if (cf[i].seen && !cf[i].persist) continue;
      int64_t room = cf[i].off - f->wbytes;
      if (room <= 0 || (cf[i].seen && cf[i].persist)) {
        cf[i].seen++;
        fire(i, "write");
        ev("write %s @%ld -> errno %d", f->path, (long)d.pos, cf[i].err);
        errno = cf[i].err;
        return -1;
      }
      if ((int64_t)m > room) m = room;
    }
  if (fdlevel && mille(E.eintr)) {
    S->eintrs++;
    ev("write %s -> EINTR", f->path);
    errno = EINTR;
    return -1;
  }
  if (E.wshort && m > 1 && choosy()) {
    size_t cap = 1 + rnd() % E.wshort;
    if (cap < m) {
      m = cap;
      S->short_writes++;
    }
  }
  ensure(f, d.pos + m);
  if (d.pos > (int64_t)f->len) memset(arena + f->off + f->len, 0, d.pos - f->len);
  memcpy(arena + f->off + d.pos, buf, m);
  d.pos += m;
  if (d.pos > (int64_t)f->len) f->len = d.pos;
  f->wbytes += m;
  f->modified = 1;
  if (d.file < 2)
    ev("write %s %zu", f->path, m);  // console text carries time stamps: hash sizes only
  else
    ev("write %s %zu %016lx", f->path, m, (unsigned long)fnv(buf, m));
  return m;
}
int64_t sim_lseek(int k, int64_t off, int wh) {
  Fd &d = fds[k];
  if (!d.used) {
    errno = EBADF;
    return -1;
  }
  if (k <= 2) {
    errno = ESPIPE;
    return -1;
  }
  int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? d.pos + off : (int64_t)S->files[d.file].len + off;
  if (p < 0) {
    errno = EINVAL;
    return -1;
  }
  d.pos = p;
  return p;
}
int sim_close(int k) {
  step();
  Fd &d = fds[k];
  if (!d.used) {
    errno = EBADF;
    return -1;
  }
  ShFile *f = &S->files[d.file];
  bool wr = d.wr;
  d.used = 0;
  f->ncloses++;
  f->a1 = S->allocs;
  if (wr) {
    int e = fault_at(O_CLOSE, f->path);
    if (e) {
      ev("close %s -> errno %d", f->path, e);
      errno = e;
      return -1;
    }
  }
  ev("close %s", f->path);
  return 0;
}
void fill_stat(struct stat *st, ShFile *f, bool dir, bool chr) {
  memset(st, 0, sizeof *st);
  st->st_mode = dir ? (S_IFDIR | 0755) : chr ? (S_IFCHR | 0620) : (S_IFREG | 0644);
  st->st_size = f ? f->len : 0;
  st->st_nlink = 1;
  st->st_blksize = 4096;
  st->st_ino = f ? (f - S->files) + 10 : 2;
  st->st_mtime = st->st_ctime = st->st_atime = f ? f->mtime : E.clock0;
}
// stdio cookies
ssize_t ck_read(void *c, char *b, size_t n) {
  Guard g;
  ssize_t r = sim_read((int)(intptr_t)c, b, n, false);
  sched_point();
  return r;
}
ssize_t ck_write(void *c, const char *b, size_t n) {
  Guard g;
  // stdio contract: 0 (with errno) on error, short counts are retried by stdio
  size_t done = 0;
  while (done < n) {
    ssize_t r = sim_write((int)(intptr_t)c, b + done, n - done, false);
    if (r < 0) return done ? (ssize_t)done : 0;
    done += r;
  }
  return done;
}
int ck_seek(void *c, off64_t *o, int wh) {
  Guard g;
  int64_t r = sim_lseek((int)(intptr_t)c, *o, wh);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
int ck_close(void *c) {
  Guard g;
  return sim_close((int)(intptr_t)c);
}
FILE *open_cookie(int k, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie((void *)(intptr_t)k, mode, io);
  if (fp) fds[k].fp = fp;
  return fp;
}
int mode_flags(const char *m) {
  int f;
  bool plus = strchr(m, '+');
  if (m[0] == 'r')
    f = plus ? O_RDWR : O_RDONLY;
  else if (m[0] == 'w')
    f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else
    f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'x')) f |= O_EXCL;
  return f;
}
template <class F>
F real(const char *name) {
  return (F)dlsym(RTLD_NEXT, name);
}
inline bool simfd(int fd) { return g_active && fd >= FD0 && fd < FD0 + MAXFD; }
inline int std_map(int fd) { return fd; }

// ---------------------------------------------------------------- memory
const uint64_t HMAGIC = 0x5AFEB10C0FF1CE42ull, HFREED = 0xDEADB10CDEADB10Cull;
struct Hdr {
  size_t n;
  uint64_t magic;
};
size_t live_bytes = 0;
uint64_t fill_ctr = 1;
void fill(void *p, size_t n, int mode, uint64_t &ctr) {
  if (n > (256u << 10)) n = 256u << 10;
  switch (mode) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, 0xa5, n); break;
    case 4: memset(p, 0x01, n); break;
    default: {
      unsigned char *c = (unsigned char *)p;
      uint64_t z = (ctr += 0x9E3779B97F4A7C15ull);
      for (size_t i = 0; i < n; i++) {
        z ^= z << 13;
        z ^= z >> 7;
        z ^= z << 17;
        unsigned char b = (unsigned char)(z >> 24);
        c[i] = b;
      }
    }
  }
}
// Whatever lies below the stack pointer is dead: overwrite it now and then, so that a variable
// read before it is set holds something else in each environment.
template <size_t N>
void __attribute__((noinline)) scrub_stack() {
  unsigned char buf[N];
  switch (E.stack_fill) {
    case 0: memset(buf, 0, N); break;
    case 1: memset(buf, 0xff, N); break;
    case 2: memset(buf, 0xa5, N); break;
    case 4: memset(buf, 0x01, N); break;
    default: {
      uint64_t *w = (uint64_t *)(((uintptr_t)buf + 7) & ~(uintptr_t)7), z = (uint64_t)S->allocs * 0x9E3779B97F4A7C15ull ^ E.seed;
      for (size_t i = 0; i < N / 8 - 1; i++) {
        z ^= z << 13;
        z ^= z >> 7;
        z ^= z << 17;
        w[i] = z;
      }
    }
  }
  asm volatile("" : : "r"(buf) : "memory");
}
void note_site(void **fp) {
  uint64_t h = 1469598103934665603ull;
  char *lo = (char *)fp;
  if (my_th == 0)
    for (int k = 0; k < 9 && (char *)fp >= lo && (char *)(fp + 2) <= stack_top && !((uintptr_t)fp & 7); k++) {
      h = (h ^ (uintptr_t)fp[1]) * 1099511628211ull;
      if ((char *)fp[0] <= (char *)fp) break;
      fp = (void **)fp[0];
    }
  if (!h) h = 1;
  size_t i = (h ^ h >> 29) & ((1 << 14) - 1);
  while (site_tab[i] && site_tab[i] != h) i = (i + 1) & ((1 << 14) - 1);
  if (!site_tab[i]) {
    if (nsites > 12000) return;
    site_tab[i] = h;
    site_id[i] = ++nsites;
  }
  site_log[S->allocs - 1] = site_id[i];
}
bool alloc_step() {  // true: fail this one
  if (!g_active || in_sim) return false;
  if (my_th < 0) return false;  // thread already past its simulated life
  step();
  S->allocs++;
  if (S->want_sites && S->allocs <= SITE_CAP) note_site((void **)__builtin_frame_address(0));
  if ((S->allocs & 3) == 0 && S->allocs < 2000000) {
    if (S->allocs & 255) scrub_stack<3 << 10>();
    else scrub_stack<24 << 10>();
  }
  if (have_alloc_fault)
    for (int i = 0; i < ncf; i++)
      if (cf[i].op == O_ALLOC) {
        int64_t a = S->allocs;
        if (a == cf[i].nth || (cf[i].persist && a > cf[i].nth && a < cf[i].nth + cf[i].persist)) {
          Guard g;
          fire(i, "alloc");
          return true;
        }
      }
  return false;
}
void *cxx_alloc(size_t n) {
  size_t pad = 0;
  bool act = g_active && !in_sim;
  // a length field gone wrong asks for everything at once: such a request is refused; what grows
  // step by step has half of it already and runs into the bound
  if (act && my_th >= 0 && n > MEM_CAP / 8 && live_bytes < n / 4) return nullptr;
  if (act && E.heap_shuffle && my_th >= 0 && n < 4096) pad = ((fill_ctr = fill_ctr * 6364136223846793005ull + 1442695040888963407ull) >> 60) * 16;
  Hdr *h = (Hdr *)__libc_malloc(sizeof(Hdr) + n + 8 + pad);
  if (!h) return nullptr;
  h->n = n;
  h->magic = HMAGIC;
  char *u = (char *)(h + 1);
  if (act && my_th >= 0) {
    fill(u, n, E.heap_fill, fill_ctr);
    live_bytes += n;
    if (live_bytes > MEM_CAP) sim_exit(K_MEMCAP);
  }
  uint64_t can = HMAGIC ^ n;
  memcpy(u + n, &can, 8);
  return u;
}
void cxx_free(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  uint64_t can;
  if (h->magic != HMAGIC) {
    if (g_active) {
      ev("HEAP bad free");
      sim_exit(K_HEAP);
    }
    abort();
  }
  memcpy(&can, (char *)p + h->n, 8);
  if (can != (HMAGIC ^ h->n)) {
    if (g_active) {
      ev("HEAP overrun of a %zu byte block", h->n);
      sim_exit(K_HEAP);
    }
    abort();
  }
  h->magic = HFREED;
  if (g_active && my_th >= 0) {
    live_bytes -= h->n;
    size_t n = h->n > 4096 ? 4096 : h->n;
    memset(p, 0xdb, n);
  }
  __libc_free(h);
}
}  // namespace

// ================================================================ interposers
void *operator new(size_t n) {
  if (alloc_step()) throw std::bad_alloc();
  void *p = cxx_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return alloc_step() ? nullptr : cxx_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return alloc_step() ? nullptr : cxx_alloc(n); }
void operator delete(void *p) noexcept { cxx_free(p); }
void operator delete[](void *p) noexcept { cxx_free(p); }
void operator delete(void *p, size_t) noexcept { cxx_free(p); }
void operator delete[](void *p, size_t) noexcept { cxx_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { cxx_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { cxx_free(p); }

extern "C" {
void *malloc(size_t n) {
  if (alloc_step()) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = __libc_malloc(n);
  if (p && g_active && !in_sim && my_th >= 0 && n < (32u << 20)) fill(p, n, E.heap_fill, fill_ctr);
  return p;
}
void *calloc(size_t a, size_t b) {
  if (alloc_step()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
  if (alloc_step()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_realloc(p, n);
}
void free(void *p) { __libc_free(p); }

FILE *fopen64(const char *path, const char *mode) {
  if (g_active && handled(path)) {
    Guard g;
    int k = sim_open(path, mode_flags(mode));
    sched_point();
    if (k < 0) return nullptr;
    FILE *fp = open_cookie(k, mode);
    if (!fp) fds[k].used = 0;
    return fp;
  }
  if (g_active) {
    Guard g;
    if (is_sim_dir(path)) {
      errno = EISDIR;
      return nullptr;
    }
    S->escapes++;
    ev("ESCAPE fopen %s", path);
    if (mode[0] != 'r' || strchr(mode, '+')) {
      errno = EACCES;
      return nullptr;
    }
  }
  static auto r = real<FILE *(*)(const char *, const char *)>("fopen64");
  return r(path, mode);
}
FILE *fopen(const char *path, const char *mode) { return fopen64(path, mode); }
static int open_common(const char *path, int flags) {
  Guard g;
  int k = sim_open(path, flags);
  sched_point();
  return k < 0 ? -1 : FD0 + k;
}
int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int m = va_arg(ap, int);
  va_end(ap);
  if (g_active && handled(path)) return open_common(path, flags);
  if (g_active && (flags & O_ACCMODE) != O_RDONLY) {
    Guard g;
    S->escapes++;
    errno = EACCES;
    return -1;
  }
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags | O_LARGEFILE, m);
}
int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int m = va_arg(ap, int);
  va_end(ap);
  return open64(path, flags, m);
}
int fileno(FILE *fp) {
  if (g_active) {
    for (int i = 0; i < MAXFD; i++)
      if (fds[i].used && fds[i].fp == fp) return FD0 + i;
  }
  static auto r = real<int (*)(FILE *)>("fileno");
  return r(fp);
}
int fileno_unlocked(FILE *fp) { return fileno(fp); }
ssize_t read(int fd, void *b, size_t n) {
  if (simfd(fd)) {
    Guard g;
    ssize_t r = sim_read(fd - FD0, b, n, true);
    int e = errno;
    sched_point();
    errno = e;
    return r;
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (g_active && (fd == 1 || fd == 2)) fd = FD0 + fd;
  if (simfd(fd)) {
    Guard g;
    ssize_t r = sim_write(fd - FD0, b, n, true);
    int e = errno;
    sched_point();
    errno = e;
    return r;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (simfd(fd)) {
    Guard g;
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
      if (!v[i].iov_len) continue;
      ssize_t r = sim_write(fd - FD0, v[i].iov_base, v[i].iov_len, i == 0 || tot == 0);
      if (r < 0) return tot ? tot : -1;
      tot += r;
      if (r < (ssize_t)v[i].iov_len) break;
    }
    return tot;
  }
  return syscall(SYS_writev, fd, v, c);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept {
  if (simfd(fd)) {
    Guard g;
    return sim_lseek(fd - FD0, o, w);
  }
  return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
int close(int fd) {
  if (simfd(fd)) {
    Guard g;
    return sim_close(fd - FD0);
  }
  return (int)syscall(SYS_close, fd);
}
int fsync(int fd) {
  if (simfd(fd)) return 0;
  return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
  if (simfd(fd)) return 0;
  return (int)syscall(SYS_fdatasync, fd);
}
int ftruncate64(int fd, off64_t n) noexcept {
  if (simfd(fd)) {
    Guard g;
    ShFile *f = &S->files[fds[fd - FD0].file];
    ensure(f, n);
    if (n > (off64_t)f->len) memset(arena + f->off + f->len, 0, n - f->len);
    f->len = n;
    f->modified = 1;
    return 0;
  }
  return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) noexcept { return ftruncate64(fd, n); }
int fstat64(int fd, struct stat64 *st) noexcept {
  if (simfd(fd)) {
    Guard g;
    int k = fd - FD0;
    if (!fds[k].used) {
      errno = EBADF;
      return -1;
    }
    fill_stat((struct stat *)st, &S->files[fds[k].file], false, k <= 2);
    return 0;
  }
  return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
int fstat(int fd, struct stat *st) noexcept { return fstat64(fd, (struct stat64 *)st); }
int stat64(const char *p, struct stat64 *st) noexcept {
  if (g_active && (handled(p) || is_sim_dir(p))) {
    Guard g;
    ShFile *f = find_file(p);
    if (is_sim_dir(p)) {
      fill_stat((struct stat *)st, nullptr, true, false);
      return 0;
    }
    if (!f || !f->exists) {
      errno = ENOENT;
      return -1;
    }
    fill_stat((struct stat *)st, f, false, false);
    return 0;
  }
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int stat(const char *p, struct stat *st) noexcept { return stat64(p, (struct stat64 *)st); }
int lstat64(const char *p, struct stat64 *st) noexcept {
  if (g_active && (handled(p) || is_sim_dir(p))) return stat64(p, st);
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int lstat(const char *p, struct stat *st) noexcept { return lstat64(p, (struct stat64 *)st); }
int access(const char *p, int m) noexcept {
  if (g_active && (handled(p) || is_sim_dir(p))) {
    Guard g;
    ShFile *f = find_file(p);
    if (is_sim_dir(p) || (f && f->exists)) return 0;
    errno = ENOENT;
    return -1;
  }
  return (int)syscall(SYS_access, p, m);
}
int mkdir(const char *p, mode_t m) noexcept {
  if (g_active) {
    errno = (handled(p) || is_sim_dir(p)) ? EEXIST : EACCES;
    return -1;
  }
  return (int)syscall(SYS_mkdir, p, m);
}
int unlink(const char *p) noexcept {
  if (g_active) {
    Guard g;
    ShFile *f = handled(p) ? find_file(p) : nullptr;
    if (!f || !f->exists) {
      errno = handled(p) ? ENOENT : EACCES;
      return -1;
    }
    step();
    f->exists = 0;
    f->modified = 1;
    f->len = 0;
    ev("unlink %s", p);
    return 0;
  }
  return (int)syscall(SYS_unlink, p);
}
int remove(const char *p) noexcept {
  if (g_active) return unlink(p);
  static auto r = real<int (*)(const char *)>("remove");
  return r(p);
}
int rename(const char *a, const char *b) noexcept {
  if (g_active) {
    Guard g;
    ShFile *f = handled(a) ? find_file(a) : nullptr;
    if (!f || !f->exists || !handled(b)) {
      errno = handled(a) ? ENOENT : EACCES;
      return -1;
    }
    step();
    ShFile *t = make_file(b);
    t->off = f->off;
    t->len = f->len;
    t->cap = f->cap;
    t->mtime = f->mtime;
    t->exists = 1;
    t->modified = 1;
    f->exists = 0;
    f->modified = 1;
    f->len = f->cap = 0;
    ev("rename %s %s", a, b);
    return 0;
  }
  return (int)syscall(SYS_rename, a, b);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void *a = va_arg(ap, void *);
  va_end(ap);
  if (simfd(fd)) {
    Guard g;
    Fd &d = fds[fd - FD0];
    if (req == FIONREAD) {
      int64_t left = (int64_t)S->files[d.file].len - d.pos;
      *(int *)a = left > 0 ? (int)left : 0;
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return (int)syscall(SYS_ioctl, fd, req, a);
}
int poll(struct pollfd *p, nfds_t n, int t) {
#pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
  if (g_active) {
    for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events;
    return (int)n;
  }
  return (int)syscall(SYS_poll, p, n, t);
}
int isatty(int fd) noexcept {
  if (g_active) {
    if (fd == 1 || fd == 2 || fd == FD0 + 1 || fd == FD0 + 2) {
      if (!E.tty) errno = ENOTTY;
      return E.tty;
    }
    errno = ENOTTY;
    return 0;
  }
  struct {
    char b[128];
  } t;
  return syscall(SYS_ioctl, fd, TCGETS, &t) == 0;
}
int mkostemps(char *t, int suf, int flags) {
  size_t n = strlen(t);
  if ((int)n < 6 + suf || strncmp(t + n - suf - 6, "XXXXXX", 6) != 0) {
    errno = EINVAL;
    return -1;
  }
  for (int k = 0; k < 100; k++) {
    uint64_t x = 0;
    if (g_active) x = rnd();
    else syscall(SYS_getrandom, &x, sizeof x, 0);
    for (int i = 0; i < 6; i++, x /= 36) t[n - suf - 6 + i] = "abcdefghijklmnopqrstuvwxyz0123456789"[x % 36];
    int fd = open64(t, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
int mkostemps64(char *t, int suf, int flags) { return mkostemps(t, suf, flags); }
int mkstemps(char *t, int suf) { return mkostemps(t, suf, 0); }
int mkstemps64(char *t, int suf) { return mkostemps(t, suf, 0); }
int mkostemp(char *t, int flags) { return mkostemps(t, 0, flags); }
int mkostemp64(char *t, int flags) { return mkostemps(t, 0, flags); }
int mkstemp(char *t) { return mkostemps(t, 0, 0); }
int mkstemp64(char *t) { return mkostemps(t, 0, 0); }

// ---- the rest of the file interface: nothing the code under test reaches for may fall through to the real disk
#define HIDDEN_FD(fd) (g_active && simfd(fd))
static bool sim_path(const char *p) { return g_active && (handled(p) || is_sim_dir(p)); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (simfd(fd)) {
    Guard g;
    Fd &d = fds[fd - FD0];
    int64_t was = d.pos;
    d.pos = o;
    ssize_t r = sim_read(fd - FD0, b, n, true);
    int e = errno;
    fds[fd - FD0].pos = was;
    sched_point();
    errno = e;
    return r;
  }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (simfd(fd)) {
    Guard g;
    Fd &d = fds[fd - FD0];
    int64_t was = d.pos;
    d.pos = o;
    ssize_t r = sim_write(fd - FD0, b, n, true);
    int e = errno;
    fds[fd - FD0].pos = was;
    sched_point();
    errno = e;
    return r;
  }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (simfd(fd)) {
    Guard g;
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
      if (!v[i].iov_len) continue;
      ssize_t r = sim_read(fd - FD0, v[i].iov_base, v[i].iov_len, tot == 0);
      if (r < 0) return tot ? tot : -1;
      tot += r;
      if (r < (ssize_t)v[i].iov_len) break;
    }
    return tot;
  }
  return syscall(SYS_readv, fd, v, c);
}
int openat64(int at, const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int m = va_arg(ap, int);
  va_end(ap);
  if (g_active) return open64(path, flags, m);
  return (int)syscall(SYS_openat, at, path, flags | O_LARGEFILE, m);
}
int openat(int at, const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int m = va_arg(ap, int);
  va_end(ap);
  return openat64(at, path, flags, m);
}
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat(const char *p, mode_t m) { return creat64(p, m); }
int truncate64(const char *p, off64_t n) noexcept {
  if (g_active) {
    int fd = open64(p, O_WRONLY);
    if (fd < 0) return -1;
    int r = ftruncate64(fd, n);
    close(fd);
    return r;
  }
  return (int)syscall(SYS_truncate, p, n);
}
int truncate(const char *p, off_t n) noexcept { return truncate64(p, n); }
int fallocate64(int fd, int mode, off64_t o, off64_t n) {
  if (HIDDEN_FD(fd)) {
    errno = EOPNOTSUPP;
    return -1;
  }
  return (int)syscall(SYS_fallocate, fd, mode, o, n);
}
int fallocate(int fd, int mode, off_t o, off_t n) { return fallocate64(fd, mode, o, n); }
int posix_fadvise64(int fd, off64_t o, off64_t n, int a) noexcept {
  return HIDDEN_FD(fd) ? 0 : (int)-syscall(SYS_fadvise64, fd, o, n, a);
}
int posix_fadvise(int fd, off_t o, off_t n, int a) noexcept { return posix_fadvise64(fd, o, n, a); }
int fstatat64(int at, const char *p, struct stat64 *st, int fl) noexcept {
  if (g_active && simfd(at) && !*p) return fstat64(at, st);
  if (sim_path(p)) return stat64(p, st);
  return (int)syscall(SYS_newfstatat, at, p, st, fl);
}
int fstatat(int at, const char *p, struct stat *st, int fl) noexcept { return fstatat64(at, p, (struct stat64 *)st, fl); }
int statx(int at, const char *p, int fl, unsigned mask, struct statx *x) noexcept {
  if (sim_path(p)) {
    struct stat64 st;
    if (stat64(p, &st)) return -1;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_blksize = 4096;
    x->stx_mode = st.st_mode;
    x->stx_nlink = 1;
    x->stx_size = st.st_size;
    x->stx_ino = st.st_ino;
    x->stx_mtime.tv_sec = x->stx_ctime.tv_sec = x->stx_atime.tv_sec = st.st_mtime;
    return 0;
  }
  return (int)syscall(SYS_statx, at, p, fl, mask, x);
}
int faccessat(int at, const char *p, int m, int fl) noexcept {
  if (sim_path(p)) return access(p, m);
  return (int)syscall(SYS_faccessat, at, p, m, fl);
}
int euidaccess(const char *p, int m) noexcept { return access(p, m); }
int eaccess(const char *p, int m) noexcept { return access(p, m); }
int unlinkat(int at, const char *p, int fl) noexcept {
  if (g_active) return unlink(p);
  return (int)syscall(SYS_unlinkat, at, p, fl);
}
int renameat(int a, const char *p, int b, const char *q) noexcept {
  if (g_active) return rename(p, q);
  return (int)syscall(SYS_renameat, a, p, b, q);
}
int renameat2(int a, const char *p, int b, const char *q, unsigned fl) noexcept {
  if (g_active && !fl) return rename(p, q);
  if (g_active) {
    errno = EINVAL;
    return -1;
  }
  return (int)syscall(SYS_renameat2, a, p, b, q, fl);
}
int link(const char *a, const char *b) noexcept {
  if (g_active) {
    errno = EPERM;
    return -1;
  }
  return (int)syscall(SYS_link, a, b);
}
int symlink(const char *a, const char *b) noexcept {
  if (g_active) {
    errno = EPERM;
    return -1;
  }
  return (int)syscall(SYS_symlink, a, b);
}
ssize_t readlink(const char *p, char *b, size_t n) noexcept {
  if (sim_path(p)) {
    struct stat64 st;
    if (stat64(p, &st) == 0) errno = EINVAL;
    return -1;
  }
  return syscall(SYS_readlink, p, b, n);
}
int chmod(const char *p, mode_t m) noexcept {
  if (sim_path(p)) {
    struct stat64 st;
    return stat64(p, &st);
  }
  if (g_active) {
    errno = EPERM;
    return -1;
  }
  return (int)syscall(SYS_chmod, p, m);
}
int fchmod(int fd, mode_t m) noexcept { return HIDDEN_FD(fd) ? 0 : (int)syscall(SYS_fchmod, fd, m); }
int utimensat(int at, const char *p, const struct timespec *t, int fl) noexcept {
  if (sim_path(p)) {
    Guard g;
    ShFile *f = find_file(p);
    if (f && t && t[1].tv_nsec != UTIME_OMIT) f->mtime = t[1].tv_sec;
    return 0;
  }
  return (int)syscall(SYS_utimensat, at, p, t, fl);
}
int rmdir(const char *p) noexcept {
  if (g_active) {
    errno = EACCES;
    return -1;
  }
  return (int)syscall(SYS_rmdir, p);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) noexcept {
  if (HIDDEN_FD(out) || HIDDEN_FD(in)) {
    errno = ENOSYS;
    return -1;
  }
  return syscall(SYS_sendfile, out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) noexcept { return sendfile64(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t *a, int out, off64_t *b, size_t n, unsigned fl) {
  if (HIDDEN_FD(out) || HIDDEN_FD(in)) {
    errno = ENOSYS;
    return -1;
  }
  return syscall(SYS_copy_file_range, in, a, out, b, n, fl);
}
void *mmap64(void *at, size_t n, int prot, int fl, int fd, off64_t o) noexcept {
  if (fd >= 0 && simfd(fd) && !(fl & MAP_ANONYMOUS)) {  // a private copy of the file as it is now
    Guard g;
    Fd &d = fds[fd - FD0];
    if (!d.used || !d.rd || ((fl & MAP_SHARED) && (prot & PROT_WRITE))) {
      errno = EACCES;
      return MAP_FAILED;
    }
    step();
    int e = fault_at(O_READ, S->files[d.file].path);
    if (e) {
      errno = ENOMEM;
      return MAP_FAILED;
    }
    void *p = (void *)syscall(SYS_mmap, at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (fl & MAP_FIXED), -1, 0);
    if (p == MAP_FAILED) return p;
    ShFile *f = &S->files[d.file];
    if (o < (off64_t)f->len) memcpy(p, arena + f->off + o, n < f->len - o ? n : f->len - o);
    syscall(SYS_mprotect, p, n, prot);
    return p;
  }
  return (void *)syscall(SYS_mmap, at, n, prot, fl, fd, o);
}
void *mmap(void *at, size_t n, int prot, int fl, int fd, off_t o) noexcept { return mmap64(at, n, prot, fl, fd, o); }
FILE *fdopen(int fd, const char *mode) noexcept {
  if (HIDDEN_FD(fd)) {
    Guard g;
    return open_cookie(fd - FD0, mode);
  }
  static auto r = real<FILE *(*)(int, const char *)>("fdopen");
  return r(fd, mode);
}
FILE *tmpfile64(void) {
  if (g_active) {
    char t[] = "/tmp/fXXXXXX";
    int fd = mkostemps(t, 0, 0);
    return fd < 0 ? nullptr : fdopen(fd, "w+");
  }
  static auto r = real<FILE *(*)(void)>("tmpfile64");
  return r();
}
FILE *tmpfile(void) { return tmpfile64(); }
char *realpath(const char *p, char *out) noexcept {
  if (g_active) {
    struct stat64 st;
    if (!p || !*p) {
      errno = p ? ENOENT : EINVAL;
      return nullptr;
    }
    if (stat64(p, &st)) return nullptr;
    if (!out) out = (char *)malloc(4096);
    if (!out) return nullptr;
    snprintf(out, 4096, p[0] == '/' ? "%s" : "/sim/%s", p);
    return out;
  }
  static auto r = real<char *(*)(const char *, char *)>("realpath");
  return r(p, out);
}
char *getcwd(char *b, size_t n) noexcept {
  if (g_active) {
    if (!b) {
      n = n ? n : 4096;
      b = (char *)malloc(n);
      if (!b) return nullptr;
    }
    if (n < 5) {
      errno = ERANGE;
      return nullptr;
    }
    strcpy(b, "/sim");
    return b;
  }
  static auto r = real<char *(*)(char *, size_t)>("getcwd");
  return r(b, n);
}

// An environment variable the program itself asks for (not a library) may be set to anything in half of the
// environments, and is unset in the others; those the simulator sets are as it set them.
static char *sim_env(const char *name, void *caller) {
  extern char __executable_start, etext;
  char *v = nullptr;
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') {
      v = *e + n + 1;
      break;
    }
  if (!g_active || (char *)caller < &__executable_start || (char *)caller >= &etext) return v;
  for (auto k : {"TZ", "LANG", "TERM", "LC_ALL", "LC_MESSAGES", "LC_CTYPE"})
    if (strcmp(name, k) == 0) return v;
  if (((E.seed >> 20) & 1) == 0) return nullptr;
  uint64_t h = fnv(name, n, E.seed);
  static const char *const vals[] = {"1", "0", "7", "on", "/tmp/u", "tr_TR.UTF-8", "a,b", "debug"};
  return (char *)vals[h % 8];
}
char *getenv(const char *name) noexcept { return sim_env(name, __builtin_return_address(0)); }
char *secure_getenv(const char *name) noexcept { return sim_env(name, __builtin_return_address(0)); }

char *setlocale(int cat, const char *loc) noexcept {
  if (g_active) {
    Guard g;
    // locale data other than C/POSIX is not installed here; when "present", the
    // only effect the program relies on is that the call succeeds.
    if (!loc) return (char *)"C";
    if (strcmp(loc, "C") == 0 || strcmp(loc, "POSIX") == 0) return (char *)"C";
    if (!E.locale_ok) return nullptr;
    static char b[64];
    snprintf(b, sizeof b, "%s", loc[0] ? loc : E.lang.c_str());
    return b;
  }
  static auto r = real<char *(*)(int, const char *)>("setlocale");
  return r(cat, loc);
}
pid_t getpid(void) noexcept {
  if (g_active) return E.pid;
  return (pid_t)syscall(SYS_getpid);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (g_active) {
    Guard g;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)rnd();
    return n;
  }
  return syscall(SYS_getrandom, b, n, f);
}
uint32_t arc4random(void) noexcept { return (uint32_t)rnd(); }
int get_nprocs(void) noexcept { return g_active ? 1 + (int)(E.seed >> 8) % 16 : (int)real<int (*)()>("get_nprocs")(); }
long sysconf(int k) noexcept {
  if (g_active && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return get_nprocs();
  return real<long (*)(int)>("sysconf")(k);
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

}  // extern "C"
// the library's default source is the RDRAND instruction, which no seam below it reaches
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
unsigned std::random_device::_M_getval() {
  unsigned v = 0;
  getrandom(&v, sizeof v, 0);
  return v;
}
double std::random_device::_M_getentropy() const noexcept { return 32; }
extern "C" {

// ---- time
static int64_t wall_ns() {
  Guard g;
  advance(1000);
  if (mille(E.clock_jump)) {
    S->clock_jumps++;
    real_off += ((int64_t)(rnd() % 7201) - 3600) * 1000000000ll;
    ev("clock jump");
  }
  return E.clock0 * 1000000000ll + real_off + S->sim_ns;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (g_active && my_th >= 0) {
    int64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_ns() : (advance(1000), 5000000000ll + S->sim_ns);
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
static void sim_sleep(int64_t ns) {
  Guard g;
  if (nth_ > 1) {
    th[my_th].st = T_SLEEP;
    th[my_th].timed = true;
    th[my_th].deadline = S->sim_ns + ns;
    reschedule(my_th, false);
    th[my_th].timed = false;
  } else
    advance(ns);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (g_active && my_th >= 0) {
    sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec);
    return 0;
  }
  return (int)syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (g_active && my_th >= 0) {
    int64_t t = a->tv_sec * 1000000000ll + a->tv_nsec;
    if (fl & TIMER_ABSTIME) {
      struct timespec n;
      clock_gettime(c, &n);
      t -= n.tv_sec * 1000000000ll + n.tv_nsec;
    }
    if (t > 0) sim_sleep(t);
    return 0;
  }
  return (int)-syscall(SYS_clock_nanosleep, c, fl, a, b);
}
int usleep(useconds_t us) {
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec t = {(time_t)s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
int sched_yield(void) noexcept {
  if (g_active && my_th >= 0) {
    Guard g;
    step();
    sched_point();
    return 0;
  }
  return (int)syscall(SYS_sched_yield);
}

// ---- threads
static void *tramp(void *p) {
  int me = (int)(intptr_t)p;
  my_th = me;
  in_sim = 1;
  park(me);
  in_sim = 0;
  void *r = th[me].fn(th[me].arg);
  in_sim = 1;
  th[me].ret = r;
  th[me].st = T_DONE;
  for (int i = 0; i < nth_; i++)
    if (th[i].st == T_JOIN && th[i].on == &th[me]) th[i].st = T_RUN;
  ev("thread t%d ends", me);
  my_th = -1;
  reschedule(me, false);
  return r;
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) noexcept {
  static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
  if (!g_active || my_th < 0) return r(out, attr, fn, arg);
  Guard g;
  step();
  S->threads++;
  int e = fault_at(O_THREAD, "");
  if (e) {
    ev("pthread_create -> errno %d", e);
    return e;
  }
  if (nth_ >= MAXT) return EAGAIN;
  int k = nth_++;
  memset(&th[k], 0, sizeof th[k]);
  th[k].fn = fn;
  th[k].arg = arg;
  int rc = r(&th[k].real, attr, tramp, (void *)(intptr_t)k);
  if (rc) {
    nth_--;
    return rc;
  }
  *out = th[k].real;
  ev("thread t%d starts", k);
  sched_point();
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  static auto r = real<int (*)(pthread_t, void **)>("pthread_join");
  if (!g_active || my_th < 0) return r(t, ret);
  Guard g;
  step();
  for (int i = 0; i < nth_; i++)
    if (i != my_th && pthread_equal(th[i].real, t) && !th[i].detached) {
      sched_point();
      while (th[i].st != T_DONE) {
        th[my_th].st = T_JOIN;
        th[my_th].on = &th[i];
        reschedule(my_th, false);
      }
      th[i].detached = true;
      r(t, nullptr);
      if (ret) *ret = th[i].ret;
      return 0;
    }
  return r(t, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (g_active && my_th >= 0) {
    Guard g;
    step();
    sched_point();
    lock_mx(m, is_rec(m));
    return 0;
  }
  if (g_active) return 0;
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (g_active && my_th >= 0) {
    Guard g;
    step();
    sched_point();
    Mx *x = find_mx(m);
    if (x && x->owner >= 0 && !(x->owner == my_th && is_rec(m))) return EBUSY;
    lock_mx(m, is_rec(m));
    return 0;
  }
  if (g_active) return 0;
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  return r(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  if (g_active && my_th >= 0) {
    Guard g;
    step();
    unlock_mx(m);
    sched_point();
    return 0;
  }
  if (g_active) return 0;
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  return r(m);
}
static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, bool timed, int64_t deadline) {
  Guard g;
  step();
  unlock_mx(m);
  Th &t = th[my_th];
  t.st = T_COND;
  t.on = c;
  t.timed = timed;
  t.timed_out = false;
  t.deadline = deadline;
  ev("t%d waits", my_th);
  reschedule(my_th, false);
  t.timed = false;
  bool to = t.timed_out;
  t.timed_out = false;
  lock_mx(m, false);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (g_active && my_th >= 0) return cond_wait_common(c, m, false, 0);
  static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  return r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (g_active && my_th >= 0) {
    struct timespec n;
    clock_gettime(CLOCK_REALTIME, &n);
    int64_t d = (ts->tv_sec - n.tv_sec) * 1000000000ll + ts->tv_nsec - n.tv_nsec;
    return cond_wait_common(c, m, true, S->sim_ns + (d > 0 ? d : 0));
  }
  static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
  return r(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  if (g_active && my_th >= 0) {
    struct timespec n;
    clock_gettime(k, &n);
    int64_t d = (ts->tv_sec - n.tv_sec) * 1000000000ll + ts->tv_nsec - n.tv_nsec;
    return cond_wait_common(c, m, true, S->sim_ns + (d > 0 ? d : 0));
  }
  static auto r =
      real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
  return r(c, m, k, ts);
}
static void wake(pthread_cond_t *c, bool all) {
  Guard g;
  step();
  int w[MAXT], n = 0;
  for (int i = 0; i < nth_; i++)
    if (th[i].st == T_COND && th[i].on == c) w[n++] = i;
  if (n && !all) {
    int k = (E.sched && n > 1 && choosy()) ? (int)(rnd() % n) : 0;
    th[w[k]].st = T_RUN;
  } else
    for (int i = 0; i < n; i++) th[w[i]].st = T_RUN;
  sched_point();
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
  if (g_active && my_th >= 0) {
    wake(c, false);
    return 0;
  }
  static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  return r(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
  if (g_active && my_th >= 0) {
    wake(c, true);
    return 0;
  }
  static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  return r(c);
}
}  // extern "C"

// ================================================================ running
namespace {
// --- config serialisation
struct Out {
  std::string b;
  void i(int64_t v) { b.append((char *)&v, 8); }
  void s(const std::string &x) {
    i(x.size());
    b += x;
  }
};
struct In {
  const char *p;
  int64_t i() {
    int64_t v;
    memcpy(&v, p, 8);
    p += 8;
    return v;
  }
  std::string s() {
    int64_t n = i();
    std::string x(p, n);
    p += n;
    return x;
  }
};
void put_cfg(Out &o, const RunConfig &c) {
  o.i(c.argv.size());
  for (auto &a : c.argv) o.s(a);
  const Env &e = c.env;
  o.i(e.seed);
  for (int64_t v : {(int64_t)e.chunk, (int64_t)e.eintr, (int64_t)e.wshort, (int64_t)e.csv_block, (int64_t)e.heap_fill,
                    (int64_t)e.heap_shuffle, (int64_t)e.stack_fill, e.clock0, (int64_t)e.clock_jump,
                    (int64_t)e.locale_ok, (int64_t)e.tty, (int64_t)e.sched, (int64_t)e.spurious, (int64_t)e.pid,
                    (int64_t)e.limit, (int64_t)e.cap})
    o.i(v);
  o.s(e.tz);
  o.s(e.lang);
  o.i(c.faults.size());
  for (auto &f : c.faults) {
    o.s(f.op);
    o.s(f.path);
    o.i(f.nth);
    o.i(f.err);
    o.i(f.persist);
    o.i(f.off);
  }
}
std::vector<std::string> get_cfg(In &in) {
  std::vector<std::string> argv;
  int64_t n = in.i();
  while (n--) argv.push_back(in.s());
  E.seed = in.i();
  E.chunk = in.i();
  E.eintr = in.i();
  E.wshort = in.i();
  E.csv_block = in.i();
  E.heap_fill = in.i();
  E.heap_shuffle = in.i();
  E.stack_fill = in.i();
  E.clock0 = in.i();
  E.clock_jump = in.i();
  E.locale_ok = in.i();
  E.tty = in.i();
  E.sched = in.i();
  E.spurious = in.i();
  E.pid = in.i();
  E.limit = in.i();
  E.cap = (int)in.i();
  E.tz = in.s();
  E.lang = in.s();
  n = in.i();
  ncf = 0;
  while (n--) {
    CF &c = cf[ncf++];
    memset(&c, 0, sizeof c);
    std::string op = in.s(), path = in.s();
    c.op = op == "open"     ? O_OPEN
           : op == "read"   ? O_READ
           : op == "write"  ? O_WRITE
           : op == "close"  ? O_CLOSE
           : op == "alloc"  ? O_ALLOC
           : op == "thread" ? O_THREAD
           : op == "kill"   ? O_KILL
                            : O_NOP;
    snprintf(c.path, sizeof c.path, "%s", path.c_str());
    c.nth = in.i();
    c.err = in.i();
    c.persist = in.i();
    c.off = in.i();
    if (c.op == O_ALLOC) have_alloc_fault = true;
    if (c.op == O_KILL) kill_at = c.nth;
  }
  return argv;
}
void __attribute__((noinline)) paint_stack(int mode, uint64_t seed) {
  volatile unsigned char buf[400 << 10];
  uint64_t z = seed * 2654435761u + 88172645463325252ull;
  for (size_t i = 0; i < sizeof buf; i++) {
    unsigned char b;
    switch (mode) {
      case 0: b = 0; break;
      case 1: b = 0xff; break;
      case 2: b = 0xa5; break;
      case 4: b = 1; break;
      default:
        z ^= z << 13;
        z ^= z >> 7;
        z ^= z << 17;
        b = (unsigned char)(z >> 24);
    }
    buf[i] = b;
  }
}
int __attribute__((noinline)) call_main(int argc, char **argv) { return fstalign_cli_main(argc, argv); }

void shuffle_heap(uint64_t seed) {
  Rng r(seed ^ 0x1234567);
  std::vector<void *> ps;
  for (int i = 0; i < 3000; i++) ps.push_back(__libc_malloc(16 + r.below(40) * 16));
  for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[r.below(i)]);
  for (size_t i = 0; i < ps.size() * 2 / 3; i++) __libc_free(ps[i]);
}
FILE *sim_out, *sim_err;
void set_fd(int k, const char *path) {
  ShFile *f = make_file(path);
  f->exists = 1;
  fds[k] = Fd();
  fds[k].used = 1;
  fds[k].file = (int)(f - S->files);
  fds[k].wr = true;
  fds[k].append = true;
}
[[noreturn]] void child_main() {
  in_sim = 1;
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rlim_t cpu = getenv("SIM_CPU") ? (rlim_t)atoi(getenv("SIM_CPU")) : 60;
  rl = {cpu, cpu + 2};
  setrlimit(RLIMIT_CPU, &rl);
  In in{cfg_buf()};
  auto args = get_cfg(in);
  R = Rng(E.seed);
  fill_ctr = E.seed * 77 + 3;
  sim_csv_block_len = E.csv_block;
  setenv("TZ", E.tz.c_str(), 1);
  setenv("LANG", E.lang.c_str(), 1);
  unsetenv("LC_ALL");
  unsetenv("LC_MESSAGES");
  switch (E.seed % 5) {
    case 3: setenv("TERM", "dumb", 1); break;
    case 4: unsetenv("TERM"); break;
    default: setenv("TERM", "xterm", 1);
  }
  tzset();
  if (E.heap_shuffle) shuffle_heap(E.seed);
  set_fd(1, "<stdout>");
  set_fd(2, "<stderr>");
  sim_out = open_cookie(1, "w");
  sim_err = open_cookie(2, "w");
  static char obuf[4096];
  setvbuf(sim_out, obuf, E.tty ? _IOLBF : _IOFBF, sizeof obuf);
  setvbuf(sim_err, nullptr, _IONBF, 0);
  stdout = sim_out;
  stderr = sim_err;
  auto *bo = new __gnu_cxx::stdio_sync_filebuf<char>(sim_out), *be = new __gnu_cxx::stdio_sync_filebuf<char>(sim_err);
  std::cout.rdbuf(bo);
  std::cerr.rdbuf(be);
  std::clog.rdbuf(be);
  std::vector<char *> av;
  for (auto &a : args) av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  my_th = 0;
  nth_ = 1;
  memset(&th[0], 0, sizeof th[0]);
  th[0].real = pthread_self();
  paint_stack(E.stack_fill, E.seed);
  stack_top = (char *)__builtin_frame_address(0) + 16;
  S->steps = S->allocs = 0;
  if (getenv("SIM_BT")) {  // debugging aid
    static char alt[1 << 16];
    stack_t ss = {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_flags = SA_ONSTACK;
    sa.sa_handler = [](int sig) {
      in_sim = 1;
      void *pc[60];
      backtrace_symbols_fd(pc, backtrace(pc, 60), 2);
      signal(sig, SIG_DFL);
      raise(sig);
    };
    void *warm[2];
    backtrace(warm, 2);
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
  }
  g_active = true;
  in_sim = 0;
  int rc = call_main((int)args.size(), av.data());
  exit(rc);
}
int zy_req[2], zy_rep[2];
[[noreturn]] void zygote() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (;;) {
    char b;
    if (syscall(SYS_read, zy_req[0], &b, 1) != 1) syscall(SYS_exit_group, 0);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      child_main();
    }
    int st = 0;
    S->stuck = 0;
    // watchdog on real time, for waits the simulator does not see
    struct timespec ts = {150, 0};
    sigset_t ss;
    sigemptyset(&ss);
    sigaddset(&ss, SIGCHLD);
    for (;;) {
      pid_t w = waitpid(p, &st, WNOHANG);
      if (w == p) break;
      siginfo_t si;
      int r = sigtimedwait(&ss, &si, &ts);
      if (r < 0 && errno == EAGAIN) {
        S->stuck = 1;
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        break;
      }
    }
    S->wstatus = st;
    b = 1;
    syscall(SYS_write, zy_rep[1], &b, 1);
  }
}
bool trace_default = false;
}  // namespace

void rt_init(bool want) {
  trace_default = want;
  arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  S = (Shared *)arena;
  site_log = (uint16_t *)mmap(nullptr, SITE_CAP * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static_assert(sizeof(Shared) < (1 << 16), "shared header");
  if (pipe(zy_req) || pipe(zy_rep)) {
    perror("pipe");
    _exit(3);
  }
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  sigprocmask(SIG_BLOCK, &ss, nullptr);
  fflush(nullptr);
  pid_t z = fork();
  if (z == 0) {
    ::close(zy_req[1]);
    ::close(zy_rep[0]);
    zygote();
  }
  ::close(zy_req[0]);
  ::close(zy_rep[1]);
}

RunResult rt_run(const RunConfig &cfg, bool want_trace) {
  memset(S, 0, sizeof *S);
  S->bump = data_start();
  S->hash = S->sched_hash = 1469598103934665603ull;
  S->want_trace = want_trace || trace_default;
  S->want_sites = cfg.sites;
  make_file("<stdout>");
  make_file("<stderr>");
  for (auto &kv : cfg.files) {
    ShFile *f = make_file(kv.first.c_str());
    f->exists = 1;
    f->was_input = 1;
    f->mtime = cfg.env.clock0 - (int64_t)(fnv(kv.first.data(), kv.first.size(), cfg.env.seed) % 1000000);
    ensure(f, kv.second.size() + 1);
    memcpy(arena + f->off, kv.second.data(), kv.second.size());
    f->len = kv.second.size();
  }
  Out o;
  put_cfg(o, cfg);
  if (o.b.size() > CFG_CAP) abort();
  memcpy(cfg_buf(), o.b.data(), o.b.size());
  char b = 1;
  if (syscall(SYS_write, zy_req[1], &b, 1) != 1 || syscall(SYS_read, zy_rep[0], &b, 1) != 1) {
    fprintf(stderr, "zygote lost\n");
    _exit(3);
  }
  RunResult r;
  int st = S->wstatus;
  if (S->stuck) {
    r.kind = K_STUCK;
  } else if (S->reason) {
    r.kind = S->reason;
  } else if (WIFSIGNALED(st)) {
    r.kind = (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) ? K_CPU : K_SIGNAL;
    r.code = WTERMSIG(st);
  } else {
    r.kind = K_EXIT;
    r.code = WEXITSTATUS(st);
  }
  for (int i = 0; i < S->nfiles; i++) {
    ShFile *f = &S->files[i];
    std::string d(arena + f->off, f->len);
    if (!strcmp(f->path, "<stdout>")) {
      r.out = d;
    } else if (!strcmp(f->path, "<stderr>")) {
      r.err = d;
    }
    FileStat fs;
    fs.data = std::move(d);
    fs.exists = f->exists;
    fs.was_input = f->was_input;
    fs.modified = f->modified;
    fs.opens_r = f->opens_r;
    fs.opens_w = f->opens_w;
    fs.nreads = f->nreads;
    fs.a0 = f->a0;
    fs.a1 = f->a1;
    fs.nwrites = f->nwrites;
    fs.ncloses = f->ncloses;
    fs.rbytes = f->rbytes;
    fs.wbytes = f->wbytes;
    r.files[f->path] = std::move(fs);
  }
  r.hash = S->hash;
  r.sched_hash = S->sched_hash;
  if (S->want_trace) r.trace.assign(trace_buf(), S->trace_len);
  r.steps = S->steps;
  r.allocs = S->allocs;
  if (cfg.sites) r.sites.assign(site_log, site_log + std::min<int64_t>(S->allocs, SITE_CAP));
  r.io_ops = S->io_ops;
  r.sched_points = S->sched_points;
  r.switches = S->switches;
  r.spurious = S->spurious;
  r.threads = S->threads;
  r.eintrs = S->eintrs;
  r.short_reads = S->short_reads;
  r.short_writes = S->short_writes;
  r.clock_jumps = S->clock_jumps;
  r.escapes = S->escapes;
  r.decisions = S->decisions;
  r.sim_ns = S->sim_ns;
  for (size_t i = 0; i < cfg.faults.size() && i < (size_t)MAXFAULT; i++) r.fired.push_back(S->fired[i]);
  // give pages of big runs back
  if (S->bump > data_start() + (32u << 20))
    madvise(arena + data_start(), ARENA - data_start(), MADV_REMOVE);
  return r;
}

std::string RunResult::status() const {
  char b[64];
  switch (kind) {
    case K_EXIT: snprintf(b, sizeof b, "exit %d", code); break;
    case K_SIGNAL: snprintf(b, sizeof b, "signal %d (%s)", code, strsignal(code)); break;
    case K_KILLED: return "killed by the simulator";
    case K_DEADLOCK: return "deadlock";
    case K_STEPCAP: return "step bound exceeded";
    case K_HEAP: return "heap corruption";
    case K_STUCK: return "stuck";
    case K_MEMCAP: return "memory bound exceeded";
    case K_CPU: return "cpu bound exceeded";
    default: return "?";
  }
  return b;
}
