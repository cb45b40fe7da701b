/* libsim: the simulator a process under test runs on.
 *
 * Preloaded into the real `huff` binary (and into the library workload). It takes the place of libc for every
 * source of nondeterminism: files, standard streams, threads, futexes, clocks, sleeping, random bytes, CPU count
 * and memory allocation. The disk lives in memory shared with the driver; the threads are real pthreads of which
 * exactly one holds the baton; who holds it next is decided here, from one seed or from an explicit list.
 * Scheduling points are: every intercepted call, and (through -sanitizer-coverage callbacks compiled into the
 * crates of /repo) every basic block edge, load and store of the code under test.
 *
 * Without SIM_SHM_FD in the environment everything passes through to the kernel. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "simshm.h"

#define EXPORT __attribute__((visibility("default")))
#define FD_SHM 197
#define FD_CTL 198
#define FD_ST  199
#define VFD0   500
#define MAXVFD 256
#define MAXOFD 256
#define MAXTHR 512

static struct shm *S;
static int on; /* in a simulated run */

/* ------------------------------------------------------------------ raw system calls */
static long rsys6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define rsys(n, a, b, c) rsys6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
static long ret_errno(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

static void __attribute__((noreturn)) die(int verdict) {
  S->verdict = verdict;
  for (;;) rsys(SYS_exit_group, 77, 0, 0);
}
static void __attribute__((noreturn)) harness(const char *why) {
  strncpy(S->note, why, sizeof S->note - 1);
  die(V_HARNESS);
}

/* ------------------------------------------------------------------ PRNG and logs */
static uint64_t r_sched, r_noise, r_hash;
static inline uint64_t mix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t below(uint64_t *s, uint64_t n) { return n ? mix(s) % n : 0; }
static inline void hadd(uint64_t *h, uint64_t v) { *h = (*h ^ v) * 0x100000001B3ull; *h ^= *h >> 29; }

/* ------------------------------------------------------------------ threads: the baton */
enum { T_FREE, T_RUN, T_JOIN, T_FUTEX, T_SLEEP, T_DONE };
struct thr {
  int state, joined, detached, timed, woken;
  uint32_t word;          /* real futex: 1 = has the baton */
  pthread_t pt;
  uint32_t *faddr, fbits;
  int jtarget;
  uint64_t deadline;
  void *(*start)(void *);
  void *arg;
  uint32_t serial;
};
static struct thr T[MAXTHR];
static volatile int nthr = 1, cur = 0, live = 1;
static uint32_t serials = 1;
static __thread int me __attribute__((tls_model("initial-exec"))) = -1; /* slot of this OS thread */
static pthread_key_t fin_key;
static uint64_t countdown;
static uint32_t expi;
static volatile int in_spawn;

static uint64_t next_gap(void) {
  if (S->sched_mode != 0 || S->preempt_mean == 0) return UINT64_MAX;
  uint64_t m = S->preempt_mean;
  /* roughly geometric, with a tail of short gaps */
  uint64_t r = mix(&r_sched);
  /* a long run thins its switches out: the first thousands come as set, then ever fewer, so that its cost stays bounded */
  if (S->switches > 3000) { uint64_t k = (S->switches - 3000) / 1500; m = (m + 8) << (k > 20 ? 20 : k); }
  else if ((r & 7) == 0) return 1 + (r >> 8) % 3;
  return 1 + (r >> 8) % (2 * m);
}

static void give(int t) {
  cur = t;
  __atomic_store_n(&T[t].word, 1, __ATOMIC_RELEASE);
  rsys6(SYS_futex, (long)&T[t].word, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void await(int t) {
  while (!__atomic_load_n(&T[t].word, __ATOMIC_ACQUIRE))
    rsys6(SYS_futex, (long)&T[t].word, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&T[t].word, 0, __ATOMIC_RELAXED);
}
static void record(int t, int forced) {
  S->switches++;
  if (!forced) S->fired[FK_PREEMPT]++;
  hadd(&S->sched_hash, S->spoints);
  hadd(&S->sched_hash, T[t].serial);
  if (S->nrec < MAXSCHED) {
    struct sched *r = &S->rec[S->nrec++];
    r->step = S->spoints; r->tid = t; r->forced = forced;
  }
}
static int runnable(int *out) {
  int n = 0;
  for (int i = 0; i < nthr; i++) if (T[i].state == T_RUN) out[n++] = i;
  return n;
}
/* choose the next thread; forced: the current one cannot go on */
static int pick(int forced) {
  int c[MAXTHR], n = runnable(c);
  if (n == 0) {
    /* nobody can run: let simulated time pass up to the earliest deadline */
    int b = -1;
    for (int i = 0; i < nthr; i++)
      if ((T[i].state == T_SLEEP || (T[i].state == T_FUTEX && T[i].timed)) && (b < 0 || T[i].deadline < T[b].deadline)) b = i;
    if (b < 0) die(V_DEADLOCK);
    if (T[b].deadline > S->clock_ns) S->clock_ns = T[b].deadline;
    T[b].state = T_RUN; T[b].woken = 0;
    return b;
  }
  if (S->sched_mode == 1) {
    while (expi < S->nexp && S->exp[expi].step < S->spoints) expi++;
    if (expi < S->nexp && S->exp[expi].step == S->spoints) {
      int t = S->exp[expi].tid;
      for (int i = 0; i < n; i++) if (c[i] == t) return t;
    }
    if (!forced) return cur;
    return c[0];
  }
  if (S->sched_mode == 2) return forced ? c[0] : cur;
  return c[below(&r_sched, n)];
}
static void switch_to(int t, int forced) {
  int self = cur;
  if (t == self) return;
  record(t, forced);
  give(t);
  await(self);
}
static void __attribute__((noinline)) sched_point_slow(void) {
  if (S->sched_mode == 0) {
    if (--countdown) return;
    countdown = next_gap();
    switch_to(pick(0), 0);
  } else if (S->sched_mode == 1) {
    if (expi < S->nexp && S->exp[expi].step <= S->spoints) switch_to(pick(0), 0);
  }
}
static inline void sched_point(void) {
  if (live <= 1 || me != cur) return;
  S->spoints++;
  sched_point_slow();
}
static void block(void) { S->spoints++; int t = pick(1); if (t != cur) switch_to(t, 1); }

static uint64_t nsteps, step_limit = UINT64_MAX;
static inline void step(void) {
  if (!on) return;
  if (++nsteps > step_limit) { S->steps = nsteps; die(V_HANG_STEPS); }
  if (__builtin_expect(live > 1, 0)) sched_point();
}
static uint32_t guard_next = 0;
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (on) { S->cov[(*g + S->covbase) & (NCOV - 1)] = 1; step(); } }
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  for (; a < b; a++) if (!*a) *a = ++guard_next;
  if (S) S->ncov = guard_next;
}
#define LS(k) EXPORT void __sanitizer_cov_load##k(void *p) { (void)p; step(); } EXPORT void __sanitizer_cov_store##k(void *p) { (void)p; step(); }
LS(1) LS(2) LS(4) LS(8) LS(16)

/* ------------------------------------------------------------------ operations, faults, trace */
static uint32_t spawn_no, alloc_no;
static struct { int op; uint32_t ino; int err; } sticky[16];
static int nsticky;

static void trace(int op, int fk, uint32_t ino, uint64_t off, uint32_t len, int64_t res) {
  hadd(&S->trace_hash, ((uint64_t)op << 32) | ((uint64_t)fk << 40) | ino | ((uint64_t)T[cur].serial << 48));
  hadd(&S->trace_hash, off); hadd(&S->trace_hash, len); hadd(&S->trace_hash, (uint64_t)res);
  if (S->ntrace < MAXTRACE) {
    struct trace *t = &S->trace[S->ntrace++];
    t->op = op; t->fk = fk; t->tid = T[cur].serial; t->res = (int32_t)res; t->ino = ino; t->len = len; t->off = off;
  }
}
static void crash(int op, uint32_t ino, int fk) { trace(op, fk, ino, 0, 0, 0); S->steps = nsteps; die(V_CRASH); }

static void peer(struct fault *f);
static void pause_here(void);
struct fx { int err; int64_t shrt; int eintr; int crash_after; int64_t torn; int fk; };

/* start of an operation: counts it, fires the faults planned for it */
static struct fx begin(int op, uint32_t ino) {
  struct fx x = {0, -1, 0, 0, -1, 0};
  sched_point();
  uint32_t at = S->ops++;
  S->opcount[op]++;
  if (S->ops > S->max_ops) { S->steps = nsteps; die(V_HANG_OPS); }
  S->clock_ns += 1000;
  if (S->p_lat && below(&r_noise, 1000) < S->p_lat) { S->clock_ns += below(&r_noise, 5000000000ull); S->fired[FK_NOISE_LAT]++; }
  for (int i = 0; i < nsticky; i++)
    if (sticky[i].op == op && sticky[i].ino == ino) { x.err = sticky[i].err; x.fk = FK_ERRSTICKY; }
  for (uint32_t i = 0; i < S->nfault; i++) {
    struct fault *f = &S->faults[i];
    if (f->atkind != AT_OP) continue;
    int hit = f->at == at;
    if (f->kind == FK_EINTR && at >= f->at && at < f->at + (uint64_t)(f->arg > 0 ? f->arg : 1)) hit = 1;
    if (!hit) continue;
    switch (f->kind) {
    case FK_ERR: case FK_ERRSTICKY:
      if (op == OP_STDERR || op == OP_CLOCK || op == OP_RANDOM || op == OP_SLEEP) break;
      x.err = (int)f->arg; x.fk = f->kind;
      if (x.err == EZERO && (op != OP_WRITE || f->kind == FK_ERRSTICKY)) x.err = EIO;
      if (f->kind == FK_ERRSTICKY && nsticky < 16) { sticky[nsticky].op = op; sticky[nsticky].ino = ino; sticky[nsticky++].err = x.err; }
      f->fired++; S->fired[f->kind]++;
      break;
    case FK_SHORT:
      if (op == OP_READ || op == OP_WRITE || op == OP_STDIN || op == OP_STDOUT) { x.shrt = f->arg < 1 ? 1 : f->arg; x.fk = f->kind; f->fired++; S->fired[f->kind]++; }
      break;
    case FK_EINTR:
      if (op == OP_READ || op == OP_WRITE || op == OP_OPEN || op == OP_STDIN || op == OP_STDOUT || op == OP_SYNC) { x.eintr = 1; x.fk = f->kind; f->fired++; S->fired[f->kind]++; }
      break;
    case FK_CRASH_BEFORE: f->fired++; S->fired[f->kind]++; crash(op, ino, f->kind); break;
    case FK_CRASH_AFTER: f->fired++; S->fired[f->kind]++; x.crash_after = 1; x.fk = f->kind; break;
    case FK_CRASH_TORN:
      f->fired++; S->fired[f->kind]++;
      if (op != OP_WRITE) crash(op, ino, f->kind);
      x.torn = f->arg; x.fk = f->kind;
      break;
    case FK_PEER_TRUNC: case FK_PEER_APPEND: case FK_PEER_FLIP: case FK_PEER_CREATE: case FK_DISKFULL: case FK_DISKFREE:
      f->fired++; S->fired[f->kind]++; peer(f);
      break;
    case FK_CLOCKJUMP: f->fired++; S->fired[f->kind]++; S->wall_off_ns += (uint64_t)f->arg; break;
    case FK_PAUSE: f->fired++; S->fired[f->kind]++; pause_here(); break;
    case FK_STALL: f->fired++; S->fired[f->kind]++; S->clock_ns += (uint64_t)f->arg; break;
    default: break;
    }
  }
  return x;
}
static int64_t finish(struct fx *x, int op, uint32_t ino, uint64_t off, uint64_t len, int64_t res) {
  trace(op, x->fk, ino, off, (uint32_t)len, res);
  if (x->crash_after) { S->steps = nsteps; die(V_CRASH); }
  if (res < 0) { errno = (int)-res; return -1; }
  return res;
}

/* ------------------------------------------------------------------ the simulated disk */
static struct jrec *jadd(int type, uint32_t ino, uint64_t off, uint64_t len, const void *data) {
  uint64_t need = (sizeof(struct jrec) + len + 15) & ~15ull;
  if (S->j_used + need > JARENA) harness("journal full");
  struct jrec *j = (struct jrec *)(S->jarena + S->j_used);
  memset(j, 0, sizeof *j);
  j->type = type; j->ino = ino; j->off = off; j->len = len; j->cmd = S->cmdidx; j->op = (uint32_t)S->ops;
  if (data && len) memcpy((uint8_t *)(j + 1), data, len);
  S->j_used += need; S->jcount++;
  return j;
}
static struct dent *dfind(uint32_t dir, const char *name, size_t n) {
  for (uint32_t i = 0; i < S->nent; i++) {
    struct dent *d = &S->ent[i];
    if (d->used && d->parent == dir && strlen(d->name) == n && !memcmp(d->name, name, n)) return d;
  }
  return 0;
}
static uint32_t parent_of(uint32_t dir) {
  for (uint32_t i = 0; i < S->nent; i++) if (S->ent[i].used && S->ent[i].ino == dir) return S->ent[i].parent;
  return dir;
}
/* /tmp is a file system of its own */
static int on_tmp(uint32_t dir) {
  for (int k = 0; k < 64 && dir != 1; k++) {
    struct dent *d = 0;
    for (uint32_t i = 0; i < S->nent && !d; i++) if (S->ent[i].used && S->ent[i].ino == dir) d = &S->ent[i];
    if (!d) return 0;
    if (d->parent == 1 && !strcmp(d->name, "tmp")) return 1;
    dir = d->parent;
  }
  return 0;
}
struct res { int err; uint32_t dir; uint32_t ino; char name[NAMELEN]; int slash; };
static struct res walk(uint32_t from, const char *p, int follow, int depth) {
  struct res r; memset(&r, 0, sizeof r);
  if (!*p) { r.err = ENOENT; return r; }
  if (depth > 12) { r.err = ELOOP; return r; }
  uint32_t d = *p == '/' ? 1 : from;
  r.dir = d; r.ino = d; strcpy(r.name, ".");
  while (*p) {
    while (*p == '/') p++;
    if (!*p) { r.slash = 1; break; }
    const char *e = p; while (*e && *e != '/') e++;
    size_t n = e - p;
    const char *rest = e; while (*rest == '/') rest++;
    int last = !*rest;
    if (n >= NAMELEN) { r.err = ENAMETOOLONG; return r; }
    if (!r.ino) { r.err = ENOENT; return r; }
    if (S->ino[r.ino].type != IT_DIR) { r.err = ENOTDIR; return r; }
    d = r.ino;
    if (n == 1 && p[0] == '.') { r.dir = d; r.ino = d; strcpy(r.name, "."); }
    else if (n == 2 && p[0] == '.' && p[1] == '.') { uint32_t q = parent_of(d); r.dir = q; r.ino = q; strcpy(r.name, ".."); }
    else {
      struct dent *de = dfind(d, p, n);
      r.dir = d; memcpy(r.name, p, n); r.name[n] = 0;
      r.ino = de ? de->ino : 0;
      if (de && S->ino[de->ino].type == IT_LNK && (!last || follow || *e == '/')) {
        struct res t = walk(d, S->ino[de->ino].target, 1, depth + 1);
        if (t.err) { r.err = t.err; return r; }
        int sl = r.slash; r = t; r.slash = sl;
      }
    }
    if (*e == '/' && last) {
      if (r.ino && S->ino[r.ino].type != IT_DIR) { r.err = ENOTDIR; return r; }
      r.slash = 1;
    }
    p = e;
  }
  return r;
}
static uint32_t new_inode(int type, int mode) {
  if (S->nino >= MAXINO) harness("inodes exhausted");
  uint32_t i = S->nino++;
  memset(&S->ino[i], 0, sizeof S->ino[i]);
  S->ino[i].type = type; S->ino[i].mode = mode; S->ino[i].mtime = S->clock_ns;
  return i;
}
static void dlink(uint32_t dir, const char *name, uint32_t ino) {
  struct dent *d = 0;
  for (uint32_t i = 0; i < S->nent; i++) if (!S->ent[i].used) { d = &S->ent[i]; break; }
  if (!d) { if (S->nent >= MAXENT) harness("directory entries exhausted"); d = &S->ent[S->nent++]; }
  d->used = 1; d->parent = dir; d->ino = ino; strncpy(d->name, name, NAMELEN - 1); d->name[NAMELEN - 1] = 0;
  S->ino[ino].nlink++;
}
static uint64_t ghost(uint32_t ino) { return S->ghost_len && ino == S->ghost_ino ? S->ghost_len : 0; }
static void set_size(uint32_t ino, uint64_t size) { /* zero-fills growth; capacity grows by copying */
  struct inode *n = &S->ino[ino];
  if (size > n->cap) {
    uint64_t cap = n->cap ? n->cap : 4096;
    while (cap < size) cap *= 2;
    int last = n->cap && n->off + n->cap == S->arena_used; /* can grow where it is */
    uint64_t off = last ? n->off : S->arena_used;
    if (off + cap > ARENA) harness("disk arena full");
    S->arena_used = off + cap;
    if (!last) memcpy(S->arena + off, S->arena + n->off, n->size);
    n->off = off; n->cap = cap;
  }
  if (size > n->size) memset(S->arena + n->off + n->size, 0, size - n->size);
  S->disk_used += size; S->disk_used -= n->size;
  n->size = size; n->mtime = S->clock_ns; n->touched++;
}
static void drop_link(struct dent *d) {
  struct inode *n = &S->ino[d->ino];
  d->used = 0;
  if (n->nlink) n->nlink--;
  if (n->nlink == 0 && n->type == IT_FILE) S->disk_used -= n->size;
}
static void peer(struct fault *f) {
  /* something else on the machine */
  if (f->kind == FK_DISKFULL) { S->disk_limit = S->disk_used + (uint64_t)f->arg; if (!S->disk_limit) S->disk_limit = 1; return; }
  if (f->kind == FK_DISKFREE) { S->disk_limit = 0; return; }
  struct res r = walk(1, f->kind == FK_PEER_CREATE ? S->peer_dst : S->peer_src, 1, 0);
  if (r.err) return;
  if (f->kind == FK_PEER_CREATE) {
    if (r.ino) return;
    uint32_t i = new_inode(IT_FILE, 0100644);
    dlink(r.dir, r.name, i);
    struct jrec *j = jadd(J_CREATE, i, 0, 0, 0); j->parent = r.dir; strcpy(j->name, r.name);
    set_size(i, 7); memcpy(S->arena + S->ino[i].off, "peer!!\n", 7); jadd(J_WRITE, i, 0, 7, "peer!!\n"); jadd(J_FSYNC, i, 0, 0, 0);
    return;
  }
  if (!r.ino || S->ino[r.ino].type != IT_FILE) return;
  struct inode *n = &S->ino[r.ino];
  if (f->kind == FK_PEER_TRUNC) { if ((uint64_t)f->arg < n->size) { set_size(r.ino, f->arg); jadd(J_TRUNC, r.ino, f->arg, 0, 0); } }
  else if (f->kind == FK_PEER_APPEND) {
    uint64_t o = n->size; set_size(r.ino, o + f->arg);
    n = &S->ino[r.ino];
    for (int64_t i = 0; i < f->arg; i++) S->arena[n->off + o + i] = (uint8_t)(o ? S->arena[n->off + (i % o)] : i);
    jadd(J_WRITE, r.ino, o, f->arg, S->arena + n->off + o);
  } else if (f->kind == FK_PEER_FLIP && n->size) {
    uint64_t o = (uint64_t)f->arg % n->size; S->arena[n->off + o] ^= 1; jadd(J_WRITE, r.ino, o, 1, S->arena + n->off + o);
  }
}

/* open file descriptions and descriptors */
struct ofd { int refs; uint32_t ino; uint64_t pos; int flags; uint32_t dpos; };
static struct ofd O[MAXOFD];
static int16_t F[MAXVFD]; /* index into O, or -1 */
static struct ofd *fdo(int fd) {
  if (fd < VFD0 || fd >= VFD0 + MAXVFD || F[fd - VFD0] < 0) return 0;
  return &O[F[fd - VFD0]];
}
static int is_v(int fd) { return on && fd >= VFD0 && fd < VFD0 + MAXVFD; }
static int fd_new(int o) {
  for (int i = 0; i < MAXVFD; i++) if (F[i] < 0) { F[i] = (int16_t)o; return VFD0 + i; }
  return -EMFILE;
}
static uint32_t dirfd_ino(int dfd) {
  if (dfd == AT_FDCWD) return S->cwd;
  struct ofd *o = fdo(dfd);
  return o ? o->ino : 0;
}

/* do the permissions of a file forbid what the simulated user wants to do with it? */
static int denied(uint32_t ino, int bits) { return S->user && S->ino[ino].type == IT_FILE && (S->ino[ino].mode & bits) != (uint32_t)bits; }
static int v_open(int dfd, const char *path, int flags, int mode) {
  uint32_t base = dirfd_ino(dfd);
  struct res r = base ? walk(base, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), 0) : (struct res){.err = EBADF};
  struct fx x = begin(OP_OPEN, r.ino);
  /* the peer may just have changed the tree */
  if (base) r = walk(base, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), 0);
  int acc = flags & O_ACCMODE, res;
  uint64_t lf = ((uint64_t)(flags & (O_CREAT | O_TRUNC | O_EXCL | O_APPEND | O_ACCMODE)));
  if (x.eintr) { res = -EINTR; goto out; }
  if (x.err) { res = -x.err; goto out; }
  if (r.err) { res = -r.err; goto out; }
  if (r.ino && (flags & O_CREAT) && (flags & O_EXCL)) { res = -EEXIST; goto out; }
  if (r.ino && S->ino[r.ino].type == IT_LNK) { res = -ELOOP; goto out; }
  if (!r.ino) {
    if (!(flags & O_CREAT)) { res = -ENOENT; goto out; }
    if (r.slash) { res = -EISDIR; goto out; }
    r.ino = new_inode(IT_FILE, 0100000 | (mode & 0777));
    dlink(r.dir, r.name, r.ino);
    struct jrec *j = jadd(J_CREATE, r.ino, 0, 0, 0); j->parent = r.dir; strcpy(j->name, r.name);
  } else if (S->ino[r.ino].type == IT_DIR) {
    if (acc != O_RDONLY || (flags & O_CREAT)) { res = -EISDIR; goto out; }
  } else if (flags & O_DIRECTORY) { res = -ENOTDIR; goto out; }
  else if (denied(r.ino, (acc != O_RDONLY || (flags & O_TRUNC) ? 0200 : 0) | (acc != O_WRONLY ? 0400 : 0))) { res = -EACCES; goto out; }
  else if (flags & O_TRUNC) {
    if (S->ino[r.ino].size) { set_size(r.ino, 0); jadd(J_TRUNC, r.ino, 0, 0, 0); }
  }
  int o = -1;
  for (int i = 0; i < MAXOFD; i++) if (!O[i].refs) { o = i; break; }
  if (o < 0) { res = -ENFILE; goto out; }
  O[o] = (struct ofd){1, r.ino, 0, flags, 0};
  res = fd_new(o);
  if (res < 0) O[o].refs = 0;
out:
  return (int)finish(&x, OP_OPEN, r.ino, lf, 0, res);
}
/* advisory locks: flock and open-file-description locks belong to an open file, posix ones to the process */
static void pause_here(void);
static void blocked_here(void);
static void unlock(uint32_t ino, uint32_t ofd, uint32_t posix) {
  for (int i = 0; i < MAXLK; i++) { struct lck *l = &S->lk[i]; if (l->used && l->ino == ino && l->owner == S->cmdidx && l->posix == posix && l->ofd == ofd) l->used = 0; }
}
static int v_lock(int fd, int ex, int wait, uint32_t posix) { /* ex: -1 unlocks */
  struct ofd *o = fdo(fd);
  if (!o) { errno = EBADF; return -1; }
  uint32_t ino = o->ino, ofd = posix == 1 ? ~0u : (uint32_t)(o - O);
  struct fx x = begin(OP_MISC, ino);
  int res = 0;
  if (x.eintr) { res = -EINTR; goto out; }
  if (x.err) { res = -x.err; goto out; }
  if (ex < 0) { unlock(ino, ofd, posix); goto out; }
  for (;;) {
    int hit = 0, own = -1, fr = -1;
    for (int i = 0; i < MAXLK; i++) {
      struct lck *l = &S->lk[i];
      if (!l->used) { if (fr < 0) fr = i; continue; }
      if (l->ino != ino || !l->posix != !posix) continue; /* flock and fcntl do not see each other */
      if (l->owner == S->cmdidx && l->posix == posix && l->ofd == ofd) own = i;
      else if (ex || l->ex) hit = 1;
    }
    if (!hit) {
      if (own < 0) own = fr;
      if (own < 0) { res = -ENOLCK; goto out; }
      S->lk[own] = (struct lck){1, ino, S->cmdidx, ofd, (uint32_t)ex, posix};
      goto out;
    }
    if (!wait) { res = -EAGAIN; goto out; }
    if (++nsteps > step_limit) { S->steps = nsteps; die(V_HANG_STEPS); }
    int c[MAXTHR], n = runnable(c);
    if (n > 1) { int k = 0; for (int i = 0; i < n; i++) if (c[i] != cur) c[k++] = c[i]; S->spoints++; switch_to(S->sched_mode == 0 ? c[below(&r_sched, k)] : c[0], 1); }
    else blocked_here();
  }
out:
  return (int)finish(&x, OP_MISC, ino, 0, 0, res);
}
static int v_close(int fd) {
  struct ofd *o = fdo(fd);
  if (!o) { errno = EBADF; return -1; }
  struct fx x = begin(OP_CLOSE, o->ino);
  uint32_t ino = o->ino;
  unlock(ino, ~0u, 1);
  if (o->refs == 1) { unlock(ino, (uint32_t)(o - O), 0); unlock(ino, (uint32_t)(o - O), 2); }
  o->refs--; F[fd - VFD0] = -1; /* the descriptor is gone even when close reports an error */
  return (int)finish(&x, OP_CLOSE, ino, 0, 0, x.err ? -x.err : 0);
}
static int64_t v_read(int fd, void *buf, uint64_t n, int64_t at) {
  struct ofd *o = fdo(fd);
  if (!o) { errno = EBADF; return -1; }
  uint32_t ino = o->ino;
  struct fx x = begin(OP_READ, ino);
  struct inode *nd = &S->ino[ino];
  uint64_t pos = at >= 0 ? (uint64_t)at : o->pos;
  int64_t res;
  if (n > S->max_req) S->max_req = n;
  if ((o->flags & O_ACCMODE) == O_WRONLY) res = -EBADF;
  else if (nd->type == IT_DIR) res = -EISDIR;
  else if (x.eintr) res = -EINTR;
  else if (x.err) res = -x.err;
  else {
    uint64_t avail = pos < nd->size ? nd->size - pos : 0, k = n < avail ? n : avail;
    if (n && !k && pos < nd->size + ghost(ino)) { res = -EIO; goto out; }
    if (k > 0x7ffff000) k = 0x7ffff000;
    if (x.shrt > 0 && k > (uint64_t)x.shrt) k = x.shrt;
    if (k && S->p_eintr && below(&r_noise, 1000) < S->p_eintr) { S->fired[FK_NOISE_EINTR]++; x.fk = FK_NOISE_EINTR; res = -EINTR; goto out; }
    if (k > 1 && S->p_short_r && below(&r_noise, 1000) < S->p_short_r) {
      uint64_t b = mix(&r_noise);
      k = (b & 3) == 0 ? 1 + (b >> 8) % (k < 8 ? k : 8) : 1 + (b >> 8) % k;
      S->fired[FK_NOISE_SHORT_R]++; x.fk = FK_NOISE_SHORT_R;
    }
    memcpy(buf, S->arena + nd->off + pos, k);
    if (at < 0) o->pos += k;
    if (k > S->max_read) S->max_read = k;
    res = (int64_t)k;
  }
out:
  return finish(&x, OP_READ, ino, pos, n, res);
}
static int64_t v_write(int fd, const void *buf, uint64_t n, int64_t at) {
  struct ofd *o = fdo(fd);
  if (!o) { errno = EBADF; return -1; }
  uint32_t ino = o->ino;
  struct fx x = begin(OP_WRITE, ino);
  struct inode *nd = &S->ino[ino];
  uint64_t pos = at >= 0 ? (uint64_t)at : (o->flags & O_APPEND) ? nd->size : o->pos;
  int64_t res;
  if ((o->flags & O_ACCMODE) == O_RDONLY) res = -EBADF;
  else if (x.eintr) res = -EINTR;
  else if (x.err == EZERO) res = 0;
  else if (x.err) res = -x.err;
  else {
    uint64_t k = n;
    if (x.torn >= 0 && k > (uint64_t)x.torn) k = x.torn;
    if (x.shrt > 0 && k > (uint64_t)x.shrt) k = x.shrt;
    if (x.torn < 0) {
      if (k && S->p_eintr && below(&r_noise, 1000) < S->p_eintr) { S->fired[FK_NOISE_EINTR]++; x.fk = FK_NOISE_EINTR; res = -EINTR; goto out; }
      if (k > 1 && S->p_short_w && below(&r_noise, 1000) < S->p_short_w) {
        uint64_t b = mix(&r_noise);
        k = (b & 3) == 0 ? 1 + (b >> 8) % (k < 8 ? k : 8) : 1 + (b >> 8) % k;
        S->fired[FK_NOISE_SHORT_W]++; x.fk = FK_NOISE_SHORT_W;
      }
    }
    uint64_t end = pos + k, grow = end > nd->size ? end - nd->size : 0;
    if (S->disk_limit && grow && S->disk_used + grow > S->disk_limit) {
      uint64_t room = S->disk_limit > S->disk_used ? S->disk_limit - S->disk_used : 0;
      uint64_t k2 = k - (grow - room);
      if (grow - room > k) k2 = 0;
      S->fired[FK_CAPHIT]++; x.fk = FK_CAPHIT;
      if (k2 == 0 && k) { res = -ENOSPC; goto out; }
      k = k2; end = pos + k;
    }
    if (end > nd->size) { set_size(ino, end); nd = &S->ino[ino]; }
    memcpy(S->arena + nd->off + pos, buf, k);
    nd->touched++; nd->mtime = S->clock_ns;
    if (k) jadd(J_WRITE, ino, pos, k, buf);
    if (at < 0) o->pos = end;
    res = (int64_t)k;
    if (x.torn >= 0) { trace(OP_WRITE, FK_CRASH_TORN, ino, pos, (uint32_t)n, res); S->steps = nsteps; die(V_CRASH); }
  }
out:
  return finish(&x, OP_WRITE, ino, pos, n, res);
}
static int64_t v_seek(int fd, int64_t off, int whence) {
  struct ofd *o = fdo(fd);
  if (!o) { errno = EBADF; return -1; }
  struct fx x = begin(OP_SEEK, o->ino);
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o->pos : (int64_t)(S->ino[o->ino].size + ghost(o->ino)), res;
  if (whence > SEEK_END) res = -EINVAL;
  else if (x.err) res = -x.err;
  else if (base + off < 0) res = -EINVAL;
  else { o->pos = base + off; res = o->pos; }
  return finish(&x, OP_SEEK, o->ino, (uint64_t)off, whence, res);
}
static int v_sync(int fd) {
  struct ofd *o = fdo(fd);
  if (!o) { errno = EBADF; return -1; }
  struct fx x = begin(OP_SYNC, o->ino);
  int res = x.eintr ? -EINTR : x.err ? -x.err : 0;
  if (!res) jadd(J_FSYNC, o->ino, 0, 0, 0);
  return (int)finish(&x, OP_SYNC, o->ino, 0, 0, res);
}
static int v_truncate(uint32_t ino, int64_t size, int wr) {
  struct fx x = begin(OP_TRUNC, ino);
  int res = 0;
  if (x.err) res = -x.err;
  else if (!wr || size < 0) res = -EINVAL;
  else if (S->ino[ino].type != IT_FILE) res = -EISDIR;
  else { set_size(ino, size); jadd(J_TRUNC, ino, size, 0, 0); }
  return (int)finish(&x, OP_TRUNC, ino, size, 0, res);
}
static int v_unlink(int dfd, const char *path, int rmdir) {
  uint32_t base = dirfd_ino(dfd);
  struct res r = base ? walk(base, path, 0, 0) : (struct res){.err = EBADF};
  int op = rmdir ? OP_RMDIR : OP_UNLINK;
  struct fx x = begin(op, r.ino);
  if (base) r = walk(base, path, 0, 0); /* other processes may have changed the tree meanwhile */
  int res = 0;
  if (x.err) res = -x.err;
  else if (r.err) res = -r.err;
  else if (!r.ino) res = -ENOENT;
  else if (!rmdir && S->ino[r.ino].type == IT_DIR) res = -EISDIR;
  else if (rmdir && S->ino[r.ino].type != IT_DIR) res = -ENOTDIR;
  else if (rmdir && (r.name[0] == '.' && (!r.name[1] || (r.name[1] == '.' && !r.name[2])))) res = -EINVAL;
  else {
    if (rmdir) for (uint32_t i = 0; i < S->nent; i++) if (S->ent[i].used && S->ent[i].parent == r.ino) res = -ENOTEMPTY;
    if (!res) {
      drop_link(dfind(r.dir, r.name, strlen(r.name)));
      struct jrec *j = jadd(rmdir ? J_RMDIR : J_UNLINK, r.ino, 0, 0, 0); j->parent = r.dir; strcpy(j->name, r.name);
    }
  }
  return (int)finish(&x, op, r.ino, 0, 0, res);
}
static int v_rename(int d1, const char *a, int d2, const char *b, unsigned flags) {
  uint32_t b1 = dirfd_ino(d1), b2 = dirfd_ino(d2);
  struct res r = b1 ? walk(b1, a, 0, 0) : (struct res){.err = EBADF}, q = b2 ? walk(b2, b, 0, 0) : (struct res){.err = EBADF};
  struct fx x = begin(OP_RENAME, r.ino);
  if (b1) r = walk(b1, a, 0, 0);
  if (b2) q = walk(b2, b, 0, 0);
  int res = 0;
  if (x.err) res = -x.err;
  else if (r.err) res = -r.err;
  else if (q.err) res = -q.err;
  else if (!r.ino) res = -ENOENT;
  else if (on_tmp(r.dir) != on_tmp(q.dir)) res = -EXDEV;
  else if (q.ino && (flags & 1)) res = -EEXIST;
  else if (q.ino == r.ino) res = 0;
  else if (q.ino && S->ino[q.ino].type == IT_DIR && S->ino[r.ino].type != IT_DIR) res = -EISDIR;
  else if (q.ino && S->ino[q.ino].type != IT_DIR && S->ino[r.ino].type == IT_DIR) res = -ENOTDIR;
  else {
    if (q.ino && S->ino[q.ino].type == IT_DIR)
      for (uint32_t i = 0; i < S->nent; i++) if (S->ent[i].used && S->ent[i].parent == q.ino) res = -ENOTEMPTY;
    if (!res) {
      if (q.ino) drop_link(dfind(q.dir, q.name, strlen(q.name)));
      struct dent *d = dfind(r.dir, r.name, strlen(r.name));
      d->parent = q.dir; strcpy(d->name, q.name);
      struct jrec *j = jadd(J_RENAME, r.ino, 0, 0, 0);
      j->parent = r.dir; strcpy(j->name, r.name); j->parent2 = q.dir; strcpy(j->name2, q.name);
    }
  }
  return (int)finish(&x, OP_RENAME, r.ino, 0, 0, res);
}
static int v_link(int d1, const char *a, int d2, const char *b) {
  uint32_t b1 = dirfd_ino(d1), b2 = dirfd_ino(d2);
  struct res r = b1 ? walk(b1, a, 0, 0) : (struct res){.err = EBADF}, q = b2 ? walk(b2, b, 0, 0) : (struct res){.err = EBADF};
  struct fx x = begin(OP_LINK, r.ino);
  if (b1) r = walk(b1, a, 0, 0);
  if (b2) q = walk(b2, b, 0, 0);
  int res = 0;
  if (x.err) res = -x.err;
  else if (r.err) res = -r.err;
  else if (q.err) res = -q.err;
  else if (!r.ino) res = -ENOENT;
  else if (S->ino[r.ino].type == IT_DIR) res = -EPERM;
  else if (q.ino) res = -EEXIST;
  else if (on_tmp(r.dir) != on_tmp(q.dir)) res = -EXDEV;
  else { dlink(q.dir, q.name, r.ino); struct jrec *j = jadd(J_LINK, r.ino, 0, 0, 0); j->parent = q.dir; strcpy(j->name, q.name); }
  return (int)finish(&x, OP_LINK, r.ino, 0, 0, res);
}
static int v_symlink(const char *target, int d2, const char *b) {
  uint32_t b2 = dirfd_ino(d2);
  struct res q = b2 ? walk(b2, b, 0, 0) : (struct res){.err = EBADF};
  struct fx x = begin(OP_LINK, 0);
  if (b2) q = walk(b2, b, 0, 0);
  int res = 0;
  if (x.err) res = -x.err;
  else if (q.err) res = -q.err;
  else if (q.ino) res = -EEXIST;
  else if (strlen(target) >= TARGETLEN) res = -ENAMETOOLONG;
  else {
    uint32_t i = new_inode(IT_LNK, 0120777); strcpy(S->ino[i].target, target); dlink(q.dir, q.name, i);
    struct jrec *j = jadd(J_SYMLINK, i, 0, 0, 0); j->parent = q.dir; strcpy(j->name, q.name);
  }
  return (int)finish(&x, OP_LINK, 0, 0, 0, res);
}
static int v_mkdir(int dfd, const char *path, int mode) {
  uint32_t base = dirfd_ino(dfd);
  struct res r = base ? walk(base, path, 0, 0) : (struct res){.err = EBADF};
  struct fx x = begin(OP_MKDIR, r.ino);
  if (base) r = walk(base, path, 0, 0);
  int res = 0;
  if (x.err) res = -x.err;
  else if (r.err) res = -r.err;
  else if (r.ino) res = -EEXIST;
  else {
    r.ino = new_inode(IT_DIR, 040000 | (mode & 0777)); dlink(r.dir, r.name, r.ino);
    struct jrec *j = jadd(J_MKDIR, r.ino, 0, 0, 0); j->parent = r.dir; strcpy(j->name, r.name);
  }
  return (int)finish(&x, OP_MKDIR, r.ino, 0, 0, res);
}
static void fill_stat(uint32_t ino, struct stat64 *st) {
  struct inode *n = &S->ino[ino];
  memset(st, 0, sizeof *st);
  st->st_dev = makedev(8, 1 + on_tmp(ino)); st->st_ino = 1000 + ino; st->st_nlink = n->nlink ? n->nlink : (n->type == IT_DIR ? 1 : 0);
  st->st_mode = n->mode; st->st_size = n->type == IT_LNK ? (int64_t)strlen(n->target) : (int64_t)(n->size + ghost((uint32_t)(n - S->ino)));
  st->st_blksize = 4096; st->st_blocks = (n->size + 511) / 512;
  st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = 1700000000 + n->mtime / 1000000000ull;
  st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = st->st_atim.tv_nsec = n->mtime % 1000000000ull;
}
/* which = 0 by path (follow per flag), 1 by fd */
static int v_stat(int dfd, const char *path, int flags, uint32_t *out) {
  struct res r; memset(&r, 0, sizeof r);
  struct fx x;
  int std = -1;
  if ((!path || !*path) && ((flags & AT_EMPTY_PATH) || !path)) {
    if (dfd >= 0 && dfd <= 2) std = dfd;
    else { r.ino = dirfd_ino(dfd); if (!r.ino) r.err = EBADF; }
    x = begin(OP_STAT, r.ino);
  } else {
    uint32_t base = dirfd_ino(dfd);
    r = base ? walk(base, path, !(flags & AT_SYMLINK_NOFOLLOW), 0) : (struct res){.err = EBADF};
    x = begin(OP_STAT, r.ino);
    if (base) r = walk(base, path, !(flags & AT_SYMLINK_NOFOLLOW), 0);
  }
  int res = 0;
  if (x.err) res = -x.err;
  else if (std >= 0) { *out = 0; }
  else if (r.err) res = -r.err;
  else if (!r.ino) res = -ENOENT;
  else *out = r.ino;
  return (int)finish(&x, OP_STAT, r.ino, 0, 0, res);
}
static void stat_of(uint32_t ino, struct stat64 *st) {
  if (ino) { fill_stat(ino, st); return; }
  memset(st, 0, sizeof *st); st->st_mode = 010600; st->st_ino = 5; st->st_nlink = 1;
}

/* ------------------------------------------------------------------ standard streams */
static int64_t v_stdin(void *buf, uint64_t n) {
  struct fx x = begin(OP_STDIN, 0);
  int64_t res;
  if (x.eintr) res = -EINTR;
  else if (x.err) res = -x.err;
  else {
    uint64_t k = S->stdin_len - S->stdin_pos;
    if (k > n) k = n;
    uint32_t chunk = S->stdin_chunk & (STDIN_OPEN - 1);
    if (chunk && k > chunk) k = chunk;
    if (!k && n && (S->stdin_chunk & STDIN_OPEN)) { S->steps = nsteps; die(V_STDIN); } /* nobody types any more, nobody closes it */
    if (x.shrt > 0 && k > (uint64_t)x.shrt) k = x.shrt;
    memcpy(buf, S->stdin_data + S->stdin_pos, k);
    S->stdin_pos += k; res = k;
  }
  return finish(&x, OP_STDIN, 0, 0, n, res);
}
static int64_t v_out(int fd, const void *buf, uint64_t n) {
  int op = fd == 1 ? OP_STDOUT : OP_STDERR;
  struct fx x = begin(op, 0);
  int64_t res;
  if (x.eintr) res = -EINTR;
  else if (x.err) res = -x.err;
  else {
    uint64_t k = n;
    if (x.shrt > 0 && k > (uint64_t)x.shrt) k = x.shrt;
    uint32_t *len = fd == 1 ? &S->out_len : &S->err_len;
    uint8_t *b = fd == 1 ? S->out : S->err;
    uint64_t c = k > OUTMAX - *len ? OUTMAX - *len : k;
    memcpy(b + *len, buf, c); *len += c;
    res = k;
  }
  return finish(&x, op, 0, 0, n, res);
}

/* ------------------------------------------------------------------ libc surface: files */
static int mode_arg(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; }
EXPORT int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = mode_arg(fl, ap); va_end(ap);
  if (!on) return (int)ret_errno(rsys6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0)); return v_open(AT_FDCWD, p, fl, m); }
EXPORT int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = mode_arg(fl, ap); va_end(ap);
  if (!on) return (int)ret_errno(rsys6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0)); return v_open(AT_FDCWD, p, fl, m); }
EXPORT int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = mode_arg(fl, ap); va_end(ap);
  if (!on) return (int)ret_errno(rsys6(SYS_openat, d, (long)p, fl, m, 0, 0)); return v_open(d, p, fl, m); }
EXPORT int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = mode_arg(fl, ap); va_end(ap);
  if (!on) return (int)ret_errno(rsys6(SYS_openat, d, (long)p, fl, m, 0, 0)); return v_open(d, p, fl, m); }
EXPORT int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int close(int fd) { if (!on || (fd > 2 && !is_v(fd))) return (int)ret_errno(rsys(SYS_close, fd, 0, 0)); if (fd <= 2) return 0; return v_close(fd); }
EXPORT ssize_t read(int fd, void *b, size_t n) { if (on && fd == 0) return v_stdin(b, n); if (!is_v(fd)) return ret_errno(rsys(SYS_read, fd, b, n)); return v_read(fd, b, n, -1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (!is_v(fd)) return ret_errno(rsys6(SYS_pread64, fd, (long)b, n, o, 0, 0)); return v_read(fd, b, n, o); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (on && (fd == 1 || fd == 2)) return v_out(fd, b, n); if (!is_v(fd)) return ret_errno(rsys(SYS_write, fd, b, n)); return v_write(fd, b, n, -1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (!is_v(fd)) return ret_errno(rsys6(SYS_pwrite64, fd, (long)b, n, o, 0, 0)); return v_write(fd, b, n, o); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!is_v(fd) && !(on && fd == 0)) return ret_errno(rsys(SYS_readv, fd, v, c));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return c ? read(fd, v[0].iov_base, 0) : 0;
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!is_v(fd) && !(on && (fd == 1 || fd == 2))) return ret_errno(rsys(SYS_writev, fd, v, c));
  /* joined: one system call */
  size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  if (c == 1) return write(fd, v[0].iov_base, n);
  extern void *__libc_malloc(size_t); extern void __libc_free(void *);
  char *t = __libc_malloc(n ? n : 1), *q = t;
  for (int i = 0; i < c; i++) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
  ssize_t r = write(fd, t, n);
  int e = errno; __libc_free(t); errno = e;
  return r;
}
EXPORT ssize_t preadv64(int fd, const struct iovec *v, int c, off64_t o) { (void)c; return pread64(fd, v[0].iov_base, v[0].iov_len, o); }
EXPORT ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { (void)c; return pwrite64(fd, v[0].iov_base, v[0].iov_len, o); }
EXPORT ssize_t preadv(int fd, const struct iovec *v, int c, off_t o) { return preadv64(fd, v, c, o); }
EXPORT ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return pwritev64(fd, v, c, o); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) { if (on && fd <= 2) { errno = ESPIPE; return -1; } if (!is_v(fd)) return ret_errno(rsys(SYS_lseek, fd, o, w)); return v_seek(fd, o, w); }
EXPORT off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
EXPORT int fsync(int fd) { if (!is_v(fd)) return (int)ret_errno(rsys(SYS_fsync, fd, 0, 0)); return v_sync(fd); }
EXPORT int fdatasync(int fd) { if (!is_v(fd)) return (int)ret_errno(rsys(SYS_fdatasync, fd, 0, 0)); return v_sync(fd); }
EXPORT int syncfs(int fd) { if (!is_v(fd)) return 0; return v_sync(fd); }
EXPORT int ftruncate64(int fd, off64_t n) { struct ofd *o; if (!is_v(fd)) return (int)ret_errno(rsys(SYS_ftruncate, fd, n, 0)); o = fdo(fd); if (!o) { errno = EBADF; return -1; } return v_truncate(o->ino, n, (o->flags & O_ACCMODE) != O_RDONLY); }
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int truncate64(const char *p, off64_t n) { if (!on) return (int)ret_errno(rsys(SYS_truncate, p, n, 0)); struct res r = walk(S->cwd, p, 1, 0); if (r.err || !r.ino) { errno = r.err ? r.err : ENOENT; return -1; } if (denied(r.ino, 0200)) { errno = EACCES; return -1; } return v_truncate(r.ino, n, 1); }
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
EXPORT int posix_fallocate64(int fd, off64_t o, off64_t n) { (void)fd; (void)o; (void)n; return on ? ENOSYS : ENOSYS; }
EXPORT int fallocate64(int fd, int m, off64_t o, off64_t n) { (void)fd; (void)m; (void)o; (void)n; errno = EOPNOTSUPP; return -1; }
EXPORT int posix_fadvise64(int fd, off64_t o, off64_t n, int a) { (void)fd; (void)o; (void)n; (void)a; return 0; }
EXPORT int unlink(const char *p) { if (!on) return (int)ret_errno(rsys(SYS_unlink, p, 0, 0)); return v_unlink(AT_FDCWD, p, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { if (!on) return (int)ret_errno(rsys(SYS_unlinkat, d, p, f)); return v_unlink(d, p, f & AT_REMOVEDIR); }
EXPORT int rmdir(const char *p) { if (!on) return (int)ret_errno(rsys(SYS_rmdir, p, 0, 0)); return v_unlink(AT_FDCWD, p, 1); }
EXPORT int rename(const char *a, const char *b) { if (!on) return (int)ret_errno(rsys(SYS_rename, a, b, 0)); return v_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { if (!on) return (int)ret_errno(rsys6(SYS_renameat, d, (long)a, e, (long)b, 0, 0)); return v_rename(d, a, e, b, 0); }
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned f) { if (!on) return (int)ret_errno(rsys6(SYS_renameat2, d, (long)a, e, (long)b, f, 0)); return v_rename(d, a, e, b, f); }
EXPORT int link(const char *a, const char *b) { if (!on) return (int)ret_errno(rsys(SYS_link, a, b, 0)); return v_link(AT_FDCWD, a, AT_FDCWD, b); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int f) { if (!on) return (int)ret_errno(rsys6(SYS_linkat, d, (long)a, e, (long)b, f, 0)); return v_link(d, a, e, b); }
EXPORT int symlink(const char *a, const char *b) { if (!on) return (int)ret_errno(rsys(SYS_symlink, a, b, 0)); return v_symlink(a, AT_FDCWD, b); }
EXPORT int symlinkat(const char *a, int d, const char *b) { if (!on) return (int)ret_errno(rsys(SYS_symlinkat, a, d, b)); return v_symlink(a, d, b); }
EXPORT int mkdir(const char *p, mode_t m) { if (!on) return (int)ret_errno(rsys(SYS_mkdir, p, m, 0)); return v_mkdir(AT_FDCWD, p, m); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { if (!on) return (int)ret_errno(rsys(SYS_mkdirat, d, p, m)); return v_mkdir(d, p, m); }
static int nop_meta(uint32_t ino, int op) { struct fx x = begin(op, ino); return (int)finish(&x, op, ino, 0, 0, x.err ? -x.err : 0); }
static int set_mode(uint32_t ino, mode_t m) { int r = nop_meta(ino, OP_CHMOD); if (!r) S->ino[ino].mode = (S->ino[ino].mode & ~07777u) | (m & 07777); return r; }
EXPORT int chmod(const char *p, mode_t m) { if (!on) return (int)ret_errno(rsys(SYS_chmod, p, m, 0)); struct res r = walk(S->cwd, p, 1, 0); if (r.err || !r.ino) { errno = r.err ? r.err : ENOENT; return -1; } return set_mode(r.ino, m); }
EXPORT int fchmod(int fd, mode_t m) { if (!is_v(fd)) return (int)ret_errno(rsys(SYS_fchmod, fd, m, 0)); return set_mode(dirfd_ino(fd), m); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { (void)d; (void)f; return chmod(p, m); }
static int nop_path(const char *p) { if (!on) return 0; struct res r = walk(S->cwd, p, 1, 0); if (r.err || !r.ino) { errno = r.err ? r.err : ENOENT; return -1; } return nop_meta(r.ino, OP_CHMOD); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return nop_path(p); }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return nop_path(p); }
EXPORT int fchown(int fd, uid_t u, gid_t g) { (void)u; (void)g; return is_v(fd) ? nop_meta(dirfd_ino(fd), OP_CHMOD) : 0; }
EXPORT int futimens(int fd, const struct timespec *t) { (void)t; return is_v(fd) ? nop_meta(dirfd_ino(fd), OP_CHMOD) : 0; }
EXPORT int utimensat(int d, const char *p, const struct timespec *t, int f) { (void)d; (void)t; (void)f; return nop_path(p); }
EXPORT int flock(int fd, int op) { if (!is_v(fd)) return (int)ret_errno(rsys(SYS_flock, fd, op, 0)); return v_lock(fd, (op & LOCK_UN) ? -1 : (op & LOCK_EX) ? 1 : 0, !(op & LOCK_NB), 0); }
EXPORT int stat64(const char *p, struct stat64 *st) { if (!on) return (int)ret_errno(rsys6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0, 0, 0)); uint32_t i; if (v_stat(AT_FDCWD, p, 0, &i)) return -1; stat_of(i, st); return 0; }
EXPORT int lstat64(const char *p, struct stat64 *st) { if (!on) return (int)ret_errno(rsys6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW, 0, 0)); uint32_t i; if (v_stat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, &i)) return -1; stat_of(i, st); return 0; }
EXPORT int fstat64(int fd, struct stat64 *st) { if (!on || (fd > 2 && !is_v(fd))) return (int)ret_errno(rsys(SYS_fstat, fd, st, 0)); uint32_t i; if (v_stat(fd, 0, AT_EMPTY_PATH, &i)) return -1; stat_of(i, st); return 0; }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int f) { if (!on) return (int)ret_errno(rsys6(SYS_newfstatat, d, (long)p, (long)st, f, 0, 0)); uint32_t i; if (v_stat(d, p, f, &i)) return -1; stat_of(i, st); return 0; }
EXPORT int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
EXPORT int lstat(const char *p, struct stat *st) { return lstat64(p, (struct stat64 *)st); }
EXPORT int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int f) { return fstatat64(d, p, (struct stat64 *)st, f); }
EXPORT int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict x) {
  __asm__ volatile("" : "+r"(p), "+r"(x)); /* glibc declares them nonnull; they are not */
  if (!on) return (int)ret_errno(rsys6(SYS_statx, d, (long)p, f, m, (long)x, 0));
  if (!p || !x) { errno = EFAULT; return -1; } /* the standard library asks this to learn whether statx exists */
  uint32_t i;
  if (v_stat(d, p, f, &i)) return -1;
  struct stat64 st; stat_of(i, &st);
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS | STATX_BTIME; x->stx_blksize = 4096; x->stx_nlink = st.st_nlink; x->stx_mode = st.st_mode; x->stx_ino = st.st_ino;
  x->stx_size = st.st_size; x->stx_blocks = st.st_blocks; x->stx_dev_major = 8; x->stx_dev_minor = minor(st.st_dev);
  x->stx_mtime.tv_sec = x->stx_atime.tv_sec = x->stx_ctime.tv_sec = x->stx_btime.tv_sec = st.st_mtim.tv_sec; x->stx_mtime.tv_nsec = st.st_mtim.tv_nsec;
  return 0;
}
EXPORT int access(const char *p, int m) { if (!on) return (int)ret_errno(rsys(SYS_access, p, m, 0)); uint32_t i; if (v_stat(AT_FDCWD, p, 0, &i)) return -1; if (denied(i, (m & W_OK ? 0200 : 0) | (m & R_OK ? 0400 : 0))) { errno = EACCES; return -1; } return 0; }
EXPORT int faccessat(int d, const char *p, int m, int f) { if (!on) return (int)ret_errno(rsys(SYS_faccessat, d, p, m)); uint32_t i; if (v_stat(d, p, f, &i)) return -1; if (denied(i, (m & W_OK ? 0200 : 0) | (m & R_OK ? 0400 : 0))) { errno = EACCES; return -1; } return 0; }
static void path_of(uint32_t dir, char *buf, size_t n) { /* absolute path of a directory */
  char parts[8][NAMELEN]; int k = 0;
  while (dir != 1 && k < 8) {
    struct dent *d = 0;
    for (uint32_t i = 0; i < S->nent; i++) if (S->ent[i].used && S->ent[i].ino == dir) d = &S->ent[i];
    if (!d) break;
    strcpy(parts[k++], d->name); dir = d->parent;
  }
  buf[0] = 0;
  while (k--) { strncat(buf, "/", n - strlen(buf) - 1); strncat(buf, parts[k], n - strlen(buf) - 1); }
}
EXPORT char *realpath(const char *restrict p, char *restrict out) {
  if (!on) { static char *(*real)(const char *, char *); if (!real) real = dlsym(RTLD_NEXT, "realpath"); return real(p, out); }
  struct res r = walk(S->cwd, p, 1, 0);
  struct fx x = begin(OP_REALPATH, r.ino);
  int res = x.err ? -x.err : r.err ? -r.err : !r.ino ? -ENOENT : 0;
  if (finish(&x, OP_REALPATH, r.ino, 0, 0, res) < 0) return 0;
  char b[PATH_MAX];
  if (S->ino[r.ino].type == IT_DIR) path_of(r.ino, b, sizeof b);
  else { path_of(r.dir, b, sizeof b); strcat(b, "/"); strcat(b, r.name); }
  if (!b[0]) strcpy(b, "/");
  if (out) { strcpy(out, b); return out; }
  return strdup(b);
}
EXPORT ssize_t readlink(const char *restrict p, char *restrict b, size_t n) {
  if (!on) return ret_errno(rsys(SYS_readlink, p, b, n));
  struct res r = walk(S->cwd, p, 0, 0);
  struct fx x = begin(OP_READLINK, r.ino);
  int64_t res = x.err ? -x.err : r.err ? -r.err : !r.ino ? -ENOENT : S->ino[r.ino].type != IT_LNK ? -EINVAL : 0;
  if (!res) { size_t l = strlen(S->ino[r.ino].target); if (l > n) l = n; memcpy(b, S->ino[r.ino].target, l); res = l; }
  return finish(&x, OP_READLINK, r.ino, 0, 0, res);
}
EXPORT char *getcwd(char *b, size_t n) {
  if (!on) { if (ret_errno(rsys(SYS_getcwd, b, n, 0)) < 0) return 0; return b; }
  char t[PATH_MAX]; path_of(S->cwd, t, sizeof t); if (!t[0]) strcpy(t, "/");
  if (!b) return strdup(t);
  if (strlen(t) >= n) { errno = ERANGE; return 0; }
  return strcpy(b, t);
}
EXPORT int chdir(const char *p) { if (!on) return (int)ret_errno(rsys(SYS_chdir, p, 0, 0)); struct res r = walk(S->cwd, p, 1, 0); if (r.err || !r.ino || S->ino[r.ino].type != IT_DIR) { errno = r.err ? r.err : ENOENT; return -1; } S->cwd = r.ino; return 0; }
static int dupfd(int fd) { struct ofd *o = fdo(fd); if (!o) { errno = EBADF; return -1; } int n = fd_new(F[fd - VFD0]); if (n < 0) { errno = -n; return -1; } o->refs++; return n; }
EXPORT int dup(int fd) { if (is_v(fd)) return dupfd(fd); if (on && fd <= 2) { errno = EMFILE; return -1; } return (int)ret_errno(rsys(SYS_dup, fd, 0, 0)); }
static int v_fcntl(int fd, int cmd, long a) {
  if (!is_v(fd)) { if (on && fd <= 2) { if (cmd == F_GETFL) return O_RDWR; if (cmd == F_GETFD) return 0; } return (int)ret_errno(rsys(SYS_fcntl, fd, cmd, a)); }
  struct ofd *o = fdo(fd);
  if (!o) { errno = EBADF; return -1; }
  switch (cmd) {
  case F_DUPFD: case F_DUPFD_CLOEXEC: return dupfd(fd);
  case F_GETFL: return o->flags & ~(O_CREAT | O_TRUNC | O_EXCL);
  case F_SETFL: case F_SETFD: return 0;
  case F_SETLK: case F_SETLKW: case F_OFD_SETLK: case F_OFD_SETLKW: {
    struct flock *l = (struct flock *)a;
    return v_lock(fd, l->l_type == F_UNLCK ? -1 : l->l_type == F_WRLCK, cmd == F_SETLKW || cmd == F_OFD_SETLKW, cmd == F_SETLK || cmd == F_SETLKW ? 1 : 2);
  }
  case F_GETFD: return FD_CLOEXEC;
  default: errno = EINVAL; return -1;
  }
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return v_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return v_fcntl(fd, cmd, a); }
EXPORT int ioctl(int fd, unsigned long r, ...) { va_list ap; va_start(ap, r); long a = va_arg(ap, long); va_end(ap);
  if (on && (fd <= 2 || is_v(fd))) { errno = ENOTTY; return -1; } return (int)ret_errno(rsys(SYS_ioctl, fd, r, a)); }
EXPORT int isatty(int fd) { /* each standard stream is a terminal in half of the runs */
  if (on && fd >= 0 && fd <= 2 && (S->seed_noise >> (40 + fd) & 1)) return 1;
  errno = ENOTTY; return 0;
}
EXPORT int poll(struct pollfd *p, nfds_t n, int t) {
  if (!on) return (int)ret_errno(rsys(SYS_poll, p, n, t));
  for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
  return 0;
}
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { if (!is_v(a) && !is_v(c)) return ret_errno(rsys6(SYS_copy_file_range, a, (long)b, c, (long)d, n, f)); errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { (void)a; (void)b; (void)o; (void)n; errno = ENOSYS; return -1; }
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; errno = ENOSYS; return -1; }

/* directories */
struct vdir { uint32_t ino, pos; int fd; struct dirent64 de; };
EXPORT DIR *opendir(const char *p) {
  if (!on) { static DIR *(*real)(const char *); if (!real) real = dlsym(RTLD_NEXT, "opendir"); return real(p); }
  int fd = v_open(AT_FDCWD, p, O_RDONLY | O_DIRECTORY, 0);
  if (fd < 0) return 0;
  struct vdir *d = calloc(1, sizeof *d); d->ino = dirfd_ino(fd); d->fd = fd; return (DIR *)d;
}
EXPORT DIR *fdopendir(int fd) { struct vdir *d = calloc(1, sizeof *d); d->ino = dirfd_ino(fd); d->fd = fd; return (DIR *)d; }
EXPORT int dirfd(DIR *dd) { return ((struct vdir *)dd)->fd; }
EXPORT int closedir(DIR *dd) { struct vdir *d = (struct vdir *)dd; int r = v_close(d->fd); free(d); return r; }
EXPORT struct dirent64 *readdir64(DIR *dd) {
  struct vdir *d = (struct vdir *)dd;
  for (; d->pos < S->nent; d->pos++) {
    struct dent *e = &S->ent[d->pos];
    if (!e->used || e->parent != d->ino) continue;
    d->pos++;
    memset(&d->de, 0, sizeof d->de);
    d->de.d_ino = 1000 + e->ino; d->de.d_reclen = sizeof d->de; d->de.d_off = d->pos;
    d->de.d_type = S->ino[e->ino].type == IT_DIR ? DT_DIR : S->ino[e->ino].type == IT_LNK ? DT_LNK : DT_REG;
    strcpy(d->de.d_name, e->name);
    return &d->de;
  }
  return 0;
}

/* ------------------------------------------------------------------ clocks, sleeping, random bytes, CPUs */
static uint64_t now_mono(void) { return 1000000000000ull + S->clock_ns; }
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!on) return (int)ret_errno(rsys(SYS_clock_gettime, c, ts, 0));
  S->clock_ns += 100; S->opcount[OP_CLOCK]++;
  uint64_t t = now_mono();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += 1700000000000000000ull + S->wall_off_ns;
  ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) { (void)tz; struct timespec ts; if (clock_gettime(CLOCK_REALTIME, &ts)) return -1; tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static void sleep_until(uint64_t dl) {
  S->opcount[OP_SLEEP]++;
  T[cur].state = T_SLEEP; T[cur].deadline = dl; T[cur].timed = 1;
  block();
  T[cur].timed = 0;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) { (void)b; if (!on) return (int)ret_errno(rsys(SYS_nanosleep, a, b, 0)); sleep_until(S->clock_ns + a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  (void)b; if (!on) return (int)-rsys6(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0);
  uint64_t t = a->tv_sec * 1000000000ull + a->tv_nsec;
  sleep_until(f & TIMER_ABSTIME ? (t > now_mono() ? S->clock_ns + (t - now_mono()) : S->clock_ns) : S->clock_ns + t);
  return 0;
}
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000l}; return nanosleep(&t, 0); }
EXPORT int sched_yield(void) { if (!on) return (int)ret_errno(rsys(SYS_sched_yield, 0, 0, 0)); if (live > 1 && me == cur) { S->spoints++; int t = pick(0); switch_to(t, 0); } return 0; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!on) return ret_errno(rsys(SYS_getrandom, b, n, f));
  S->opcount[OP_RANDOM]++;
  uint8_t *p = b; for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(mix(&r_hash) >> 24);
  return n;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { if (!on) { long r = rsys(SYS_sched_getaffinity, p, n, s); return r < 0 ? (errno = (int)-r, -1) : 0; } memset(s, 0, n); for (uint32_t i = 0; i < S->ncpu && i < n * 8; i++) ((uint8_t *)s)[i / 8] |= 1 << (i % 8); return 0; }
EXPORT long sysconf(int k) {
  static long (*real)(int); if (!real) real = dlsym(RTLD_NEXT, "sysconf");
  if (on && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return S->ncpu;
  return real(k);
}

/* ------------------------------------------------------------------ futex (std's mutexes, condvars, parking) */
static long v_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t *addr2, uint32_t val3) {
  (void)addr2;
  int cmd = op & FUTEX_CMD_MASK;
  S->opcount[OP_FUTEX]++;
  if (++nsteps > step_limit) { S->steps = nsteps; die(V_HANG_STEPS); }
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sched_point();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    struct thr *t = &T[cur];
    t->state = T_FUTEX; t->faddr = addr; t->fbits = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u; t->timed = to != 0; t->woken = 0;
    if (to) {
      uint64_t d = to->tv_sec * 1000000000ull + to->tv_nsec;
      if (cmd == FUTEX_WAIT) t->deadline = S->clock_ns + d;
      else { uint64_t n = now_mono(); if (op & FUTEX_CLOCK_REALTIME) n += 1700000000000000000ull + S->wall_off_ns; t->deadline = S->clock_ns + (d > n ? d - n : 0); }
    }
    block();
    t->timed = 0;
    return t->woken ? 0 : -ETIMEDOUT;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t n = 0, bits = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
    /* which waiter wakes first is the scheduler's choice */
    int c[MAXTHR], k = 0;
    for (int i = 0; i < nthr; i++) if (T[i].state == T_FUTEX && T[i].faddr == addr && (T[i].fbits & bits)) c[k++] = i;
    while (k && n < val) {
      int j = S->sched_mode == 0 ? (int)below(&r_sched, k) : 0;
      T[c[j]].state = T_RUN; T[c[j]].woken = 1; n++;
      for (int q = j; q < k - 1; q++) c[q] = c[q + 1];
      k--;
    }
    sched_point();
    return n;
  }
  return -ENOSYS;
}
static int my_pid = 4242;
EXPORT pid_t gettid(void) { return on ? my_pid + (me >= 0 ? me : 0) : (pid_t)rsys(SYS_gettid, 0, 0, 0); }
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (on) {
    switch (n) {
    case SYS_futex: return ret_errno(v_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f));
    case SYS_getrandom: return getrandom((void *)a, b, (unsigned)c);
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_copy_file_range: return copy_file_range((int)a, (off64_t *)b, (int)c, (off64_t *)d, e, (unsigned)f);
    case SYS_renameat2: return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
    case SYS_sched_yield: return sched_yield();
    case SYS_gettid: return gettid();
    default: S->unsupported = (uint32_t)n; break;
    }
  }
  return ret_errno(rsys6(n, a, b, c, d, e, f));
}
EXPORT pid_t getpid(void) { return on ? my_pid : (pid_t)rsys(SYS_getpid, 0, 0, 0); }

/* ------------------------------------------------------------------ threads */
static void thread_done(void *v) {
  /* key destructors run in rounds; be the last one, so that all thread-local destructors ran under the baton */
  uintptr_t r = (uintptr_t)v;
  if (!on) return;
  if (r < 4) { pthread_setspecific(fin_key, (void *)(r + 1)); return; }
  int self = me;
  if (self < 0 || cur != self) return;
  sched_point();
  T[self].state = T_DONE;
  live--;
  for (int i = 0; i < nthr; i++) if (T[i].state == T_JOIN && T[i].jtarget == self) T[i].state = T_RUN;
  S->spoints++;
  int t = pick(1);
  record(t, 1);
  me = -1;
  give(t);
}
static void *tramp(void *v) {
  struct thr *t = v;
  me = (int)(t - T);
  await(me);
  pthread_setspecific(fin_key, (void *)1);
  return t->start(t->arg);
}
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  if (!on) return real(pt, at, f, arg);
  struct fx x = begin(OP_SPAWN, 0);
  uint32_t no = spawn_no++;
  int fail = x.err;
  for (uint32_t i = 0; i < S->nfault; i++) {
    struct fault *q = &S->faults[i];
    /* arg: how many consecutive attempts fail */
    if (q->atkind == AT_SPAWN && q->kind == FK_SPAWNFAIL && no >= q->at && no < q->at + (uint64_t)(q->arg > 0 ? q->arg : 1)) { q->fired++; S->fired[FK_SPAWNFAIL]++; fail = EAGAIN; x.fk = FK_SPAWNFAIL; }
  }
  if (fail) { finish(&x, OP_SPAWN, 0, 0, 0, -fail); return fail; }
  int s = -1;
  for (int i = 1; i < nthr; i++) if (T[i].state == T_FREE || (T[i].state == T_DONE && (T[i].joined || T[i].detached))) { s = i; break; }
  if (s < 0) { if (nthr >= MAXTHR) { finish(&x, OP_SPAWN, 0, 0, 0, -EAGAIN); return EAGAIN; } s = nthr++; }
  memset(&T[s], 0, sizeof T[s]);
  T[s].start = f; T[s].arg = arg; T[s].state = T_RUN; T[s].serial = serials++;
  in_spawn = 1;
  int r = real(&T[s].pt, at, tramp, &T[s]);
  in_spawn = 0;
  if (r) { T[s].state = T_FREE; finish(&x, OP_SPAWN, 0, 0, 0, -r); return r; }
  *pt = T[s].pt;
  live++; S->spawns++;
  if ((uint64_t)live > S->maxlive) S->maxlive = live;
  if (live == 2) countdown = next_gap();
  finish(&x, OP_SPAWN, 0, 0, 0, T[s].serial);
  sched_point();
  return 0;
}
static int slot_of(pthread_t p) { for (int i = 0; i < nthr; i++) if (T[i].state != T_FREE && !T[i].joined && !T[i].detached && T[i].pt == p && i) return i; return -1; }
EXPORT int pthread_join(pthread_t p, void **ret) {
  static int (*real)(pthread_t, void **);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
  if (!on) return real(p, ret);
  int s = slot_of(p);
  S->opcount[OP_JOIN]++;
  sched_point();
  if (s >= 0) {
    while (T[s].state != T_DONE) { T[cur].state = T_JOIN; T[cur].jtarget = s; block(); }
  }
  in_spawn = 1;
  int r = real(p, ret);
  in_spawn = 0;
  if (s >= 0) T[s].joined = 1;
  return r;
}
EXPORT int pthread_detach(pthread_t p) {
  static int (*real)(pthread_t);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_detach");
  if (on) { int s = slot_of(p); if (s >= 0) T[s].detached = 1; } /* its pthread_t may come back for another thread */
  in_spawn = 1;
  int r = real(p);
  in_spawn = 0;
  return r;
}

/* ------------------------------------------------------------------ memory */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static int refuse(size_t n) {
  if (!on || in_spawn || me != cur) return 0;
  uint32_t no = alloc_no++;
  S->allocs = alloc_no;
  if (S->mem_cap && __atomic_load_n(&S->live_mem, __ATOMIC_RELAXED) + n > S->mem_cap) { S->fired[FK_MEMHIT]++; errno = ENOMEM; return 1; }
  for (uint32_t i = 0; i < S->nfault; i++) {
    struct fault *f = &S->faults[i];
    if (f->atkind == AT_ALLOC && f->kind == FK_ALLOCFAIL && f->at == no) { f->fired++; S->fired[FK_ALLOCFAIL]++; errno = ENOMEM; return 1; }
  }
  return 0;
}
/* only what happens under the baton counts: what glibc does while it starts, reaps or ends an OS thread has no place in time */
static void account(void *p) {
  if (!on || !p || in_spawn || me != cur) return;
  uint64_t l = __atomic_add_fetch(&S->live_mem, malloc_usable_size(p), __ATOMIC_RELAXED);
  if (l > S->peak_mem) S->peak_mem = l;
}
static void unaccount(void *p) {
  if (!on || !p || in_spawn || me != cur) return;
  uint64_t u = malloc_usable_size(p), l = __atomic_load_n(&S->live_mem, __ATOMIC_RELAXED);
  __atomic_sub_fetch(&S->live_mem, u < l ? u : l, __ATOMIC_RELAXED);
}
EXPORT void *malloc(size_t n) { if (refuse(n)) return 0; void *p = __libc_malloc(n); account(p); return p; }
EXPORT void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } if (refuse(n)) return 0; void *p = __libc_calloc(a, b); account(p); return p; }
EXPORT void *realloc(void *o, size_t n) {
  if (refuse(n)) return 0;
  uint64_t before = on && o ? malloc_usable_size(o) : 0;
  void *p = __libc_realloc(o, n);
  if (on && (p || !n)) { uint64_t l = __atomic_load_n(&S->live_mem, __ATOMIC_RELAXED); __atomic_sub_fetch(&S->live_mem, before < l ? before : l, __ATOMIC_RELAXED); account(p); }
  return p;
}
EXPORT void free(void *p) { unaccount(p); __libc_free(p); }
EXPORT void *memalign(size_t a, size_t n) { if (refuse(n)) return 0; void *p = __libc_memalign(a, n); account(p); return p; }
EXPORT void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
EXPORT int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }

/* ------------------------------------------------------------------ several processes on one disk */
/* the driver lets another process run now; it keeps this one's part of the shared memory and puts it back before */
static void let_others(uint32_t w) {
  S->steps = nsteps;
  rsys(SYS_write, FD_ST, &w, 4);
  for (;;) {
    char c;
    long r = rsys(SYS_read, FD_CTL, &c, 1);
    if (r == -EINTR) continue;
    if (r != 1) rsys(SYS_exit_group, 77, 0, 0);
    return;
  }
}

static void pause_here(void) { let_others(0x50415553); }
/* waits for another process (which may be none: the driver knows) */
static void blocked_here(void) { let_others(0x424c4b44); }

/* ------------------------------------------------------------------ fork server */
static void run_child(int argc, char **argv) {
  uint32_t n = S->argc;
  for (uint32_t i = 0; i < n && (int)i < argc; i++) argv[i] = S->args[i];
  if ((int)n < argc) argv[n] = 0;
  r_sched = S->seed_sched; r_noise = S->seed_noise; r_hash = S->seed_hash;
  for (int i = 0; i < MAXVFD; i++) F[i] = -1;
  T[0].state = T_RUN; T[0].pt = pthread_self(); me = 0; cur = 0;
  my_pid = 4242 + 700 * (int)S->cmdidx;
  step_limit = S->max_steps ? S->max_steps : UINT64_MAX;
  S->trace_hash = 0xcbf29ce484222325ull; S->sched_hash = 0xcbf29ce484222325ull;
  S->verdict = V_RUNNING;
  if (S->max_steps >> 42) { struct rlimit rl = {3000, 3005}; setrlimit(RLIMIT_CPU, &rl); }
  on = 1;
}
static void at_end(void) { if (on) S->steps = nsteps; }
__attribute__((constructor)) static void start(int argc, char **argv, char **envp) {
  (void)envp;
  if (!getenv("SIM_SHM_FD")) return;
  void *m = (void *)rsys6(SYS_mmap, 0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, FD_SHM, 0);
  if ((long)m < 0 && (long)m > -4096) rsys(SYS_exit_group, 99, 0, 0);
  S = m;
  S->magic = SIM_MAGIC; S->size_lo = (uint32_t)sizeof(struct shm);
  pthread_key_create(&fin_key, thread_done);
  atexit(at_end);
  unsetenv("LD_PRELOAD"); unsetenv("GLIBC_TUNABLES"); unsetenv("SIM_SHM_FD");
  struct rlimit rl = {60, 3005};
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  uint32_t w = 0x52445921;
  rsys(SYS_write, FD_ST, &w, 4);
  for (;;) {
    char c;
    long r = rsys(SYS_read, FD_CTL, &c, 1);
    if (r == -EINTR) continue;
    if (r != 1) rsys(SYS_exit_group, 0, 0, 0);
    long pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run_child(argc, argv); return; }
    int st = 0;
    if (pid < 0) st = 0x7f00 | 0x7e;
    else while (rsys6(SYS_wait4, pid, (long)&st, 0, 0, 0, 0) == -EINTR) {}
    rsys(SYS_write, FD_ST, &st, 4);
  }
}
