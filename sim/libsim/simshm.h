/* Layout of the memory shared by the driver (Rust, sim/driver/src/shm.rs mirrors it) and a simulated
 * process (libsim.so). Everything a simulated run reads or leaves behind is in here. */
#ifndef SIMSHM_H
#define SIMSHM_H
#include <stdint.h>

#define SIM_MAGIC   0x48554653u
#define MAXARGS     24
#define ARGLEN      512
#define MAXFAULT    256
#define MAXSCHED    8192
#define MAXTRACE    32768
#define MAXINO      64
#define MAXENT      96
#define NAMELEN     256
#define TARGETLEN   320
#define STDINMAX    4096
#define OUTMAX      65536
#define NCOV        131072
#define ARENA       (256u << 20)
#define JARENA      (96u << 20)
#define NOP         48
#define NFK         32
#define PATHLEN     320
#define MAXLK       32
#define EZERO       9999 /* as the error of a write: 0 bytes are written, without an error */

/* operations (index of opcount[]) */
enum { OP_NONE, OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_STAT, OP_CLOSE, OP_SYNC, OP_TRUNC, OP_UNLINK, OP_RENAME,
       OP_LINK, OP_MKDIR, OP_RMDIR, OP_REALPATH, OP_READLINK, OP_CHMOD, OP_OPENDIR, OP_STDIN, OP_STDOUT, OP_STDERR,
       OP_SPAWN, OP_CLOCK, OP_SLEEP, OP_RANDOM, OP_JOIN, OP_FUTEX, OP_MISC, OP_ALLOC, OP_LAST };

/* fault kinds */
enum { FK_NONE, FK_ERR, FK_ERRSTICKY, FK_SHORT, FK_EINTR, FK_CRASH_BEFORE, FK_CRASH_AFTER, FK_CRASH_TORN,
       FK_PEER_TRUNC, FK_PEER_APPEND, FK_PEER_FLIP, FK_PEER_CREATE, FK_DISKFULL, FK_DISKFREE, FK_CLOCKJUMP, FK_STALL,
       FK_SPAWNFAIL, FK_ALLOCFAIL, FK_NOISE_SHORT_R, FK_NOISE_SHORT_W, FK_NOISE_EINTR, FK_NOISE_LAT, FK_CAPHIT, FK_MEMHIT,
       FK_PREEMPT, FK_PAUSE, FK_LAST };
/* what fault.at counts */
enum { AT_OP, AT_SPAWN, AT_ALLOC, AT_STEP };
/* verdicts */
enum { V_RUNNING, V_EXIT, V_CRASH, V_HANG_OPS, V_HANG_STEPS, V_DEADLOCK, V_HARNESS, V_STDIN };
#define STDIN_OPEN (1u << 30) /* in stdin_chunk: standard input stays open behind its data */

struct fault { uint32_t atkind, at, kind, fired; int64_t arg; };
struct sched { uint64_t step; uint32_t tid, forced; };
struct trace { uint8_t op, fk; uint16_t tid; int32_t res; uint32_t ino, len; uint64_t off; };

enum { IT_FREE, IT_FILE, IT_DIR, IT_LNK };
struct inode { uint32_t type, nlink, mode, touched; uint64_t off, cap, size, mtime; char target[TARGETLEN]; };
struct dent { uint32_t used, parent, ino, pad; char name[NAMELEN]; };

struct lck { uint32_t used, ino, owner, ofd, ex, posix; };

enum { J_NONE, J_CREATE, J_UNLINK, J_RENAME, J_LINK, J_MKDIR, J_RMDIR, J_SYMLINK, J_TRUNC, J_WRITE, J_FSYNC };
struct jrec { uint32_t type, ino, parent, parent2; uint64_t off, len; uint32_t cmd, op; char name[NAMELEN], name2[NAMELEN]; };

struct shm {
  uint32_t magic, size_lo;               /* set by libsim: sizeof(struct shm) */
  /* ---- input */
  uint32_t argc, cmdidx;
  char args[MAXARGS][ARGLEN];
  uint64_t seed_sched, seed_noise, seed_hash;
  uint32_t sched_mode;                   /* 0 seeded, 1 explicit list, 2 never preempt */
  uint32_t preempt_mean;                 /* mean number of scheduling points between preemptions */
  uint32_t p_short_r, p_short_w, p_eintr, p_lat; /* per mille */
  uint32_t ncpu, covbase;              /* covbase: where this program's edges start in cov[] */
  uint64_t max_ops, max_steps, mem_cap, disk_cap;
  uint32_t stdin_len, stdin_pos, stdin_chunk, user; /* user: file permissions are enforced, for writing and reading */
  uint8_t stdin_data[STDINMAX];
  char peer_src[PATHLEN], peer_dst[PATHLEN];
  uint32_t nfault, nexp;
  struct fault faults[MAXFAULT];
  struct sched exp[MAXSCHED];
  /* ---- output */
  uint32_t verdict, exit_code, signal, wstatus;
  uint64_t ops, steps, spoints, switches, spawns, allocs, maxlive;
  uint64_t trace_hash, sched_hash;
  uint64_t live_mem, peak_mem, max_read, max_req;
  uint64_t opcount[NOP];
  uint64_t fired[NFK];
  uint32_t ntrace, nrec, out_len, err_len;
  struct trace trace[MAXTRACE];
  struct sched rec[MAXSCHED];
  uint8_t out[OUTMAX], err[OUTMAX];
  uint8_t cov[NCOV];
  uint32_t ncov, unsupported;
  char note[128];
  /* ---- world: survives from one simulated process to the next */
  uint64_t clock_ns, wall_off_ns;
  uint32_t cwd, nino, nent, jcount;
  uint64_t arena_used, j_used, disk_used, disk_limit;
  uint64_t ghost_ino, ghost_len;         /* a file that is this much longer, in sectors that cannot be read */
  struct inode ino[MAXINO];
  struct dent ent[MAXENT];
  struct lck lk[MAXLK];
  uint64_t end_of_fixed;
  uint8_t arena[ARENA];
  uint8_t jarena[JARENA];
};
#endif
