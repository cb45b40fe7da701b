//! The memory shared with a simulated process: mirrors sim/libsim/simshm.h.
#![allow(dead_code)]
pub const MAXARGS: usize = 24;
pub const ARGLEN: usize = 512;
pub const MAXFAULT: usize = 256;
pub const MAXSCHED: usize = 8192;
pub const MAXTRACE: usize = 32768;
pub const MAXINO: usize = 64;
pub const MAXENT: usize = 96;
pub const NAMELEN: usize = 256;
pub const TARGETLEN: usize = 320;
pub const STDINMAX: usize = 4096;
pub const OUTMAX: usize = 65536;
pub const NCOV: usize = 131072;
pub const ARENA: usize = 256 << 20;
pub const JARENA: usize = 96 << 20;
pub const NOP: usize = 48;
pub const NFK: usize = 32;
pub const PATHLEN: usize = 320;
pub const MAXLK: usize = 32;
pub const EZERO: i64 = 9999;
pub const SIM_MAGIC: u32 = 0x48554653;

pub const OPS: [&str; 29] = ["none", "open", "read", "write", "seek", "stat", "close", "sync", "trunc", "unlink", "rename", "link", "mkdir", "rmdir",
    "realpath", "readlink", "chmod", "opendir", "stdin", "stdout", "stderr", "spawn", "clock", "sleep", "random", "join", "futex", "misc", "alloc"];
pub mod op { pub const OPEN: u8 = 1; pub const READ: u8 = 2; pub const WRITE: u8 = 3; pub const SEEK: u8 = 4; pub const STAT: u8 = 5; pub const CLOSE: u8 = 6; pub const SYNC: u8 = 7; pub const TRUNC: u8 = 8;
    pub const UNLINK: u8 = 9; pub const RENAME: u8 = 10; pub const STDIN: u8 = 18; pub const STDOUT: u8 = 19; pub const STDERR: u8 = 20; pub const SPAWN: u8 = 21; }

pub const FKS: [&str; 26] = ["none", "error", "error-sticky", "short", "eintr", "crash-before", "crash-after", "crash-torn-write", "peer-truncates-source", "peer-appends", "peer-flips",
    "peer-creates-destination", "disk-full", "disk-freed", "clock-jump", "stall", "spawn-fails", "alloc-fails", "short-read", "short-write", "eintr-random", "latency", "no-space", "memory-limit", "preemption", "process-switch"];
pub mod fk { pub const ERR: u32 = 1; pub const ERRSTICKY: u32 = 2; pub const SHORT: u32 = 3; pub const EINTR: u32 = 4; pub const CRASH_BEFORE: u32 = 5; pub const CRASH_AFTER: u32 = 6; pub const CRASH_TORN: u32 = 7;
    pub const PEER_TRUNC: u32 = 8; pub const PEER_APPEND: u32 = 9; pub const PEER_FLIP: u32 = 10; pub const PEER_CREATE: u32 = 11; pub const DISKFULL: u32 = 12; pub const DISKFREE: u32 = 13; pub const CLOCKJUMP: u32 = 14;
    pub const STALL: u32 = 15; pub const SPAWNFAIL: u32 = 16; pub const ALLOCFAIL: u32 = 17; pub const PREEMPT: usize = 24; pub const PAUSE: u32 = 25; }
pub mod at { pub const OP: u32 = 0; pub const SPAWN: u32 = 1; pub const ALLOC: u32 = 2; }
pub mod verdict { pub const RUNNING: u32 = 0; pub const CRASH: u32 = 2; pub const HANG_OPS: u32 = 3; pub const HANG_STEPS: u32 = 4; pub const DEADLOCK: u32 = 5; pub const HARNESS: u32 = 6; pub const STDIN: u32 = 7; }
pub mod it { pub const FILE: u32 = 1; pub const DIR: u32 = 2; pub const LNK: u32 = 3; }
pub mod j { pub const CREATE: u32 = 1; pub const UNLINK: u32 = 2; pub const RENAME: u32 = 3; pub const LINK: u32 = 4; pub const MKDIR: u32 = 5; pub const RMDIR: u32 = 6; pub const SYMLINK: u32 = 7; pub const TRUNC: u32 = 8; pub const WRITE: u32 = 9; pub const FSYNC: u32 = 10; }

#[repr(C)] #[derive(Clone, Copy, Debug, PartialEq)] pub struct Fault { pub atkind: u32, pub at: u32, pub kind: u32, pub fired: u32, pub arg: i64 }
#[repr(C)] #[derive(Clone, Copy, Debug, PartialEq)] pub struct Sched { pub step: u64, pub tid: u32, pub forced: u32 }
#[repr(C)] #[derive(Clone, Copy, Debug)] pub struct Trace { pub op: u8, pub fk: u8, pub tid: u16, pub res: i32, pub ino: u32, pub len: u32, pub off: u64 }
#[repr(C)] pub struct Inode { pub typ: u32, pub nlink: u32, pub mode: u32, pub touched: u32, pub off: u64, pub cap: u64, pub size: u64, pub mtime: u64, pub target: [u8; TARGETLEN] }
#[repr(C)] pub struct Dent { pub used: u32, pub parent: u32, pub ino: u32, pub pad: u32, pub name: [u8; NAMELEN] }
#[repr(C)] #[derive(Clone, Copy)] pub struct Lck { pub used: u32, pub ino: u32, pub owner: u32, pub ofd: u32, pub ex: u32, pub posix: u32 }
#[repr(C)] #[derive(Clone, Copy)] pub struct Jrec { pub typ: u32, pub ino: u32, pub parent: u32, pub parent2: u32, pub off: u64, pub len: u64, pub cmd: u32, pub op: u32, pub name: [u8; NAMELEN], pub name2: [u8; NAMELEN] }

#[repr(C)]
pub struct Shm {
    pub magic: u32, pub size_lo: u32,
    pub argc: u32, pub cmdidx: u32,
    pub args: [[u8; ARGLEN]; MAXARGS],
    pub seed_sched: u64, pub seed_noise: u64, pub seed_hash: u64,
    pub sched_mode: u32, pub preempt_mean: u32,
    pub p_short_r: u32, pub p_short_w: u32, pub p_eintr: u32, pub p_lat: u32,
    pub ncpu: u32, pub covbase: u32,
    pub max_ops: u64, pub max_steps: u64, pub mem_cap: u64, pub disk_cap: u64,
    pub stdin_len: u32, pub stdin_pos: u32, pub stdin_chunk: u32, pub user: u32,
    pub stdin_data: [u8; STDINMAX],
    pub peer_src: [u8; PATHLEN], pub peer_dst: [u8; PATHLEN],
    pub nfault: u32, pub nexp: u32,
    pub faults: [Fault; MAXFAULT],
    pub exp: [Sched; MAXSCHED],
    pub verdict: u32, pub exit_code: u32, pub signal: u32, pub wstatus: u32,
    pub ops: u64, pub steps: u64, pub spoints: u64, pub switches: u64, pub spawns: u64, pub allocs: u64, pub maxlive: u64,
    pub trace_hash: u64, pub sched_hash: u64,
    pub live_mem: u64, pub peak_mem: u64, pub max_read: u64, pub max_req: u64,
    pub opcount: [u64; NOP],
    pub fired: [u64; NFK],
    pub ntrace: u32, pub nrec: u32, pub out_len: u32, pub err_len: u32,
    pub trace: [Trace; MAXTRACE],
    pub rec: [Sched; MAXSCHED],
    pub out: [u8; OUTMAX], pub err: [u8; OUTMAX],
    pub cov: [u8; NCOV],
    pub ncov: u32, pub unsupported: u32,
    pub note: [u8; 128],
    pub clock_ns: u64, pub wall_off_ns: u64,
    pub cwd: u32, pub nino: u32, pub nent: u32, pub jcount: u32,
    pub arena_used: u64, pub j_used: u64, pub disk_used: u64, pub disk_limit: u64,
    pub ghost_ino: u64, pub ghost_len: u64,
    pub ino: [Inode; MAXINO],
    pub ent: [Dent; MAXENT],
    pub lk: [Lck; MAXLK],
    pub end_of_fixed: u64,
    pub arena: [u8; ARENA],
    pub jarena: [u8; JARENA],
}
