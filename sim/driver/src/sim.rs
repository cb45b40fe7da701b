//! One simulator: a shared memory block and the fork servers of the two programs that run on it.
use crate::case::{Case, Cmd, Step};
use crate::shm::{self, verdict, Shm};
use crate::world::{self, World};
use std::collections::HashSet;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

extern "C" {
    fn memfd_create(name: *const i8, flags: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn poll(p: *mut Pfd, n: u64, t: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn setsid() -> i32;
    fn personality(p: u64) -> i32;
}
#[repr(C)] struct Pfd { fd: i32, events: i16, revents: i16 }

pub struct Srv { child: Child, ctl: i32, st: i32 }
impl Srv {
    fn start(bin: &str, lib: &str, shmfd: i32) -> Result<Srv, String> {
        unsafe {
            let mut c = [0i32; 2]; let mut s = [0i32; 2];
            if pipe2(c.as_mut_ptr(), 0o2000000) != 0 || pipe2(s.as_mut_ptr(), 0o2000000) != 0 { return Err("pipe".into()); }
            let (cr, sw) = (c[0], s[1]);
            let mut cmd = Command::new(bin);
            cmd.args(vec!["xxxxxxxxxxxxxxxx"; shm::MAXARGS + 4]).env_clear().env("LD_PRELOAD", lib).env("SIM_SHM_FD", "197").env("GLIBC_TUNABLES", "glibc.malloc.arena_max=1:glibc.malloc.tcache_count=0").env("RUST_BACKTRACE", "0")
                .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).current_dir("/");
            cmd.pre_exec(move || {
                setsid(); personality(0x0040000);
                if dup2(shmfd, 197) < 0 || dup2(cr, 198) < 0 || dup2(sw, 199) < 0 { return Err(std::io::Error::last_os_error()); }
                Ok(())
            });
            let child = cmd.spawn().map_err(|e| format!("{}: {}", bin, e))?;
            close(cr); close(sw);
            let srv = Srv { child, ctl: c[1], st: s[0] };
            match srv.word(60_000) { Some(0x52445921) => Ok(srv), x => Err(format!("{} does not start under the simulator ({:?})", bin, x)) }
        }
    }
    fn word(&self, ms: i32) -> Option<u32> {
        unsafe {
            let mut p = Pfd { fd: self.st, events: 1, revents: 0 };
            loop { let r = poll(&mut p, 1, ms); if r > 0 { break } if r == 0 { return None; } }
            let mut b = [0u8; 4];
            if read(self.st, b.as_mut_ptr() as *mut _, 4) != 4 { return None; }
            Some(u32::from_le_bytes(b))
        }
    }
    fn go(&self, ms: i32) -> Option<u32> { let c = [1u8]; if unsafe { write(self.ctl, c.as_ptr() as *const _, 1) } != 1 { return None; } self.word(ms) }
}
impl Drop for Srv { fn drop(&mut self) { unsafe { kill(-(self.child.id() as i32), 9); close(self.ctl); close(self.st); } let _ = self.child.kill(); let _ = self.child.wait(); } }

#[derive(Clone, Debug)]
pub enum End { Exit(i32), Signal(i32), Crash, Hang(&'static str), Harness(String) }
#[derive(Clone, Debug)]
pub struct Out {
    pub end: End, pub stdout: Vec<u8>, pub stderr: Vec<u8>, pub ops: u64, pub steps: u64, pub spoints: u64, pub spawns: u64, pub allocs: u64,
    pub trace_hash: u64, pub sched_hash: u64, pub peak: u64, pub max_req: u64, pub switches: u64, pub maxlive: u64, pub unsupported: u32,
    pub fired: [u64; shm::NFK], pub trace: Vec<shm::Trace>, pub stdin_left: u32,
}
impl Out {
    pub fn code(&self) -> Option<i32> { if let End::Exit(c) = self.end { Some(c) } else { None } }
    pub fn ok(&self) -> bool { matches!(self.end, End::Exit(0)) }
    pub fn ended(&self) -> bool { matches!(self.end, End::Exit(_) | End::Signal(_)) }
    pub fn hung(&self) -> bool { matches!(self.end, End::Hang(_)) }
    pub fn err(&self) -> String { String::from_utf8_lossy(&self.stderr).trim().replace('\n', " | ").chars().take(200).collect() }
    pub fn show(&self) -> String { match &self.end { End::Exit(c) => format!("exit {} ({})", c, self.err()), End::Signal(s) => format!("signal {} ({})", s, self.err()), End::Crash => "killed by the simulator".into(), End::Hang(w) => format!("hang: {}", w), End::Harness(h) => format!("harness: {}", h) } }
    pub fn hit(&self, k: u32) -> bool { self.fired[k as usize] > 0 }
}

/// what a process reports in place of its end: it lets others run, or waits for one of them
const PAUSED: u32 = 0x50415553;
const BLOCKED: u32 = 0x424c4b44;
/// what a worker has covered
#[derive(Default)]
pub struct Stats {
    pub runs: u64, pub ops: u64, pub steps: u64, pub sim_ns: u64, pub spawns: u64, pub switches: u64,
    pub fired: [u64; shm::NFK], pub opcount: Vec<u64>, pub ends: std::collections::BTreeMap<String, u64>,
    pub traces: HashSet<u64>, pub scheds: HashSet<u64>, pub crash_points: HashSet<(u8, u64)>, pub power_states: HashSet<u64>,
    pub cov_cli: Vec<u8>, pub cov_lib: Vec<u8>, pub ncov_cli: u32, pub ncov_lib: u32, pub unsupported: HashSet<u32>, pub mixed: u64,
}

pub struct Sim { shm: *mut Shm, fd: i32, cli: Option<Srv>, lib: Option<Srv>, more: Vec<Option<Srv>>, dir: String, pub stats: Stats, pub init: World, pub cmdidx: u32, pub quiet: bool }
impl Sim {
    pub fn new(dir: &str) -> Result<Sim, String> {
        unsafe {
            let fd = memfd_create(b"huffsim\0".as_ptr() as *const i8, 1);
            let n = std::mem::size_of::<Shm>();
            if fd < 0 || ftruncate(fd, n as i64) != 0 { return Err("memfd".into()); }
            let p = mmap(std::ptr::null_mut(), n, 3, 1, fd, 0);
            if p as isize == -1 { return Err("mmap".into()); }
            Ok(Sim { shm: p as *mut Shm, fd, cli: None, lib: None, more: vec![], dir: dir.into(), stats: Stats { cov_cli: vec![0; shm::NCOV], cov_lib: vec![0; shm::NCOV], opcount: vec![0; shm::NOP], ..Default::default() }, init: World::new(), cmdidx: 0, quiet: false })
        }
    }
    pub fn s(&mut self) -> &mut Shm { unsafe { &mut *self.shm } }
    /// the fork server for process number `i` of those that run at once
    fn server(&mut self, lib: bool, i: usize) -> Result<&Srv, String> {
        while self.more.len() < i { self.more.push(None) }
        let slot = if i > 0 { &mut self.more[i - 1] } else if lib { &mut self.lib } else { &mut self.cli };
        if slot.is_none() {
            let bin = if lib { format!("{}/lib/release/libwork", self.dir) } else { format!("{}/cli/release/huff", self.dir) };
            let so = format!("{}/libsim.so", self.dir);
            let srv = Srv::start(&bin, &so, self.fd)?;
            let s = unsafe { &*self.shm };
            if s.magic != shm::SIM_MAGIC || s.size_lo as usize != (std::mem::size_of::<Shm>() & 0xffffffff) { return Err(format!("shared memory layout differs: {} and {}", s.size_lo, std::mem::size_of::<Shm>())); }
            *slot = Some(srv);
        }
        Ok(slot.as_ref().unwrap())
    }
    /// start over with this disk; everything on it is durable
    pub fn load(&mut self, w: &World) { self.init = w.clone(); self.cmdidx = 0; let s = unsafe { &mut *self.shm }; w.load(s); }
    pub fn world(&mut self) -> World { World::read(self.s()) }
    pub fn power(&mut self, seed: u64) -> World { let w = self.power_state(seed); self.load(&w); w }
    pub fn power_state(&mut self, seed: u64) -> World {
        let now = self.world(); let j = world::journal(self.s()); let w = world::power_loss(&self.init, &j, &now, seed);
        if !self.quiet { self.stats.power_states.insert(w.hash() ^ (j.len() as u64).wrapping_mul(0x9E3779B97F4A7C15)); }
        w
    }
    /// do one step of a case; the result of a run if it was one
    pub fn step(&mut self, st: &Step) -> Option<Out> {
        match st {
            Step::Run(c) => Some(self.run(c)),
            Step::Par(v, o) => self.par(v, o).pop(),
            Step::Power(seed) => { self.power(*seed); None }
            Step::Set(p, c) => { let mut w = self.world(); w.set_file(p, c.bytes().to_vec()); self.load(&w); None }
            Step::Remove(p) => { let mut w = self.world(); let (d, n) = p.rsplit_once('/').unwrap(); if let Some(d) = w.find(d) { w.ents.retain(|e| !(e.0 == d && e.1 == n)); } self.load(&w); None }
        }
    }
    pub fn run(&mut self, c: &Cmd) -> Out {
        for attempt in 0..2 {
            match self.run1(c) { Ok(o) => return o, Err(e) => { if attempt == 1 { return self.blank(End::Harness(e)); } self.cli = None; self.lib = None; self.more.clear(); } }
        }
        unreachable!()
    }
    fn blank(&self, end: End) -> Out { Out { end, stdout: vec![], stderr: vec![], ops: 0, steps: 0, spoints: 0, spawns: 0, allocs: 0, trace_hash: 0, sched_hash: 0, peak: 0, max_req: 0, switches: 0, maxlive: 0, unsupported: 0, fired: [0; shm::NFK], trace: vec![], stdin_left: 0 } }
    fn run1(&mut self, c: &Cmd) -> Result<Out, String> {
        self.server(c.lib, 0)?;
        let clock0 = self.setup(c);
        let mut st = self.server(c.lib, 0)?.go(if c.max_steps >> 42 > 0 { 3_000_000 } else { 60_000 });
        if st == Some(BLOCKED) { st = None; }
        if st.is_none() { if c.lib { self.lib = None } else { self.cli = None } }
        Ok(self.collect(c, st, clock0))
    }
    /// what a process starts with
    fn setup(&mut self, c: &Cmd) -> u64 {
        {
            let s = unsafe { &mut *self.shm };
            let mut args = vec![if c.lib { "libwork".to_string() } else { "huff".to_string() }]; args.extend(c.args.iter().cloned());
            assert!(args.len() <= shm::MAXARGS);
            s.argc = args.len() as u32; s.cmdidx = self.cmdidx; self.cmdidx += 1;
            for (i, a) in args.iter().enumerate() { world::put(&mut s.args[i], a.as_bytes()); }
            s.seed_sched = c.seed_sched; s.seed_noise = c.seed_noise; s.seed_hash = c.seed_hash;
            s.sched_mode = c.mode; s.preempt_mean = c.mean; s.p_short_r = c.psr; s.p_short_w = c.psw; s.p_eintr = c.peintr; s.p_lat = c.plat; s.ncpu = c.ncpu; s.covbase = if c.lib { 16384 } else { 0 };
            s.max_ops = c.max_ops; s.max_steps = c.max_steps; s.mem_cap = c.mem_cap;
            s.stdin_len = c.stdin.len() as u32; s.stdin_pos = 0; s.stdin_chunk = c.stdin_chunk; s.stdin_data[..c.stdin.len()].copy_from_slice(&c.stdin);
            world::put(&mut s.peer_src, c.peer_src.as_bytes()); world::put(&mut s.peer_dst, c.peer_dst.as_bytes());
            assert!(c.faults.len() <= shm::MAXFAULT);
            s.nfault = c.faults.len() as u32; for (i, f) in c.faults.iter().enumerate() { s.faults[i] = *f; s.faults[i].fired = 0; }
            let ne = c.exp.len().min(shm::MAXSCHED); s.nexp = ne as u32; s.exp[..ne].copy_from_slice(&c.exp[..ne]);
            s.verdict = 0; s.exit_code = 0; s.signal = 0; s.ops = 0; s.steps = 0; s.spoints = 0; s.switches = 0; s.spawns = 0; s.allocs = 0; s.maxlive = 1; s.trace_hash = 0; s.sched_hash = 0;
            s.live_mem = 0; s.peak_mem = 0; s.max_read = 0; s.max_req = 0; s.opcount = [0; shm::NOP]; s.fired = [0; shm::NFK]; s.ntrace = 0; s.nrec = 0; s.out_len = 0; s.err_len = 0; s.unsupported = 0; s.note[0] = 0;
            s.clock_ns
        }
    }
    /// the locks of a process that has ended are gone
    fn release(&mut self) { let s = self.s(); let me = s.cmdidx; for l in s.lk.iter_mut() { if l.owner == me { l.used = 0 } } }
    /// what a process has left behind
    fn collect(&mut self, c: &Cmd, st: Option<u32>, clock0: u64) -> Out {
        self.release();
        let s = unsafe { &mut *self.shm };
        let end = match st {
            None => { End::Hang("no progress outside the simulator's control for 60 s") }
            Some(st) => {
                let code = (st >> 8 & 0xff) as i32; let sig = (st & 0x7f) as i32;
                match s.verdict {
                    verdict::CRASH => End::Crash,
                    verdict::HANG_OPS => End::Hang("too many operations"),
                    verdict::HANG_STEPS => End::Hang("too many computation steps"),
                    verdict::DEADLOCK => End::Hang("every thread waits"),
                    verdict::STDIN => End::Hang("it waits for input that does not come"),
                    verdict::HARNESS => End::Harness(s.note.iter().take_while(|x| **x != 0).map(|x| *x as char).collect()),
                    _ => if sig == 24 { End::Hang("out of CPU time") } else if sig == 9 { End::Harness("killed from outside".into()) } else if sig != 0 { End::Signal(sig) } else { End::Exit(code) },
                }
            }
        };
        let o = Out { end, stdout: s.out[..s.out_len as usize].to_vec(), stderr: s.err[..s.err_len as usize].to_vec(), ops: s.ops, steps: s.steps, spoints: s.spoints, spawns: s.spawns, allocs: s.allocs,
            trace_hash: s.trace_hash, sched_hash: s.sched_hash, peak: s.peak_mem, max_req: s.max_req, switches: s.switches, maxlive: s.maxlive, unsupported: s.unsupported, fired: s.fired,
            trace: s.trace[..s.ntrace as usize].to_vec(), stdin_left: s.stdin_len - s.stdin_pos };
        if !self.quiet {
            let t = &mut self.stats;
            if c.lib { t.ncov_lib = s.ncov } else { t.ncov_cli = s.ncov }
            t.runs += 1; t.ops += o.ops; t.steps += o.steps; t.sim_ns += s.clock_ns - clock0; t.spawns += o.spawns; t.switches += o.switches;
            for i in 0..shm::NFK { t.fired[i] += o.fired[i] } for i in 0..shm::NOP { t.opcount[i] += s.opcount[i] }
            *t.ends.entry(match &o.end { End::Exit(c) => format!("exit {}", c), End::Signal(c) => format!("signal {}", c), End::Crash => "killed".into(), End::Hang(h) => format!("hang: {}", h), End::Harness(_) => "harness".into() }).or_insert(0) += 1;
            if t.traces.len() < 4_000_000 { t.traces.insert(o.trace_hash ^ o.sched_hash.rotate_left(17)); }
            if o.fired[shm::fk::PREEMPT] > 0 && t.scheds.len() < 4_000_000 { t.scheds.insert(o.sched_hash); }
            if matches!(o.end, End::Crash) { if let Some(l) = o.trace.last() { t.crash_points.insert((l.op, o.ops)); } }
            if o.unsupported != 0 { t.unsupported.insert(o.unsupported); }
            t.mixed ^= o.trace_hash.wrapping_mul(o.sched_hash | 1);
        }
        o
    }
    /// several processes on one disk; they change places at the operations marked with a PAUSE fault
    pub fn par(&mut self, cmds: &[Cmd], order: &[u8]) -> Vec<Out> {
        for attempt in 0..2 {
            let w = self.world(); let idx = self.cmdidx;
            match self.par1(cmds, order) {
                Ok(o) => return o,
                Err(e) => { self.cli = None; self.lib = None; self.more.clear(); if attempt == 1 { return cmds.iter().map(|_| self.blank(End::Harness(e.clone()))).collect(); } self.cmdidx = idx; w.load(self.s()); }
            }
        }
        unreachable!()
    }
    fn par1(&mut self, cmds: &[Cmd], order: &[u8]) -> Result<Vec<Out>, String> {
        let n = cmds.len();
        let mut saved: Vec<Option<Vec<u8>>> = (0..n).map(|_| None).collect();
        let mut clock0 = vec![0; n];
        let mut stuck = vec![false; n];
        let mut done: Vec<Option<Out>> = (0..n).map(|_| None).collect();
        let base = self.cmdidx;
        for (i, c) in cmds.iter().enumerate() { self.server(c.lib, i)?; }
        for turn in 0usize.. {
            let alive: Vec<usize> = (0..n).filter(|i| done[*i].is_none()).collect();
            if alive.is_empty() { break; }
            let free: Vec<usize> = alive.iter().copied().filter(|i| !stuck[*i]).collect();
            if free.is_empty() {
                // every process waits for another one
                self.cli = None; self.lib = None; self.more.clear();
                for i in alive { done[i] = Some(self.blank(End::Hang("processes wait for each other"))); }
                break;
            }
            let alive = free;
            let i = alive[if order.is_empty() { 0 } else { order[turn % order.len()] as usize % alive.len() }];
            match saved[i].take() { Some(b) => self.restore(&b), None => { self.cmdidx = base + i as u32; clock0[i] = self.setup(&cmds[i]); } }
            let st = self.server(cmds[i].lib, i)?.go(60_000);
            if st == Some(BLOCKED) { stuck[i] = true; saved[i] = Some(self.save()); continue; }
            stuck.fill(false);
            if st == Some(PAUSED) { saved[i] = Some(self.save()); continue; }
            if st.is_none() { return Err("a process does not answer".into()); }
            let o = self.collect(&cmds[i], st, clock0[i]);
            done[i] = Some(o);
        }
        self.cmdidx = base + n as u32;
        Ok(done.into_iter().map(|o| o.unwrap()).collect())
    }
    /// the parts of the shared memory that belong to one process
    fn parts(&mut self) -> Vec<(usize, usize)> {
        let s = self.s();
        let base = s as *const Shm as usize;
        macro_rules! at { ($f:ident) => { &s.$f as *const _ as usize - base } }
        vec![(0, at!(exp)), (at!(exp), s.nexp as usize * std::mem::size_of::<shm::Sched>()), (at!(verdict), at!(trace) - at!(verdict)), (at!(trace), s.ntrace as usize * std::mem::size_of::<shm::Trace>()),
            (at!(rec), s.nrec as usize * std::mem::size_of::<shm::Sched>()), (at!(out), s.out_len as usize), (at!(err), s.err_len as usize), (at!(ncov), at!(clock_ns) - at!(ncov))]
    }
    fn save(&mut self) -> Vec<u8> {
        let parts = self.parts(); let p = self.shm as *const u8;
        let mut v = vec![];
        v.extend((parts.len() as u64).to_le_bytes());
        for (o, n) in parts { v.extend((o as u64).to_le_bytes()); v.extend((n as u64).to_le_bytes()); v.extend(unsafe { std::slice::from_raw_parts(p.add(o), n) }); }
        v
    }
    fn restore(&mut self, v: &[u8]) {
        let p = self.shm as *mut u8;
        let w = |i: usize| u64::from_le_bytes(v[i..i + 8].try_into().unwrap()) as usize;
        let mut at = 8;
        for _ in 0..w(0) { let (o, n) = (w(at), w(at + 8)); at += 16; unsafe { std::ptr::copy_nonoverlapping(v[at..].as_ptr(), p.add(o), n) } at += n; }
    }
    /// the scheduling decisions of the last run
    pub fn recorded(&mut self) -> (Vec<shm::Sched>, bool) { let s = self.s(); (s.rec[..s.nrec as usize].to_vec(), (s.nrec as usize) < shm::MAXSCHED) }
    pub fn begin(&mut self, c: &Case) { let w = c.world(); self.load(&w); }
    pub fn merge_cov(&mut self) { let s = unsafe { &*self.shm }; for i in 0..shm::NCOV { if i < 16384 { self.stats.cov_cli[i] |= s.cov[i]; } else { self.stats.cov_lib[i - 16384] |= s.cov[i]; } } }
}
impl Drop for Sim { fn drop(&mut self) { self.cli = None; self.lib = None; self.more.clear(); unsafe { munmap(self.shm as *mut u8, std::mem::size_of::<Shm>()); close(self.fd); } } }
