//! Random contents, jobs, noise and faults.
use crate::case::{Case, Cmd, Init};
use crate::rng::Rng;
use crate::shm::{self, at, fk};
use crate::sim::Out;

/// contents too large to write out
pub fn big(kind: u64, seed: u64, len: usize) -> Vec<u8> {
    if kind >= 100 { let d = big(kind - 100, seed, len); return crate::codec::encode(&d, &mut Rng::new(seed), 0, false); }
    let mut r = Rng::new(seed);
    match kind {
        0 => (0..len).map(|_| r.next() as u8).collect(),
        1 => (0..len).map(|_| { let x = r.next(); (x.trailing_zeros().min(40)) as u8 }).collect(), // geometric
        2 => (0..len).map(|i| if i % 1000 == 999 { r.next() as u8 } else { b'a' }).collect(),
        3 => { let k = 2 + r.us(30); (0..len).map(|_| b'a' + r.us(k).min(r.us(k)) as u8).collect() }
        5 => { // counts 1, 1, 2, 3, 5, ...: the longest codes a file of this size can have
            let mut f = vec![1usize, 1]; let mut sum = 2;
            while f.len() < 250 { let x = f[f.len() - 1] + f[f.len() - 2]; if sum + x > len { break } f.push(x); sum += x }
            let base = seed as u8; let mut v = Vec::with_capacity(len);
            for (i, n) in f.iter().enumerate() { v.resize(v.len() + n, base.wrapping_add(i as u8)) }
            let last = base.wrapping_add(f.len() as u8 - 1); v.resize(len, last);
            let mut o = vec![0; len]; let mut at = 0; let step = (len / 3 | 1) + (seed >> 8) as usize % 1000 * 2; let step = { let mut s = step; while gcd(s, len) != 1 { s += 1 } s };
            for x in v { o[at] = x; at = (at + step) % len }
            o }
        6 => { // letters of three bytes, very many of them different
            let n = len / 3; let k = n.min(65_530 + (seed % 6000) as usize).max(1);
            let step = { let mut s = (seed >> 16) as usize % k | 1; while gcd(s, k) != 1 { s += 1 } s };
            let mut v: Vec<u8> = (0..n).flat_map(|i| { let x = if i < k { i * step % k } else { r.skew(k - 1) }; [(x >> 16) as u8, (x >> 8) as u8, x as u8] }).collect();
            v.resize(len / 3 * 3, 0); v }
        _ => vec![(seed & 255) as u8; len],
    }
}

fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
pub fn bytes(r: &mut Rng, len: usize) -> Vec<u8> {
    let mut v: Vec<u8> = match r.us(14) {
        0 => (0..len).map(|_| r.next() as u8).collect(),
        1 => { let k = *r.pick(&[1usize, 2, 2, 3, 4, 5, 8, 9, 16, 17, 33, 100, 255]); let al: Vec<u8> = (0..k).map(|_| r.next() as u8).collect(); (0..len).map(|_| *r.pick(&al)).collect() }
        2 => { let b: u8 = r.next() as u8; (0..len).map(|_| { let t = r.next().trailing_zeros() as u8; b.wrapping_add(t) }).collect() }
        3 => { let fib: Vec<u64> = { let mut f = vec![1u64, 1]; for i in 2..24 { let x = f[i - 1] + f[i - 2]; f.push(x) } f }; let n = r.range(2, 23); let tot: u64 = fib[..n].iter().sum(); let base = r.next() as u8;
            (0..len).map(|_| { let mut x = r.below(tot); let mut i = 0; while x >= fib[i] { x -= fib[i]; i += 1 } base.wrapping_add(i as u8) }).collect() }
        4 => { let mut o = vec![]; while o.len() < len { let b = r.next() as u8; let n = 1 + r.skew(60); for _ in 0..n { o.push(b) } } o }
        5 => (0..len).map(|i| i as u8).collect(),
        6 => { let t = b"the quick brown fox jumps over the lazy dog, and then it does it again; "; (0..len).map(|i| t[(i + r.us(2)) % t.len()]).collect() }
        7 => { let mut o: Vec<u8> = (0..len).map(|i| (i * 256 / len.max(1)) as u8).collect(); if r.chance(1, 2) { o.reverse() } o }
        8 => { let b = *r.pick(&[0u8, 1, 127, 128, 254, 255]); vec![b; len] }
        9 => (0..len).map(|_| *r.pick(&[0u8, 255])).collect(),
        10 => (0..len).map(|_| if r.chance(1, 3) { 0 } else { r.range(1, 254) as u8 }).collect(), // 0 present, 255 absent
        11 => (0..len).map(|_| r.range(128, 255) as u8).collect(),
        12 if len > 0 => { let s = r.next() >> 8; big(5, s, len) }
        _ => { // exact powers of two and near ties
            let k = 1 << r.range(1, 8); (0..len).map(|i| (i % k) as u8).collect() }
    };
    v.truncate(len);
    if len > 1 && r.chance(1, 6) { v.sort() }
    if len > 2 && r.chance(1, 8) { let b = r.next() as u8; let n = v.len(); v[n - 1] = b; }
    v
}
pub fn len(r: &mut Rng, max: usize) -> usize {
    let l = match r.us(10) { 0 => r.range(1, 3), 1 | 2 => r.range(1, 20), 3 | 4 => r.range(1, 300), 5 | 6 => r.range(200, 3000), 7 => *r.pick(&[255usize, 256, 257, 511, 512, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537]), 8 => r.range(1, 20_000), _ => r.range(1, 70_000) };
    l.min(max).max(1)
}
/// -b values around everything that could matter for a file of `n` bytes; at most about `blocks` blocks
pub fn block(r: &mut Rng, n: usize, blocks: usize) -> Option<String> {
    let min = (n / blocks.max(1)).max(1);
    let b = match r.us(16) {
        // a buffer of 2 GB is costly if it is touched
        0 => if r.chance(1, 5) { return None } else { return Some(r.pick(&["3M", "1Mi", "700k", "2M"]).to_string()) },
        1 => n, 2 => n + 1, 3 => n.saturating_sub(1).max(1),
        4 => { let d: Vec<usize> = (1..=n.min(4000)).filter(|d| n % d == 0).collect(); *r.pick(&d) } // exact multiple
        5 => (n + 1) / 2, 6 => n / 2 + 1, 7 => (n + 2) / 3,
        8 => *r.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 23, 24, 25]),
        9 => *r.pick(&[4096usize, 8191, 8192, 8193, 16384, 1000]),
        10 => r.range(1, n + 10), 11 => r.skew(n) + 1,
        12 => n * 2 + 3,
        13 => return Some((*r.pick(&["1K", "1Ki", "8k", "64ki", "1M", "2mi", "5m", "1M", "9M", "300k", "1Mi", "4M", "1G", "100M"])).to_string()).filter(|s| !(s.len() == 2 && n / 1000 > blocks)),
        14 => 5 + r.us(300), // around header and tree sizes
        _ => r.range(1, 64),
    };
    Some(b.max(min).max(1).to_string())
}

pub const NAMES: [&str; 9] = ["a", "src.bin", "data.txt", "f.tar.gz", "with space", "ünï.dat", "x.hff.bak", ".hid", "UPPER.BIN"];
#[derive(Clone, Debug)]
pub struct Job { pub comp: bool, pub src: String, pub dst_arg: Option<String>, pub srcabs: String, pub dstabs: String, pub n: bool, pub r: bool, pub t: bool, pub bs: Option<String> }
impl Job {
    /// a job with its files somewhere under /w; the source is added to the case by the caller
    pub fn random(r: &mut Rng, comp: bool) -> Job {
        let mut name = r.pick(&NAMES).to_string();
        if !comp { name.push_str(".hff") }
        let sub = r.us(4);
        let (src, srcabs) = match sub { 0 => (format!("in/{}", name), format!("/w/in/{}", name)), 1 => (format!("/w/{}", name), format!("/w/{}", name)), 2 => (format!("./{}", name), format!("/w/{}", name)), _ => (name.clone(), format!("/w/{}", name)) };
        let expl = r.chance(1, 2) || (!comp && sub < 2);
        let d = r.pick(&["out", "./res", "/w/outdir/o.dat", "outdir/o", "result.v1"]).to_string();
        let abs = |p: &str| if let Some(x) = p.strip_prefix("./") { format!("/w/{}", x) } else if p.starts_with('/') { p.to_string() } else { format!("/w/{}", p) };
        let (dst_arg, dstabs) = if expl { (Some(d.clone()), if comp { abs(&d) + ".hff" } else { abs(&d) }) }
            else { (None, if comp { format!("/w/{}.hff", name) } else { format!("/w/{}", &name[..name.len() - 4]) }) };
        Job { comp, src, dst_arg, srcabs, dstabs, n: r.chance(1, 2), r: false, t: r.chance(1, 10), bs: None }
    }
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if !self.comp { v.push("-d".into()) }
        if self.n { v.push("-n".into()) }
        if self.r { v.push("-r".into()) }
        if self.t { v.push("-t".into()) }
        if let Some(b) = &self.bs { v.push("-b".into()); v.push(b.clone()) }
        v.push("--".into());
        v.push(self.src.clone());
        if let Some(d) = &self.dst_arg { v.push(d.clone()) }
        v
    }
    pub fn block(&self) -> u64 { match &self.bs { None => 2_000_000_000, Some(s) => { let s = s.to_lowercase(); let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect(); let n: u64 = d.parse().unwrap_or(u64::MAX); n.saturating_mul(match &s[d.len()..] { "k" => 1000, "m" => 1_000_000, "g" => 1_000_000_000, "ki" => 1024, "mi" => 1 << 20, "gi" => 1 << 30, _ => 1 }) } } }
    pub fn cmd(&self, r: &mut Rng) -> Cmd { let mut c = Cmd::new(false, self.args()); sched(r, &mut c); c.peer_src = self.srcabs.clone(); c.peer_dst = self.dstabs.clone(); c.max_steps += 4 * self.block().min(1 << 33); c }
    pub fn store(&self, c: &mut Case) {
        for (k, v) in [("src", &self.srcabs), ("dst", &self.dstabs)] { c.set(k, v); }
        c.set("comp", self.comp as u32); c.set("r", self.r as u32); c.set("n", self.n as u32); c.set("block", self.block());
        for d in ["/w/in", "/w/outdir"] { c.init.push(Init::Dir(d.into())) }
    }
}
/// seeds and scheduling policy
pub fn sched(r: &mut Rng, c: &mut Cmd) {
    c.seed_sched = r.next(); c.seed_noise = r.next(); c.seed_hash = r.next();
    c.ncpu = *r.pick(&[1, 2, 4, 8, 64]);
    if r.chance(1, 5) { c.mode = 2 } else { c.mode = 0; c.mean = *r.pick(&[3, 10, 40, 150, 600, 3000, 20000]); }
}
/// benign disturbances: short transfers, interruptions, latency
pub fn noise(r: &mut Rng, c: &mut Cmd) {
    let p = [0u32, 0, 20, 100, 300, 700, 1000];
    c.psr = *r.pick(&p); c.psw = *r.pick(&p); c.peintr = *r.pick(&[0, 0, 20, 100, 300, 600]); c.plat = *r.pick(&[0, 0, 0, 50, 300]);
}
pub const ERRNO: [i64; 10] = [5, 5, 28, 122, 13, 24, 116, 110, 12, shm::EZERO]; // a write of 0 bytes EIO ENOSPC EDQUOT EACCES EMFILE ESTALE ETIMEDOUT ENOMEM
/// a point of a run: every kind of operation gets its share, however rare it is
pub fn pick_op(r: &mut Rng, o: &Out) -> u64 {
    if o.trace.is_empty() || r.chance(1, 3) { return r.below(o.ops.max(1)); }
    let mut kinds: Vec<(u8, u32)> = o.trace.iter().map(|t| (t.op, t.ino)).collect(); kinds.sort(); kinds.dedup();
    let k = *r.pick(&kinds);
    let at: Vec<usize> = o.trace.iter().enumerate().filter(|(_, t)| (t.op, t.ino) == k).map(|x| x.0).collect();
    *r.pick(&at) as u64
}
/// a permanent fault at a random point of a run that went like `o` without it
pub fn hard_fault(r: &mut Rng, c: &mut Cmd, o: &Out, len: usize, peers: bool) {
    match r.us(12) {
        0..=3 => { let k = if r.chance(1, 2) { fk::ERR } else { fk::ERRSTICKY }; let e = *r.pick(&ERRNO); c.fault(at::OP, pick_op(r, o), k, e) }
        4 => { let p = pick_op(r, o); let room = r.skew(len + 300) as i64; c.fault(at::OP, p, fk::DISKFULL, room); if r.chance(1, 4) { c.fault(at::OP, p + r.below(o.ops), fk::DISKFREE, 0) } }
        5 | 6 if peers => { let p = pick_op(r, o); c.fault(at::OP, p, fk::PEER_TRUNC, if r.chance(1, 3) { 0 } else { r.us(len + 1) as i64 }) }
        7 | 8 if o.spawns > 0 => c.fault(at::SPAWN, r.below(o.spawns), fk::SPAWNFAIL, if r.chance(1, 2) { 1 } else { 1000 }),
        9 | 10 if o.allocs > 0 => c.fault(at::ALLOC, r.below(o.allocs), fk::ALLOCFAIL, 0),
        11 => { c.mem_cap = 20_000 + r.below(300_000) }
        _ => { let e = *r.pick(&ERRNO); c.fault(at::OP, pick_op(r, o), fk::ERR, e) }
    }
}
pub fn crash_fault(r: &mut Rng, c: &mut Cmd, o: &Out) {
    let p = if r.chance(1, 8) { o.ops } else { pick_op(r, o) };
    match r.us(4) { 0 => c.fault(at::OP, p, fk::CRASH_BEFORE, 0), 1 => c.fault(at::OP, p, fk::CRASH_AFTER, 0), _ => c.fault(at::OP, p, fk::CRASH_TORN, r.skew(9000) as i64) }
}
/// stalls, clock jumps, bursts of interruptions
pub fn soft_fault(r: &mut Rng, c: &mut Cmd, ops: u64) {
    match r.us(4) { 0 => { let o = r.below(ops); c.fault(at::OP, o, fk::STALL, 3_600_000_000_000) } 1 => { let o = r.below(ops); let by = [-1_600_000_000_000_000_000, -86_400_000_000_000, 31_536_000_000_000_000][r.us(3)]; c.fault(at::OP, o, fk::CLOCKJUMP, by) }
        2 => { let o = r.below(ops); c.fault(at::OP, o, fk::EINTR, 1 + r.us(40) as i64) } _ => { let o = r.below(ops); c.fault(at::OP, o, fk::SHORT, 1 + r.us(20) as i64) } }
}
/// damage to stored bytes
pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.skew(3) {
        let n = b.len();
        if n == 0 { b.push(r.next() as u8); continue; }
        let at = if r.chance(1, 3) { r.us(n.min(8)) } else if r.chance(1, 3) { r.us(n.min(300)) } else { r.us(n) };
        match r.us(12) {
            0..=3 => for _ in 0..1 + r.skew(4) { let i = if r.chance(1, 2) { at } else { r.us(n) }; b[i] ^= 1 << r.us(8) },
            4 => b.truncate(at), 5 => { let e = (at + 1 + r.skew(512)).min(n); b[at..e].fill(0) } 6 => { let e = (at + 1 + r.skew(512)).min(n); b[at..e].fill(0xff) }
            7 => { let e = (at + 1 + r.skew(64)).min(n); let part = b[at..e].to_vec(); let to = r.us(n); for (i, x) in part.into_iter().enumerate() { b.insert((to + i).min(b.len()), x) } }
            8 => { let l = 1 + r.skew(64); if n > 2 * l { let x = r.us(n - 2 * l); for i in 0..l { b.swap(x + i, x + l + i) } } }
            9 => for _ in 0..1 + r.skew(40) { b.push(r.next() as u8) },
            10 => { b[0] = r.next() as u8 }
            _ => { let v: u32 = match r.us(6) { 0 => 0, 1 => u32::MAX, 2 => r.skew(400) as u32, 3 => n as u32, 4 => (n as u32).saturating_sub(5), _ => r.next() as u32 }; for (i, x) in v.to_be_bytes().iter().enumerate() { if 1 + i < n { b[1 + i] = *x } } }
        }
    }
}
