//! A case: an initial disk, the steps to run on it, and every fault and scheduling decision. Written to and read
//! from replay files.
use crate::shm::{Fault, Sched, FKS};
use crate::world::{Body, World};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Content { Raw(Arc<Vec<u8>>), Gen { kind: u64, seed: u64, len: usize } }
impl Content {
    pub fn raw(v: Vec<u8>) -> Self { Content::Raw(Arc::new(v)) }
    pub fn bytes(&self) -> Arc<Vec<u8>> { match self { Content::Raw(b) => b.clone(), Content::Gen { kind, seed, len } => Arc::new(crate::gen::big(*kind, *seed, *len)) } }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Init { Dir(String), File(String, Content), Link(String, String), Hard(String, String) }
/// what a process may allocate unless a case says otherwise
pub const MEM_CAP: u64 = 3 << 30;
#[derive(Clone, Debug, PartialEq)]
pub struct Cmd {
    pub lib: bool, pub args: Vec<String>, pub stdin: Vec<u8>, pub stdin_chunk: u32,
    pub seed_sched: u64, pub seed_noise: u64, pub seed_hash: u64, pub mode: u32, pub mean: u32,
    pub psr: u32, pub psw: u32, pub peintr: u32, pub plat: u32, pub ncpu: u32,
    pub max_ops: u64, pub max_steps: u64, pub mem_cap: u64,
    pub peer_src: String, pub peer_dst: String,
    pub faults: Vec<Fault>, pub exp: Vec<Sched>,
}
/// in stdin_chunk: standard input stays open behind its data
pub const STDIN_OPEN: u32 = 1 << 30;
impl Cmd {
    pub fn new(lib: bool, args: Vec<String>) -> Self {
        Cmd { lib, args, stdin: vec![], stdin_chunk: 0, seed_sched: 1, seed_noise: 2, seed_hash: 3, mode: 2, mean: 0, psr: 0, psw: 0, peintr: 0, plat: 0, ncpu: 4, max_ops: 3_000_000, max_steps: 2_000_000_000,
            mem_cap: MEM_CAP, peer_src: "/w/none".into(), peer_dst: "/w/none".into(), faults: vec![], exp: vec![] }
    }
    pub fn fault(&mut self, atkind: u32, at: u64, kind: u32, arg: i64) { self.faults.push(Fault { atkind, at: at as u32, kind, fired: 0, arg }) }
    pub fn noisy(&self) -> bool { self.psr + self.psw + self.peintr + self.plat > 0 }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step { Run(Cmd), Par(Vec<Cmd>, Vec<u8>), Power(u64), Set(String, Content), Remove(String) }
impl Step {
    pub fn cmds(&self) -> &[Cmd] { match self { Step::Run(c) => std::slice::from_ref(c), Step::Par(v, _) => v, _ => &[] } }
    pub fn cmds_mut(&mut self) -> &mut [Cmd] { match self { Step::Run(c) => std::slice::from_mut(c), Step::Par(v, _) => v, _ => &mut [] } }
}
#[derive(Clone, Debug)]
pub struct Case { pub prop: String, pub profile: String, pub index: u64, pub meta: BTreeMap<String, String>, pub cwd: String, pub init: Vec<Init>, pub steps: Vec<Step> }

fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { let _ = write!(s, "{:02x}", x); } if s.is_empty() { s.push('-') } s }
fn unhex(s: &str) -> Vec<u8> { if s == "-" { return vec![]; } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn cw(c: &Content) -> String { match c { Content::Raw(b) => format!("hex {}", hex(b)), Content::Gen { kind, seed, len } => format!("gen {} {} {}", kind, seed, len) } }
fn cr(w: &[&str]) -> Content { if w[0] == "hex" { Content::raw(unhex(w[1])) } else { Content::Gen { kind: w[1].parse().unwrap(), seed: w[2].parse().unwrap(), len: w[3].parse().unwrap() } } }

impl Cmd {
    fn write(&self, o: &mut String) {
        let c = self;
                    let _ = writeln!(o, "run {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} # lib seed_sched seed_noise seed_hash sched_mode preempt_mean short_read short_write eintr latency cpus max_ops max_steps mem_cap stdin_chunk",
                        c.lib as u32, c.seed_sched, c.seed_noise, c.seed_hash, c.mode, c.mean, c.psr, c.psw, c.peintr, c.plat, c.ncpu, c.max_ops, c.max_steps, c.mem_cap, c.stdin_chunk);
                    for a in &c.args { let _ = writeln!(o, " arg {} # {}", hex(a.as_bytes()), a.escape_debug()); }
                    if !c.stdin.is_empty() { let _ = writeln!(o, " stdin {}", hex(&c.stdin)); }
                    let _ = writeln!(o, " peer {} {}", hex(c.peer_src.as_bytes()), hex(c.peer_dst.as_bytes()));
                    for f in &c.faults { let _ = writeln!(o, " fault {} {} {} {} # {} at {} {} arg {}", f.atkind, f.at, f.kind, f.arg, FKS[f.kind as usize], ["operation", "thread start", "allocation"][f.atkind as usize], f.at, f.arg); }
                    for s in &c.exp { let _ = writeln!(o, " sched {} {} # at scheduling point {} run thread {}", s.step, s.tid, s.step, s.tid); }
    }
}
impl Case {
    pub fn new(prop: &str, profile: &str) -> Self { Case { prop: prop.into(), profile: profile.into(), index: 0, meta: BTreeMap::new(), cwd: "/w".into(), init: vec![Init::Dir("/w".into()), Init::Dir("/tmp".into())], steps: vec![] } }
    pub fn m(&self, k: &str) -> &str { self.meta.get(k).map(|s| s.as_str()).unwrap_or("") }
    pub fn mn(&self, k: &str) -> u64 { self.m(k).parse().unwrap_or(0) }
    pub fn set(&mut self, k: &str, v: impl ToString) { self.meta.insert(k.into(), v.to_string()); }
    pub fn file(&mut self, path: &str, d: Content) { self.init.push(Init::File(path.into(), d)) }
    pub fn content(&self, path: &str) -> Arc<Vec<u8>> {
        for i in &self.init { match i { Init::File(p, c) if p == path => return c.bytes(), Init::Hard(p, t) if p == path => return self.content(t), _ => {} } }
        Arc::new(vec![])
    }
    pub fn world(&self) -> World {
        let mut w = World::new();
        for i in &self.init {
            match i {
                Init::Dir(p) => if w.find(p).is_none() { w.add(p, Body::Dir); },
                Init::File(p, c) => { w.add(p, Body::File(c.bytes())); }
                Init::Link(p, t) => { w.add(p, Body::Link(t.clone())); }
                Init::Hard(p, t) => w.hard(p, t),
            }
        }
        w.cwd = w.find(&self.cwd).expect("cwd");
        if self.mn("ghost") > 0 { if let Some(i) = w.find(self.m("src")) { w.ghost = (i, self.mn("ghost")) } }
        if self.mn("user") > 0 {
            // an ordinary user who may read everything and may write whatever a command has as its destination
            w.user = true;
            let snap = w.snap();
            let dst: Vec<u32> = self.runs().filter_map(|k| match crate::model::ask(&k.args, &self.cwd) { Some(crate::model::Ask::Job(j)) => crate::model::real(&snap, &j.dst), _ => None }).collect();
            let mut r = crate::rng::Rng::new(self.mn("user"));
            for (i, b) in w.ino.iter().enumerate() { if matches!(b, Body::File(_)) { w.mode.insert(i as u32, *r.pick(if dst.contains(&(i as u32)) { &[0o644, 0o600, 0o664, 0o666, 0o755, 0o640, 0o620] } else { &[0o444, 0o444, 0o400, 0o440, 0o555, 0o644, 0o600] })); } }
        } else if self.mn("modes") > 0 { let mut r = crate::rng::Rng::new(self.mn("modes")); for (i, b) in w.ino.iter().enumerate() { if matches!(b, Body::File(_)) { w.mode.insert(i as u32, *r.pick(&[0o644, 0o444, 0o400, 0o600, 0o755, 0o777, 0o200, 0, 0o555])); } } }
        w
    }
    pub fn runs(&self) -> impl Iterator<Item = &Cmd> { self.steps.iter().flat_map(|s| s.cmds().iter()) }
    pub fn runs_mut(&mut self) -> impl Iterator<Item = &mut Cmd> { self.steps.iter_mut().flat_map(|s| s.cmds_mut().iter_mut()) }

    pub fn text(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "prop {}\nprofile {}\nindex {}\ncwd {}", self.prop, self.profile, self.index, self.cwd);
        for (k, v) in &self.meta { let _ = writeln!(o, "meta {} {}", k, hex(v.as_bytes())); }
        for i in &self.init {
            let _ = match i {
                Init::Dir(p) => writeln!(o, "dir {}", hex(p.as_bytes())),
                Init::File(p, c) => writeln!(o, "file {} {}", hex(p.as_bytes()), cw(c)),
                Init::Link(p, t) => writeln!(o, "link {} {}", hex(p.as_bytes()), hex(t.as_bytes())),
                Init::Hard(p, t) => writeln!(o, "hard {} {}", hex(p.as_bytes()), hex(t.as_bytes())),
            };
        }
        for s in &self.steps {
            match s {
                Step::Power(seed) => { let _ = writeln!(o, "power {}", seed); }
                Step::Set(p, c) => { let _ = writeln!(o, "set {} {}", hex(p.as_bytes()), cw(c)); }
                Step::Remove(p) => { let _ = writeln!(o, "remove {}", hex(p.as_bytes())); }
                Step::Par(v, ord) => {
                    let _ = writeln!(o, "par {} {} # so many processes at once; which one goes on, at the start and at every switch", v.len(), hex(ord));
                    for c in v { c.write(&mut o) }
                }
                Step::Run(c) => c.write(&mut o),
            }
        }
        o
    }
    pub fn parse(t: &str) -> Case {
        let mut c = Case { prop: String::new(), profile: String::new(), index: 0, meta: BTreeMap::new(), cwd: "/w".into(), init: vec![], steps: vec![] };
        let mut par = 0;
        let us = |s: &str| String::from_utf8(unhex(s)).unwrap();
        for line in t.lines() {
            if line.starts_with('#') { continue; }
            let line = line.split('#').next().unwrap();
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() { continue; }
            let n = |i: usize| -> u64 { w[i].parse().unwrap() };
            macro_rules! last { () => { match c.steps.last_mut() { Some(Step::Run(c)) => c, Some(Step::Par(v, _)) => v.last_mut().unwrap(), _ => panic!("replay file: {}", line) } } }
            match w[0] {
                "prop" => c.prop = w[1].into(), "profile" => c.profile = w[1].into(), "index" => c.index = n(1), "cwd" => c.cwd = w[1].into(),
                "meta" => { c.meta.insert(w[1].into(), us(w[2])); }
                "dir" => c.init.push(Init::Dir(us(w[1]))),
                "file" => c.init.push(Init::File(us(w[1]), cr(&w[2..]))),
                "link" => c.init.push(Init::Link(us(w[1]), us(w[2]))),
                "hard" => c.init.push(Init::Hard(us(w[1]), us(w[2]))),
                "power" => c.steps.push(Step::Power(n(1))),
                "set" => c.steps.push(Step::Set(us(w[1]), cr(&w[2..]))),
                "remove" => c.steps.push(Step::Remove(us(w[1]))),
                "run" => { let mut k = Cmd::new(n(1) == 1, vec![]); k.seed_sched = n(2); k.seed_noise = n(3); k.seed_hash = n(4); k.mode = n(5) as u32; k.mean = n(6) as u32; k.psr = n(7) as u32; k.psw = n(8) as u32; k.peintr = n(9) as u32; k.plat = n(10) as u32; k.ncpu = n(11) as u32; k.max_ops = n(12); k.max_steps = n(13); k.mem_cap = n(14); k.stdin_chunk = n(15) as u32;
                    if par > 0 { par -= 1; if let Some(Step::Par(v, _)) = c.steps.last_mut() { v.push(k) } } else { c.steps.push(Step::Run(k)) } }
                "par" => { par = n(1); c.steps.push(Step::Par(vec![], unhex(w[2]))) }
                "arg" => last!().args.push(us(w[1])),
                "stdin" => last!().stdin = unhex(w[1]),
                "peer" => { let k = last!(); k.peer_src = us(w[1]); k.peer_dst = us(w[2]); }
                "fault" => last!().faults.push(Fault { atkind: n(1) as u32, at: n(2) as u32, kind: n(3) as u32, fired: 0, arg: w[4].parse().unwrap() }),
                "sched" => last!().exp.push(Sched { step: n(1), tid: n(2) as u32, forced: 0 }),
                "violation" | "hash" => {}
                x => panic!("replay file: {}", x),
            }
        }
        c
    }
}
