//! The simulated disk as the driver sees it: building it, reading it back, and what a power loss may leave of it.
use crate::rng::Rng;
use crate::shm::{self, it, j, Shm};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Body { Free, Dir, File(Arc<Vec<u8>>), Link(String) }
#[derive(Clone, Debug)]
pub struct World { pub ino: Vec<Body>, pub ents: Vec<(u32, String, u32)>, pub cwd: u32, /// permissions other than 0644 of files
    pub mode: BTreeMap<u32, u32>, /// whether the permissions bind the simulated user
    pub user: bool, /// a file with unreadable sectors behind its content, and how many bytes they are
    pub ghost: (u32, u64) }
#[derive(Clone, Debug, PartialEq)]
pub struct Seen { pub ino: u32, pub body: Body }
pub type Snap = BTreeMap<String, Seen>;

fn cstr(b: &[u8]) -> String { let n = b.iter().position(|x| *x == 0).unwrap_or(b.len()); String::from_utf8_lossy(&b[..n]).into_owned() }
pub fn put(dst: &mut [u8], s: &[u8]) { assert!(s.len() < dst.len(), "string too long for the simulator: {:?}", String::from_utf8_lossy(s)); dst[..s.len()].copy_from_slice(s); dst[s.len()] = 0; }

impl World {
    pub fn new() -> Self { World { ino: vec![Body::Free, Body::Dir], ents: vec![], cwd: 1, mode: BTreeMap::new(), user: false, ghost: (0, 0) } }
    pub fn find(&self, path: &str) -> Option<u32> {
        let mut d = 1;
        for p in path.split('/').filter(|p| !p.is_empty()) { d = self.ents.iter().find(|e| e.0 == d && e.1 == p)?.2; }
        Some(d)
    }
    pub fn add(&mut self, path: &str, body: Body) -> u32 {
        let (dir, name) = path.rsplit_once('/').unwrap();
        let d = if dir.is_empty() { 1 } else { match self.find(dir) { Some(d) => d, None => self.add(dir, Body::Dir) } };
        self.ino.push(body);
        let i = self.ino.len() as u32 - 1;
        self.ents.push((d, name.to_string(), i));
        i
    }
    pub fn hard(&mut self, path: &str, to: &str) {
        let Some(i) = self.find(to) else { return };
        let (dir, name) = path.rsplit_once('/').unwrap();
        let d = match self.find(dir) { Some(d) => d, None => self.add(dir, Body::Dir) };
        self.ents.push((d, name.to_string(), i));
    }
    pub fn snap(&self) -> Snap {
        fn rec(w: &World, d: u32, pre: &str, out: &mut Snap, depth: usize) {
            if depth > 12 { return; }
            for e in w.ents.iter().filter(|e| e.0 == d) {
                let p = format!("{}/{}", pre, e.1);
                if w.ino[e.2 as usize] == Body::Dir { rec(w, e.2, &p, out, depth + 1); }
                out.insert(p, Seen { ino: e.2, body: w.ino[e.2 as usize].clone() });
            }
        }
        let mut s = Snap::new();
        rec(self, 1, "", &mut s, 0);
        s
    }
    pub fn load(&self, s: &mut Shm) {
        s.clock_ns = 0; s.wall_off_ns = 0; s.cwd = self.cwd; s.user = self.user as u32; s.ghost_ino = self.ghost.0 as u64; s.ghost_len = self.ghost.1; s.jcount = 0; s.arena_used = 0; s.j_used = 0; s.disk_used = 0; s.disk_limit = 0;
        for l in s.lk.iter_mut() { l.used = 0 }
        assert!(self.ino.len() <= shm::MAXINO && self.ents.len() <= shm::MAXENT);
        s.nino = self.ino.len() as u32; s.nent = self.ents.len() as u32;
        for (i, b) in self.ino.iter().enumerate() {
            let n = &mut s.ino[i];
            n.nlink = self.ents.iter().filter(|e| e.2 as usize == i).count() as u32;
            n.touched = 0; n.off = 0; n.cap = 0; n.size = 0; n.mtime = 0; n.target[0] = 0;
            match b {
                Body::Free => n.typ = 0,
                Body::Dir => { n.typ = it::DIR; n.mode = 0o40755 }
                Body::Link(t) => { n.typ = it::LNK; n.mode = 0o120777; put(&mut n.target, t.as_bytes()) }
                Body::File(d) => {
                    n.typ = it::FILE; n.mode = 0o100000 | self.mode.get(&(i as u32)).unwrap_or(&0o644);
                    let cap = (d.len() as u64).max(1).next_power_of_two().max(64);
                    n.off = s.arena_used; n.cap = cap; n.size = d.len() as u64;
                    assert!(s.arena_used + cap <= shm::ARENA as u64, "initial disk too large");
                    s.arena[n.off as usize..n.off as usize + d.len()].copy_from_slice(d);
                    s.arena_used += cap; s.disk_used += d.len() as u64;
                }
            }
        }
        for (i, e) in self.ents.iter().enumerate() { let d = &mut s.ent[i]; d.used = 1; d.parent = e.0; d.ino = e.2; put(&mut d.name, e.1.as_bytes()); }
    }
    pub fn read(s: &Shm) -> World {
        let mut ino = vec![];
        for i in 0..s.nino as usize {
            let n = &s.ino[i];
            ino.push(match n.typ { x if x == it::DIR => Body::Dir, x if x == it::FILE => Body::File(Arc::new(s.arena[n.off as usize..(n.off + n.size) as usize].to_vec())), x if x == it::LNK => Body::Link(cstr(&n.target)), _ => Body::Free });
        }
        let ents = (0..s.nent as usize).filter(|i| s.ent[*i].used != 0).map(|i| (s.ent[i].parent, cstr(&s.ent[i].name), s.ent[i].ino)).collect();
        let mode = (0..s.nino).filter(|i| s.ino[*i as usize].typ == it::FILE && s.ino[*i as usize].mode & 0o7777 != 0o644).map(|i| (i, s.ino[i as usize].mode & 0o7777)).collect();
        World { ino, ents, cwd: s.cwd, mode, user: s.user != 0, ghost: (s.ghost_ino as u32, s.ghost_len) }
    }
    pub fn file(&self, path: &str) -> Option<Arc<Vec<u8>>> { match self.find(path).map(|i| &self.ino[i as usize]) { Some(Body::File(d)) => Some(d.clone()), _ => None } }
    pub fn set_file(&mut self, path: &str, d: Vec<u8>) { match self.find(path) { Some(i) => self.ino[i as usize] = Body::File(Arc::new(d)), None => { self.add(path, Body::File(Arc::new(d))); } } }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |b: &[u8]| { for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001B3); } h ^= h >> 29; };
        for (p, n) in self.snap() { add(p.as_bytes()); match n.body { Body::File(d) => { add(b"f"); add(&d) } Body::Dir => add(b"d"), Body::Link(t) => add(t.as_bytes()), _ => {} } }
        h
    }
}

pub struct Rec { pub r: shm::Jrec, pub data: Vec<u8> }
pub fn journal(s: &Shm) -> Vec<Rec> {
    let mut v = vec![]; let mut o = 0usize; let sz = std::mem::size_of::<shm::Jrec>();
    while o < s.j_used as usize {
        let r: shm::Jrec = unsafe { std::ptr::read_unaligned(s.jarena.as_ptr().add(o) as *const shm::Jrec) };
        let data = if r.typ == j::WRITE { s.jarena[o + sz..o + sz + r.len as usize].to_vec() } else { vec![] };
        let body = if r.typ == j::WRITE { r.len as usize } else { 0 };
        v.push(Rec { r, data });
        o += (sz + body + 15) & !15;
    }
    v
}

/// One state the disk may be in after the power failed at the end of the journal. Everything in `init` was durable.
/// Directory changes and truncations become durable in order; fsync makes the file's data, and every directory
/// change before it, durable; data that was not synced may be there, be missing (size grown, bytes zero) or be torn.
pub fn power_loss(init: &World, jr: &[Rec], symlinks: &World, seed: u64) -> World {
    let mut rng = Rng::new(seed);
    let mode = seed % 4; // 0: only what was synced but all names, 1: everything, 2 and 3: random
    let n = jr.len();
    let last_sync = jr.iter().rposition(|r| r.r.typ == j::FSYNC).map(|i| i + 1).unwrap_or(0);
    let meta_end = match mode { 0 | 1 => n, 2 => last_sync, _ => last_sync + rng.us(n - last_sync + 1) };
    let mut w = init.clone();
    let name = |b: &[u8]| cstr(b);
    for (i, r) in jr.iter().enumerate() {
        let q = &r.r;
        let ino = q.ino as usize;
        while w.ino.len() <= ino { w.ino.push(Body::Free); }
        if q.typ == j::WRITE {
            // which writes of this file survive
            let synced = jr[i..].iter().any(|x| x.r.typ == j::FSYNC && x.r.ino == q.ino);
            let Body::File(d) = &mut w.ino[ino] else { continue };
            let d = Arc::make_mut(d);
            let end = q.off as usize + q.len as usize;
            let keep = if synced || mode == 1 { end - q.off as usize } else if mode == 0 { if rng.chance(1, 2) { continue } else { 0 } }
                else { match rng.us(4) { 0 => continue, 1 => 0, 2 => rng.us(q.len as usize + 1), _ => q.len as usize } };
            if d.len() < end { d.resize(end, 0); }
            let o = q.off as usize;
            d[o..o + keep].copy_from_slice(&r.data[..keep]);
            continue;
        }
        if q.typ == j::FSYNC { continue; }
        if q.typ == j::TRUNC {
            let synced = jr[i..].iter().any(|x| x.r.typ == j::FSYNC && x.r.ino == q.ino);
            if i < meta_end || synced { if let Body::File(d) = &mut w.ino[ino] { Arc::make_mut(d).resize(q.off as usize, 0); } }
            continue;
        }
        let live = i < meta_end;
        match q.typ {
            j::CREATE => { w.ino[ino] = Body::File(Arc::new(vec![])); if live { w.ents.push((q.parent, name(&q.name), q.ino)); } }
            j::MKDIR => { w.ino[ino] = Body::Dir; if live { w.ents.push((q.parent, name(&q.name), q.ino)); } }
            j::SYMLINK => { w.ino[ino] = symlinks.ino[ino].clone(); if live { w.ents.push((q.parent, name(&q.name), q.ino)); } }
            j::LINK => if live { w.ents.push((q.parent, name(&q.name), q.ino)); },
            j::UNLINK | j::RMDIR => if live { w.ents.retain(|e| !(e.0 == q.parent && e.1 == name(&q.name))); },
            j::RENAME => if live { w.ents.retain(|e| !(e.0 == q.parent2 && e.1 == name(&q.name2))); for e in w.ents.iter_mut() { if e.0 == q.parent && e.1 == name(&q.name) { e.0 = q.parent2; e.1 = name(&q.name2); } } },
            _ => {}
        }
    }
    w
}
