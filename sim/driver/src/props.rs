//! What is simulated for each property: random cases, most of them derived from a fault-free run of the same job.
use crate::case::{Case, Cmd, Content, Init, Step};
use crate::codec;
use crate::gen::{self, Job};
use crate::rng::Rng;
use crate::shm::{at, fk, j, op};
use crate::sim::{Out, Sim};

/// groups of cases per tier: (quick, thorough)
pub fn budget(p: &str) -> (u64, u64) {
    match p {
        "C01" => (10800, 324000),
        "C02" => (3500, 105000),
        "C03" => (8800, 264000),
        "C04" => (3000, 90000),
        "C05" => (16600, 498000),
        "C06" => (120000, 3600000),
        "C07" => (4660, 139800),
        "C08" => (14600, 438000),
        "C09" => (8400, 252000),
        "C10" => (30000, 900000),
        "C11" => (5000, 150000),
        "C12" => (52000, 1560000),
        "C13" => (30600, 918000),
        "C14" => (7800, 234000),
        "C15" => (1640, 49200),
        "C16" => (24800, 744000),
        "C17" => (180, 5400),
        "C18" => (4660, 139800),
        "C19" => (2000, 60000),
        "C20" => (4000, 120000),
        _ => (0, 0),
    }
}
pub const ALL: [&str; 20] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];

pub fn gen(sim: &mut Sim, r: &mut Rng, p: &str, i: u64) -> Vec<Case> {
    let modes = if Rng::new(r.clone().next()).chance(1, 4) { r.clone().next() >> 1 } else { 0 };
    let mut v = cases(sim, r, p, i);
    // files with other permissions (the simulated user may do everything, or else everything but write the source)
    let user = modes % 3 == 0 && matches!(p, "C01" | "C02" | "C04" | "C05" | "C06" | "C07" | "C08" | "C15" | "C16" | "C18" | "C19" | "C20");
    if modes > 0 { for c in v.iter_mut() { let one = c.runs().all(|k| !k.lib && crate::model::ask(&k.args, &c.cwd).is_some()); c.set(if user && one { "user" } else { "modes" }, modes) } }
    // a second name for a file that no command writes, most often for a source
    if Rng::new(r.clone().next() ^ 0x11ec).chance(1, 10) && matches!(p, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C15" | "C16" | "C18" | "C19" | "C20") { for c in v.iter_mut() { second_name(&mut Rng::new(r.clone().next() ^ 0x5ec0), c) } }
    // a standard input that stays open behind the answer, or although nothing is to be asked
    for c in v.iter_mut() { let cwd = c.cwd.clone(); for k in c.runs_mut() { if !k.lib && k.seed_noise % 3 == 0 && (k.stdin.contains(&b'\n') || matches!(crate::model::ask(&k.args, &cwd), Some(crate::model::Ask::Job(j)) if j.n)) { k.stdin_chunk |= crate::case::STDIN_OPEN } } }
    v
}
fn second_name(r: &mut Rng, c: &mut Case) {
    let peers = [fk::PEER_TRUNC, fk::PEER_APPEND, fk::PEER_FLIP, fk::PEER_CREATE];
    if c.steps.iter().any(|s| matches!(s, Step::Set(..) | Step::Remove(..))) || c.runs().any(|k| k.faults.iter().any(|f| peers.contains(&f.kind))) { return }
    let snap = c.world().snap();
    let (mut src, mut dst) = (vec![], vec![]);
    for k in c.runs() { if k.lib { return } match crate::model::ask(&k.args, &c.cwd) { None => return, Some(crate::model::Ask::Job(j)) => { src.push(j.src.clone()); dst.push(crate::model::real(&snap, &j.dst)); } _ => {} } }
    let free: Vec<String> = c.init.iter().filter_map(|i| match i { Init::File(q, _) => { let x = crate::model::real(&snap, q); if x.is_none() || dst.contains(&x) { None } else { Some(q.clone()) } } _ => None }).collect();
    let first: Vec<String> = free.iter().filter(|q| src.contains(q)).cloned().collect();
    let from = if !first.is_empty() && r.chance(4, 5) { first } else { free };
    if from.is_empty() { return }
    let (name, of) = (r.pick(&["/w/second name", "/w/zz.hff", "/w/0"]).to_string(), r.pick(&from).clone());
    if crate::model::real(&snap, &name).is_none() && !c.runs().any(|k| k.args.iter().any(|a| name.ends_with(&a[..]) && !a.is_empty() || format!("/w/{}.hff", a) == name)) { c.init.push(Init::Hard(name, of)) }
}
fn cases(sim: &mut Sim, r: &mut Rng, p: &str, i: u64) -> Vec<Case> {
    match p {
        "C01" => c01(r, i), "C02" => c02(sim, r), "C03" => c03(sim, r), "C04" => c04(sim, r), "C05" => c05(sim, r), "C06" => c06(r), "C07" => c07(r, i), "C08" => c08(r, i), "C09" => c09(sim, r, i),
        "C10" => c10(r), "C11" => c11(r, i), "C12" => c12(r, i), "C13" => c13(r, i), "C14" => c14(r), "C15" => c15(sim, r), "C16" => c16(r, i), "C17" => c17(r, i), "C18" => c18(sim, r), "C19" => c19(sim, r), "C20" => c20(sim, r),
        _ => vec![],
    }
}

fn probe(sim: &mut Sim, c: &Case) -> Option<Out> {
    sim.quiet = true;
    sim.begin(c);
    let mut o = None;
    for s in &c.steps { if let Some(x) = sim.step(s) { o = Some(x) } }
    sim.quiet = false;
    o
}

/// a job on a healthy system: the case, its one command, and the length of the source
fn job(r: &mut Rng, prop: &str, max: usize, blocks: usize, tune: impl FnOnce(&mut Rng, &mut Job)) -> (Case, Job, Cmd, usize) {
    let comp = r.chance(1, 2);
    let mut j = Job::random(r, comp);
    let n = if max >= 20_000 && r.chance(1, 60) { r.range(70_000, 300_000) } else { gen::len(r, max) };
    let blocks = if !comp { blocks * *r.pick(&[1, 1, 3, 12]) } else if r.chance(1, 30) { blocks * 20 } else { blocks };
    let plain = gen::bytes(r, n);
    let src = if comp { plain } else { let s = if r.chance(1, 3) { r.us(4) } else { 0 }; let any = r.chance(1, 6); codec::encode(&plain, r, s, any) };
    j.bs = gen::block(r, src.len(), blocks);
    j.n = true;
    tune(r, &mut j);
    let mut c = Case::new(prop, if comp { "compress" } else { "decompress" });
    let l = src.len();
    c.file(&j.srcabs, Content::raw(src));
    j.store(&mut c);
    let k = j.cmd(r);
    (c, j, k, l)
}
fn old_dst(r: &mut Rng, c: &mut Case, j: &Job, max: usize) { let n = if r.chance(1, 6) { 0 } else { gen::len(r, max) }; c.file(&j.dstabs, Content::raw(gen::bytes(r, n))); }
/// files next to the job's that no run may touch
fn bystanders(r: &mut Rng, c: &mut Case, j: &Job) {
    let dir = |p: &str| p.rsplit_once('/').unwrap().0.to_string();
    let stem = |p: &str| p.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or(p.to_string());
    let mut v = vec!["/w/other".to_string(), "/w/in/other.hff".to_string(), "/w/outdir/z".to_string(), format!("{}.tmp", j.dstabs), format!("{}.bak", j.srcabs), format!("{}~", j.srcabs), stem(&j.srcabs), stem(&j.dstabs), format!("{}.hff", j.srcabs), format!("{}.hff", j.dstabs),
        "/w/a".into(), "/w/a.hff".into(), "/w/out".into(), "/w/SRC_FILE.hff".into(), "/w/.tmp".into(), format!("{}/tmp", dir(&j.dstabs)), format!("{}.tmp", stem(&j.dstabs))];
    r.shuffle(&mut v);
    for p in v.into_iter().take(3 + r.us(5)) {
        if p == j.srcabs || p == j.dstabs || p.ends_with('/') || p == "/w" || c.init.iter().any(|i| matches!(i, Init::File(q, _) | Init::Dir(q) | Init::Link(q, _) | Init::Hard(q, _) if *q == p)) { continue; }
        let n = 1 + r.us(60);
        c.file(&p, Content::raw(gen::bytes(r, n)));
    }
}

/// now and then a file of a few megabytes, and one whose longest code has 33 bits
fn large(r: &mut Rng, i: u64, every: u64, fib: u64) -> Option<Content> {
    if i % fib == 11 { return Some(Content::Gen { kind: 5, seed: r.next() >> 8, len: 14_930_351 }) }
    if i % every != 7 { return None; }
    Some(Content::Gen { kind: r.below(5), seed: r.next() >> 8, len: *r.pick(&[300_000, 800_000, 1_000_000, 1_100_000, 2_000_000, 2_500_000]) + r.us(9) })
}
fn c01(r: &mut Rng, i: u64) -> Vec<Case> {
    let max = if r.chance(1, 4) { 70_000 } else { 9_000 };
    let n = gen::len(r, max);
    let (plain, n, big) = match large(r, i, 1000, 20_000) { Some(g) => { let n = match g { Content::Gen { len, .. } => len, _ => 0 }; (g, n, true) } None => (Content::raw(gen::bytes(r, n)), n, false) };
    let mut c = Case::new("C01", "round-trip");
    let mut j = Job::random(r, true);
    let (b1, b2) = if r.chance(1, 5) { (12, 60) } else if r.chance(1, 25) { (1500, 9000) } else if r.chance(1, 6) { (300, 3000) } else { (30, 200) };
    j.n = r.chance(1, 2); j.bs = gen::block(r, n, b1); j.r = r.chance(1, 10);
    c.file(&j.srcabs, plain);
    j.store(&mut c);
    let mut k1 = j.cmd(r);
    let mut d = Job { comp: false, src: j.dstabs.clone(), dst_arg: Some("/w/back".into()), srcabs: j.dstabs.clone(), dstabs: "/w/back".into(), n: true, r: r.chance(1, 10), t: r.chance(1, 12), bs: gen::block(r, n, b2) };
    if let (Some(name), true) = (j.dstabs.strip_prefix("/w/"), r.chance(1, 2)) {
        if !name.contains('/') { d.src = name.to_string(); d.dst_arg = None; d.dstabs = format!("/w/{}", &name[..name.len() - 4]); }
    }
    if !big && r.chance(1, 3) { // around the archive's own length, its data and its tree
        let a = codec::encode(&c.content(&j.srcabs), &mut Rng::new(1), 0, false); let p = codec::parse(&a).unwrap();
        let data = a.len() - p.data_off;
        let b = match r.us(6) { 0 => data, 1 => a.len(), 2 => p.tree_len, 3 => p.tree_len.saturating_sub(1), 4 => { let ds: Vec<usize> = (1..=data.min(5000)).filter(|d| data % d == 0 && data / d <= b2).collect(); if ds.is_empty() { data } else { *r.pick(&ds) } } _ => data + r.us(3) };
        d.bs = Some(b.max(1).max(data / b2.max(1)).to_string());
        // blocks shorter than many codes
        if data < 6000 && r.chance(1, 2) { d.bs = Some((1 + r.skew(4)).to_string()); }
    }
    let mut k2 = d.cmd(r);
    for k in [&mut k1, &mut k2] {
        if big { if k.mode == 0 { k.mean = k.mean.max(20_000) } k.max_steps = 40_000_000_000; }
        if r.chance(2, 3) { gen::noise(r, k); }
        for _ in 0..r.us(3) { gen::soft_fault(r, k, 40 + n as u64 / 500) }
    }
    c.set("back", &d.dstabs);
    c.steps = vec![Step::Run(k1), Step::Run(k2)];
    vec![c]
}

fn c02(sim: &mut Sim, r: &mut Rng) -> Vec<Case> {
    if r.chance(1, 12) {
        // jobs that cannot be done at all
        let (mut c, j, k, _) = job(r, "C02", 300, 10, |r, j| j.r = r.chance(1, 4));
        c.profile = "impossible".into();
        match r.us(4) {
            0 => c.init.retain(|i| !matches!(i, Init::File(p, _) if *p == j.srcabs)),
            1 => { for i in c.init.iter_mut() { if let Init::File(p, d) = i { if *p == j.srcabs { *d = Content::raw(vec![]) } } } }
            2 => c.init.push(Init::Dir(j.dstabs.clone())),
            _ => { let mut j = j.clone(); j.dst_arg = Some("nodir/x".into()); j.dstabs = if j.comp { "/w/nodir/x.hff".into() } else { "/w/nodir/x".into() }; c.set("dst", &j.dstabs); c.steps = vec![Step::Run(j.cmd(r))]; return vec![c]; }
        }
        c.steps = vec![Step::Run(k)];
        return vec![c];
    }
    if r.chance(1, 20) {
        // a file of more than 4 GiB, of which only the beginning can be read: its length in 32 bits is that of the beginning
        let (mut c, _, mut k, n) = job(r, "C02", 3000, 10, |r, j| j.r = r.chance(1, 4));
        c.profile = "huge-unreadable".into();
        let t = if r.chance(2, 3) { n } else { 1 + r.us(n) };
        c.set("ghost", (1u64 << *r.pick(&[32, 32, 33, 34, 40, 48])) + t as u64 - n as u64);
        if r.chance(1, 3) { gen::noise(r, &mut k) }
        c.steps = vec![Step::Run(k)];
        return vec![c];
    }
    let max = *r.pick(&[40, 400, 3000, 3000, 20_000, 40_000]);
    let (mut c, j, mut k, n) = job(r, "C02", max, 8, |r, j| { j.r = r.chance(1, 7); j.t = r.chance(1, 10); });
    if r.chance(1, 3) { old_dst(r, &mut c, &j, 2000) }
    if r.chance(1, 3) { gen::noise(r, &mut k) }
    c.steps = vec![Step::Run(k.clone())];
    let Some(o) = probe(sim, &c) else { return vec![] };
    let mut v = vec![c.clone()];
    for _ in 0..14 {
        let mut q = k.clone();
        if r.chance(1, 3) { gen::sched(r, &mut q) }
        gen::hard_fault(r, &mut q, &o, n, true);
        if r.chance(1, 5) { gen::hard_fault(r, &mut q, &o, n, true) }
        if r.chance(1, 5) { gen::soft_fault(r, &mut q, o.ops) }
        let mut d = c.clone(); d.steps = vec![Step::Run(q)];
        v.push(d);
    }
    v
}

fn c03(sim: &mut Sim, r: &mut Rng) -> Vec<Case> {
    if r.chance(2, 5) { return c03_alias(sim, r); }
    let max = *r.pick(&[40, 400, 3000, 20_000]);
    let (mut c, j, mut k, n) = job(r, "C03", max, 8, |r, j| { j.r = r.chance(1, 4); j.n = r.chance(1, 2); });
    if r.chance(1, 2) { old_dst(r, &mut c, &j, 500) }
    bystanders(r, &mut c, &j);
    k.stdin = r.pick(&[&b"y\n"[..], b"Y\n", b"n\n", b"", b"yes\n"]).to_vec();
    if !j.comp && r.chance(1, 4) { for i in c.init.iter_mut() { if let Init::File(p, d) = i { if *p == j.srcabs { let mut b = d.bytes().to_vec(); gen::damage(r, &mut b); *d = Content::raw(b) } } } }
    variants(sim, r, c, k, n)
}
/// names the last run made on its way, other than its destination: whatever has that name already must survive the run
fn touched(sim: &mut Sim, c: &Case) -> Vec<String> {
    let jr = crate::world::journal(sim.s()); let w = sim.world();
    let dirs: Vec<(String, u32)> = std::iter::once((String::new(), 1)).chain(w.snap().into_iter().filter(|x| x.1.body == crate::world::Body::Dir).map(|(p, s)| (p, s.ino))).collect();
    let mut v: Vec<String> = vec![];
    for x in &jr { for (par, name) in [(x.r.parent, &x.r.name), (x.r.parent2, &x.r.name2)] {
        if !matches!(x.r.typ, j::CREATE | j::RENAME | j::SYMLINK | j::LINK) || name[0] == 0 || (par == x.r.parent2 && x.r.typ != j::RENAME && std::ptr::eq(name, &x.r.name2)) { continue; }
        let n = name.iter().position(|b| *b == 0).unwrap_or(name.len());
        let Some((d, _)) = dirs.iter().find(|x| x.1 == par) else { continue };
        let p = format!("{}/{}", d, String::from_utf8_lossy(&name[..n]));
        if p == c.m("src") || p == c.m("dst") || v.contains(&p) || c.world().find(&p).is_some() { continue; }
        v.push(p);
    } }
    v
}
/// the same case with files in the way of a run like the last one
fn in_the_way(sim: &mut Sim, r: &mut Rng, c: &Case) -> Option<Case> {
    let t = touched(sim, c);
    if t.is_empty() { return None; }
    let mut d = c.clone();
    d.profile = format!("{}-scratch-names-taken", c.profile);
    for p in t { let n = 1 + r.us(60); d.file(&p, Content::raw(gen::bytes(r, n))) }
    Some(d)
}
/// the fault-free run, failing runs and killed runs of a command
fn variants(sim: &mut Sim, r: &mut Rng, mut c: Case, k: Cmd, n: usize) -> Vec<Case> {
    c.steps = vec![Step::Run(k.clone())];
    let Some(o) = probe(sim, &c) else { return vec![] };
    let mut v = vec![c.clone()];
    if o.ops == 0 { return v; }
    if c.mn("alias") == 0 { if let Some(d) = in_the_way(sim, r, &c) { v.push(d.clone()); if r.chance(2, 3) { c = d } } }
    for _ in 0..5 {
        let mut q = k.clone();
        match r.us(5) { 0 | 1 => gen::crash_fault(r, &mut q, &o), 2 => { gen::noise(r, &mut q); gen::crash_fault(r, &mut q, &o) } _ => { gen::hard_fault(r, &mut q, &o, n, false); if r.chance(1, 4) { gen::crash_fault(r, &mut q, &o) } } }
        let mut d = c.clone(); d.steps = vec![Step::Run(q)];
        if r.chance(1, 4) { let mut again = k.clone(); gen::sched(r, &mut again); d.steps.push(Step::Run(again)) }
        v.push(d);
    }
    v
}
fn c03_alias(sim: &mut Sim, r: &mut Rng) -> Vec<Case> {
    let comp = r.chance(1, 2);
    let n = gen::len(r, 3000);
    let plain = gen::bytes(r, n);
    let src = if comp { plain } else { let a = codec::encode(&plain, r, 0, false); if r.chance(1, 6) { let mut a = a; gen::damage(r, &mut a); a } else { a } };
    let mut c = Case::new("C03", "alias");
    c.set("alias", 1);
    for d in ["/w/in", "/w/outdir"] { c.init.push(Init::Dir(d.into())) }
    let (s, d, arg): (String, String, Option<String>);
    let link = |c: &mut Case, r: &mut Rng, from: &str, to: &str| { if r.chance(1, 2) { c.init.push(Init::Hard(from.into(), to.into())) } else { c.init.push(Init::Link(from.into(), to.into())) } };
    let mut cmd_src = None;
    if comp {
        match r.us(4) {
            0 => { s = "/w/a".into(); d = "/w/a.hff".into(); arg = None; c.file(&s, Content::raw(src)); link(&mut c, r, &d, "/w/a"); }
            1 => { s = "/w/in/a".into(); d = "/w/out.hff".into(); arg = Some("out".into()); c.file(&s, Content::raw(src)); link(&mut c, r, &d, "/w/in/a"); }
            2 => { // the source is the link, the destination the real file
                s = "/w/l".into(); d = "/w/real.hff".into(); arg = Some("./real".into()); c.file(&d, Content::raw(src)); link(&mut c, r, &s, "/w/real.hff"); }
            _ => { s = "/w/in/x.hff".into(); d = "/w/in/x.hff".into(); arg = Some(r.pick(&["in/x", "/w/in/x", "./outdir/../in/x", "in/./x"]).to_string()); c.file(&s, Content::raw(src)); }
        }
    } else {
        match r.us(5) {
            0 => { s = "/w/x.hff".into(); d = s.clone(); arg = Some(r.pick(&["x.hff", "/w/x.hff", "in/../x.hff", ".//x.hff", "in/../in/../x.hff"]).to_string()); c.file(&s, Content::raw(src)); }
            1 => { s = "/w/in/x.hff".into(); d = s.clone(); arg = Some(r.pick(&["in/x.hff", "./in/x.hff", "/w/in/x.hff", "in//x.hff"]).to_string()); c.file(&s, Content::raw(src)); }
            2 => { s = "/w/x.hff".into(); d = "/w/x".into(); arg = None; c.file(&s, Content::raw(src)); link(&mut c, r, &d, "/w/x.hff"); }
            3 => { s = "/w/l.hff".into(); d = "/w/real".into(); arg = Some("real".into()); c.file(&d, Content::raw(src)); link(&mut c, r, &s, "/w/real"); }
            _ => { // by default the destination has the source's name, in the current directory
                c.cwd = "/w/in".into(); s = "/w/in/x.hff".into(); d = s.clone(); arg = None; cmd_src = Some(r.pick(&["/w/in/x.hff", "../in/x.hff", ".././in/x.hff"]).to_string()); c.file(&s, Content::raw(src)); }
        }
    }
    let rel = s.strip_prefix("/w/").unwrap().to_string();
    let src_arg = cmd_src.unwrap_or_else(|| if arg.is_none() || r.chance(1, 2) { rel } else { s.clone() });
    let j = Job { comp, src: src_arg, dst_arg: arg, srcabs: s, dstabs: d, n: r.chance(1, 2), r: r.chance(1, 3), t: false, bs: gen::block(r, n, 10) };
    for (k, v) in [("src", &j.srcabs), ("dst", &j.dstabs)] { c.set(k, v); }
    c.set("comp", comp as u32); c.set("r", j.r as u32); c.set("n", j.n as u32);
    let mut k = j.cmd(r);
    k.stdin = r.pick(&[&b"y\n"[..], b"Y\n", b"y\n", b"n\n", b""]).to_vec();
    let mut v = variants(sim, r, c, k, n);
    v.truncate(3);
    v
}

fn c04(sim: &mut Sim, r: &mut Rng) -> Vec<Case> {
    let max = *r.pick(&[30, 300, 3000, 20_000, 30_000]);
    let (mut c, j, mut k, n) = job(r, "C04", max, 8, |_, j| j.r = true);
    if r.chance(1, 3) { old_dst(r, &mut c, &j, 3000) }
    if r.chance(1, 3) { gen::noise(r, &mut k) }
    c.set("power", 8); c.set("pseed", r.next() >> 1);
    c.steps = vec![Step::Run(k.clone())];
    let Some(o) = probe(sim, &c) else { return vec![] };
    let mut v = vec![c.clone()];
    // the end of a run is where the source goes: more kills there
    let un = o.trace.iter().position(|t| t.op == op::UNLINK || t.op == op::RENAME).unwrap_or(0) as u64;
    for i in 0..12 {
        let mut q = k.clone();
        if r.chance(1, 6) { gen::hard_fault(r, &mut q, &o, n, false) }
        if i < 4 { let p = (un + 3).saturating_sub(r.below(9)); let kind = *r.pick(&[fk::CRASH_BEFORE, fk::CRASH_AFTER, fk::CRASH_TORN]); let t = r.skew(9000) as i64; q.fault(at::OP, p, kind, t) }
        else if i < 11 { gen::crash_fault(r, &mut q, &o) }
        else { gen::hard_fault(r, &mut q, &o, n, false) }
        let mut d = c.clone(); d.set("pseed", r.next() >> 1); d.steps = vec![Step::Run(q)];
        v.push(d);
    }
    v
}

fn c05(sim: &mut Sim, r: &mut Rng) -> Vec<Case> {
    let max = *r.pick(&[30, 300, 3000]);
    let (mut c, j, mut k, n) = job(r, "C05", max, 6, |r, j| { j.n = r.chance(1, 4); j.r = r.chance(1, 4); });
    let om = if r.chance(1, 2) { 8000 } else { 40 }; old_dst(r, &mut c, &j, om);
    bystanders(r, &mut c, &j);
    let ans: &[&[u8]] = &[b"y\n", b"Y\n", b"yes\n", b"Yes", b"y", b"Y", b"yy\n", b"y n\n", b"n\n", b"N\n", b"no\n", b"\n", b"", b"", b" y\n", b"q\n", b"ny\n", b"\ny\n", b"n\ny\n", b"0", b"\t", b"1\n", b"\xffy\n", b"\x00y\n", b"oy\n", b"Ny\n", b"\r\n"];
    k.stdin = r.pick(ans).to_vec();
    if r.chance(1, 10) { let b = r.next() as u8; if b < 128 || b == 255 { k.stdin = vec![b; 1 + r.us(300)]; } }
    k.stdin_chunk = r.us(3) as u32;
    if r.chance(1, 2) { gen::noise(r, &mut k) }
    if r.chance(1, 6) { let p = r.below(12); k.fault(at::OP, p, fk::STALL, 86_400_000_000_000) }
    c.steps = vec![Step::Run(k.clone())];
    let Some(o) = probe(sim, &c) else { return vec![] };
    let mut v = vec![c.clone()];
    if let Some(d) = in_the_way(sim, r, &c) { v.push(d.clone()); if r.chance(1, 2) { c = d } }
    // what happens before the first write decides
    let early = (o.trace.iter().position(|t| t.op == op::WRITE).unwrap_or(o.trace.len()) as u64).max(1);
    for i in 0..5 {
        let mut q = k.clone();
        match if i < 2 { 0 } else { r.us(5) } {
            0 => { // the question itself fails: stat, stdout, stdin
                let cand: Vec<u64> = o.trace.iter().enumerate().filter(|(_, t)| matches!(t.op, op::STAT | op::STDIN | op::STDOUT | op::OPEN)).map(|x| x.0 as u64).collect();
                let p = if cand.is_empty() { 0 } else { *r.pick(&cand) };
                let e = *r.pick(&gen::ERRNO); let kind = *r.pick(&[fk::ERR, fk::ERR, fk::ERRSTICKY]); q.fault(at::OP, p, kind, e)
            }
            1 => { let cand: Vec<u64> = o.trace.iter().enumerate().filter(|(_, t)| t.op == op::STDIN).map(|x| x.0 as u64).collect();
                let p = if cand.is_empty() || r.chance(1, 2) { r.below(early) } else { *r.pick(&cand) }; q.fault(at::OP, p, fk::EINTR, 1 + r.us(30) as i64) }
            2 => gen::crash_fault(r, &mut q, &o),
            3 => { let p = r.below(early); let e = *r.pick(&gen::ERRNO); q.fault(at::OP, p, fk::ERR, e) }
            _ => gen::hard_fault(r, &mut q, &o, n, false),
        }
        let mut d = c.clone(); d.steps = vec![Step::Run(q)];
        v.push(d);
    }
    v
}

fn forged(r: &mut Rng) -> Vec<u8> {
    let mut t = codec::Bits::new();
    let dup = r.chance(1, 3);
    match r.us(8) {
        0 => { for _ in 0..*r.pick(&[7usize, 8, 200, 255, 256, 257, 300, 5000, 100_000, 800_000]) { t.push(true) } if r.chance(1, 2) { for _ in 0..9 { t.push(false) } } } // an endless branch
        1 => { // a complete spine
            let d = *r.pick(&[1usize, 8, 100, 250, 254, 255, 256, 300, 5000, 60_000]); let left = r.chance(1, 2); let mut l = r.next() as u8;
            let leaf = |t: &mut codec::Bits, l: &mut u8| { t.push(false); for i in 0..8 { t.push(*l >> (7 - i) & 1 == 1) } if !dup { *l = l.wrapping_add(1) } };
            if left { for _ in 0..d { t.push(true) } for _ in 0..d + 1 { leaf(&mut t, &mut l) } } else { for _ in 0..d { t.push(true); leaf(&mut t, &mut l) } leaf(&mut t, &mut l) }
        }
        2 => { for _ in 0..r.range(0, 200) { t.push(r.chance(1, 2)) } }
        3 => { for _ in 0..r.range(9, 3000) { t.push(r.chance(1, 9)) } }
        4 => { t.push(false); for _ in 0..8 { t.push(r.chance(1, 2)) } }
        _ => { // a random tree
            let n = 2 + r.skew(60); let ws: Vec<(u8, u64)> = (0..n).map(|i| (if dup { r.us(20) as u8 } else { (i * 7 % 256) as u8 }, 1 + r.below(9))).collect(); let tree = codec::tree_for(&ws, r, true);
            let b = codec::encode_with(&tree, &[]); let p = codec::parse(&b).unwrap(); for i in 0..p.tree_len * 8 - p.tree_pad as usize { t.push(b[5 + i / 8] >> (7 - i % 8) & 1 == 1) }
        }
    }
    let n = *r.pick(&[0usize, 1, 1, 2, 5, 40, 300]);
    let mut x = codec::Bits::new(); let dens = *r.pick(&[2u64, 2, 2, 20, 1_000_000]); let m = if n > 0 { n * 8 - r.us(8) } else { 0 }; for _ in 0..m { x.push(r.chance(1, dens)) }
    let tp = if r.chance(1, 12) { r.us(16) } else { (8 - t.n % 8) % 8 }; let dp = if r.chance(1, 12) { r.us(16) } else { (8 - x.n % 8) % 8 };
    let tl = if r.chance(1, 10) { *r.pick(&[0, 1, t.bytes.len() + 1, t.bytes.len().saturating_sub(1), 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, t.bytes.len() + x.bytes.len(), t.bytes.len() + x.bytes.len() + 1]) } else { t.bytes.len() };
    let mut o = vec![(tp as u8) << 4 | dp as u8]; o.extend((tl as u32).to_be_bytes()); o.extend(t.bytes); o.extend(x.bytes);
    if r.chance(1, 20) { let k = r.us(9); o.truncate(k) }
    o
}
fn c06(r: &mut Rng) -> Vec<Case> {
    let mut j = Job::random(r, false);
    let mut c;
    let b = if r.chance(1, 3) { c = Case::new("C06", "forged"); forged(r) } else {
        c = Case::new("C06", "damaged");
        let n = gen::len(r, *[40, 400, 3000, 20_000].get(r.clone().us(4)).unwrap());
        let mut plain = gen::bytes(r, n); if r.chance(1, 12) { plain = vec![r.next() as u8; n.min(50)] }
        let s = if r.chance(1, 4) { 3 } else { 0 }; let any = r.chance(1, 4);
        let mut a = codec::encode(&plain, r, s, any);
        if r.chance(1, 5) && a.len() > 5 { let t = u32::from_be_bytes([a[1], a[2], a[3], a[4]]) as usize; // inside the tree only
            let at = 5 + r.us(t.max(1)); if at < a.len() { a[at] ^= 1 << r.us(8) } if r.chance(1, 2) { a[0] ^= 1 << r.us(8) } }
        else if !r.chance(1, 12) { gen::damage(r, &mut a) }
        if r.chance(1, 20) { a = (0..r.us(40)).map(|_| r.next() as u8).collect() }
        a
    };
    j.n = true; j.r = r.chance(1, 3);
    let most = *r.pick(&[150, 150, 2500]);
    j.bs = if r.chance(1, 100) { None } else { gen::block(r, b.len().max(1), most).map(|s| if s.ends_with(['g', 'G', 'M', 'i']) && !s.to_lowercase().ends_with("ki") { "64ki".into() } else { s }) };
    if r.chance(1, 4) { old_dst(r, &mut c, &j, 600) }
    c.file(&j.srcabs, Content::raw(b));
    j.store(&mut c);
    let mut k = j.cmd(r);
    if r.chance(1, 4) { gen::noise(r, &mut k) }
    c.steps = vec![Step::Run(k)];
    vec![c]
}

fn c07(r: &mut Rng, i: u64) -> Vec<Case> {
    let max = if r.chance(1, 4) { 40_000 } else { 5_000 };
    let mut n = gen::len(r, max);
    let data = match large(r, i, 900, u64::MAX) { Some(g) => { if let Content::Gen { len, .. } = g { n = len } g } None => Content::raw(gen::bytes(r, n)) };
    let mut c = Case::new("C07", "repeat");
    let blocks = *r.pick(&[20, 20, 20, 20, 20, 20, 20, 20, 300, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 1200]);
    for d in ["/w/in", "/w/outdir"] { c.init.push(Init::Dir(d.into())) }
    for i in 0..if n > 4_000_000 { 2 } else { 2 + r.us(4) } {
        let name = format!("{}{}", r.pick(&["in/s", "s", "long name ", "x.y.z"]), i);
        let out = format!("o{}", i);
        let j = Job { comp: true, src: name.clone(), dst_arg: Some(out.clone()), srcabs: format!("/w/{}", name), dstabs: format!("/w/{}.hff", out), n: true, r: r.chance(1, 10), t: r.chance(1, 5), bs: gen::block(r, n, blocks) };
        c.file(&j.srcabs, data.clone());
        if r.chance(1, 3) { old_dst(r, &mut c, &j, 3000) }
        let mut k = j.cmd(r);
        if n > 100_000 && k.mode == 0 { k.mean = k.mean.max(20_000) }
        if r.chance(2, 3) { gen::noise(r, &mut k) }
        for _ in 0..r.us(3) { gen::soft_fault(r, &mut k, 60) }
        c.steps.push(Step::Run(k));
    }
    vec![c]
}

fn lib(args: Vec<String>, r: &mut Rng) -> Cmd { let mut c = Cmd::new(true, args); gen::sched(r, &mut c); c }
fn kv(k: &str, v: impl ToString) -> String { format!("{}={}", k, v.to_string()) }
fn list(v: &[usize]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }

fn c08(r: &mut Rng, i: u64) -> Vec<Case> {
    let max = if r.chance(1, 4) { 40_000 } else { 5_000 };
    let mut n = gen::len(r, max);
    let plain = gen::bytes(r, n);
    let large = large(r, i, 1500, 20_000);
    if large.is_none() && r.chance(1, 3) {
        let mut c = Case::new("C08", "library-to-huff");
        let distinct: Vec<usize> = (0..256).filter(|i| !plain.contains(&(*i as u8))).collect();
        let extra: Vec<usize> = if r.chance(1, 2) || distinct.is_empty() { vec![] } else { (0..1 + r.us(5)).map(|_| *r.pick(&distinct)).collect() };
        // or the codes of letters are long, because of others that weigh much more
        let deep: Vec<usize> = if r.chance(1, 4) { let mut all: Vec<usize> = (0..256).collect(); for i in (1..256).rev() { let k = r.us(i + 1); all.swap(i, k) } all.truncate(*r.pick(&[9usize, 17, 18, 33, 34, 58, 63, 64, 65, 66, 90])); all } else { vec![] };
        let plain = if deep.is_empty() { plain } else { let most = 1 + r.us(deep.len()); n = n.min(4000); plain[..n].iter().map(|b| deep[*b as usize % most] as u8).collect() };
        c.file("/w/plain", Content::raw(plain));
        let k = lib(vec!["encode".into(), kv("file", "/w/plain"), kv("out2", "/w/x.hff"), kv("out", "/w/out"), kv("kind", r.us(4)), kv("extra", list(&extra)), kv("deep", list(&deep))], r);
        let j = Job { comp: false, src: "x.hff".into(), dst_arg: if r.chance(1, 2) { Some("y".into()) } else { None }, srcabs: "/w/x.hff".into(), dstabs: String::new(), n: true, r: false, t: false, bs: gen::block(r, n, 100) };
        let j = Job { dstabs: if j.dst_arg.is_some() { "/w/y".into() } else { "/w/x".into() }, ..j };
        c.set("src", "/w/plain"); c.set("dst", &j.dstabs);
        let mut d = j.cmd(r);
        if r.chance(1, 2) { gen::noise(r, &mut d) }
        c.steps = vec![Step::Run(k), Step::Run(d)];
        return vec![c];
    }
    let mut c = Case::new("C08", "huff-to-library");
    let mut j = Job::random(r, true);
    let big = large.is_some();
    let data = match large { Some(g) => { if let Content::Gen { len, .. } = g { n = len } g } None => Content::raw(plain) };
    let blocks = if r.chance(1, 25) { 1200 } else if r.chance(1, 10) { 300 } else { 25 };
    j.bs = gen::block(r, n, blocks); j.n = true;
    c.file(&j.srcabs, data);
    j.store(&mut c);
    if r.chance(1, 4) { old_dst(r, &mut c, &j, 9000) }
    let mut k = j.cmd(r);
    if big { if k.mode == 0 { k.mean = k.mean.max(20_000) } k.max_steps = 40_000_000_000; }
    if r.chance(1, 2) { gen::noise(r, &mut k) }
    let mut d = lib(vec!["decode".into(), kv("file", &j.dstabs), kv("dec", "/w/dec"), kv("out", "/w/out")], r);
    if big { if d.mode == 0 { d.mean = d.mean.max(20_000) } d.max_steps = 40_000_000_000; }
    c.steps = vec![Step::Run(k), Step::Run(d)];
    vec![c]
}

fn c09(sim: &mut Sim, r: &mut Rng, i: u64) -> Vec<Case> {
    let n = if r.chance(1, 12) { r.us(3) } else { gen::len(r, 6000) };
    if i % 350 == 3 { // a large slice: whatever a thread counts with must hold it
        let n = *r.pick(&[70_000, 140_000, 300_000, 600_000, 1_200_000]) + r.us(5);
        let mut c = Case::new("C09", "large");
        c.file("/w/in", Content::Gen { kind: *r.pick(&[4, 4, 2, 1, 3, 0]), seed: r.next() >> 8, len: n });
        let ns: Vec<usize> = vec![*r.pick(&[1, 2, 3, 4, 7, 12])];
        let mut cmd = lib(vec!["count".into(), kv("file", "/w/in"), kv("n", list(&ns)), kv("off", 0), kv("conc", 0), kv("out", "/w/out")], r);
        if cmd.mode == 0 { cmd.mean = cmd.mean.max(3000) }
        c.steps = vec![Step::Run(cmd)];
        return vec![c];
    }
    let plain = gen::bytes(r, n);
    let mut c = Case::new("C09", "count");
    let conc = r.chance(1, 3);
    let k = if conc { 2 + r.us(4) } else { 1 + r.us(4) };
    let ns: Vec<usize> = (0..k).map(|_| match r.us(11) { 10 => *r.pick(&[n + 1, n + 1000, 1 << 20, 1 << 33, 1 << 40, 1 << 61, 1 << 62]), 0 => 1, 1 => 2, 2 => n.clamp(1, 60), 3 => (n + 1).clamp(1, 60), 4 => n.saturating_sub(1).clamp(1, 60), 5 => *r.pick(&[12, 12, 16, 32, if conc { 8 } else { 64 }, if conc { 24 } else { 65 }, if conc { 31 } else { 256 }]), 6 => r.range(1, 60), 7 if !conc => r.range(60, 300), _ => r.range(1, 17) }).collect();
    let offs: Vec<usize> = (0..k).map(|_| if r.chance(1, 2) { 0 } else { r.us(n + 1) }).collect();
    c.file("/w/in", Content::raw(plain));
    let mut cmd = lib(vec!["count".into(), kv("file", "/w/in"), kv("n", list(&ns)), kv("off", list(&offs)), kv("conc", conc as u32), kv("out", "/w/out")], r);
    if r.chance(1, 4) { gen::soft_fault(r, &mut cmd, 40) }
    c.steps = vec![Step::Run(cmd.clone())];
    let mut v = vec![c.clone()];
    if !conc && r.chance(1, 3) {
        c.profile = "thread-refused".into();
        if let Some(o) = probe(sim, &c) { if o.spawns > 0 { for _ in 0..2 {
            let mut q = cmd.clone(); q.fault(at::SPAWN, r.below(o.spawns), fk::SPAWNFAIL, if r.chance(1, 2) { 1 } else { 1 + r.us(400) as i64 });
            let mut d = c.clone(); d.steps = vec![Step::Run(q)]; v.push(d);
        } } }
    }
    v
}
fn c10(r: &mut Rng) -> Vec<Case> {
    let n = gen::len(r, 3000);
    let mut plain = gen::bytes(r, n);
    if r.chance(1, 8) { plain[0] = 0; }
    let mut c = Case::new("C10", "merge");
    c.file("/w/in", Content::raw(plain));
    let cuts: Vec<usize> = (0..r.us(7)).map(|_| match r.us(4) { 0 => 0, 1 => n, _ => r.us(n + 1) }).collect();
    let how: Vec<usize> = (0..1 + r.us(4)).map(|_| if r.chance(1, 2) { 0 } else { 1 + r.us(9) }).collect();
    let merge: Vec<usize> = (0..1 + r.us(6)).map(|_| r.us(4096)).collect();
    let mut k = lib(vec!["merge".into(), kv("file", "/w/in"), kv("cuts", list(&cuts)), kv("how", list(&how)), kv("merge", list(&merge)), kv("eager", r.us(4)), kv("double", if r.chance(1, 3) { 1 + r.us(62) } else { 0 }), kv("out", "/w/out")], r);
    if r.chance(1, 4) { gen::soft_fault(r, &mut k, 40) }
    c.steps = vec![Step::Run(k)];
    vec![c]
}
const RT: [&str; 17] = ["u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128", "char", "String", "Str", "Odd", "Rgb"];
/// bytes standing for letters of type `t`; (bytes, bytes per letter, wide)
fn letter_bytes(r: &mut Rng, t: &str, max: usize) -> (Vec<u8>, usize, usize) {
    let one = matches!(t, "u8" | "i8" | "Odd");
    let w = if one || r.chance(2, 3) { 1 } else { 2 };
    let n = gen::len(r, max);
    let mut v = gen::bytes(r, n * w);
    if w == 2 && r.chance(1, 2) { for x in v.chunks_exact_mut(2) { x[0] %= 1 + (n as u8 % 7) } }
    if t == "Odd" { for x in v.iter_mut() { *x &= 127 } }
    (v, w, if t == "Odd" { 0 } else { r.us(2) })
}
fn c11(r: &mut Rng, i: u64) -> Vec<Case> {
    if i % 8 == 2 { // codes as long as weights allow, far longer than the data could make them
        let t = *r.pick(&["u8", "u16", "i64", "u128", "char", "String"]);
        let fib = if r.chance(1, 2) { 60 + r.us(25) } else { 2 + r.us(84) };
        let n = gen::len(r, 400);
        let b: Vec<u8> = gen::bytes(r, n).into_iter().map(|x| (x as usize % fib) as u8).collect();
        let mut c = Case::new("C11", "long-codes"); c.set("w", 1); c.set("fib", fib);
        c.file("/w/in", Content::raw(b));
        let missing: Vec<usize> = if r.chance(1, 2) { vec![fib + r.us(200 - fib)] } else { vec![] };
        c.steps = vec![Step::Run(lib(vec!["rt".into(), kv("type", t), kv("w", 1), kv("wide", r.us(2)), kv("file", "/w/in"), kv("out", "/w/out"), kv("extra", ""), kv("missing", list(&missing)), kv("threads", 1 + r.us(3)), kv("kind", r.us(256)), kv("fib", fib)], r))];
        return vec![c];
    }
    if i % 500 == 9 || i % 500 == 261 { // more letters, or more different letters, than 16 bits count
        let many = i % 500 == 9;
        let t = if many { *r.pick(&["u32", "u64", "i32", "i64", "usize", "i128", "char", "String"]) } else { *r.pick(&["u8", "u16", "i16", "u32", "i8", "u64", "char"]) };
        let n = if many { 3 * (65_530 + r.us(14_000)) } else { *r.pick(&[65_535, 65_536, 65_537, 70_000, 131_072, 200_001]) };
        let mut c = Case::new("C11", "many-letters"); let w = if many { 3 } else { 1 }; c.set("w", w);
        c.file("/w/in", Content::Gen { kind: if many { 6 } else { *r.pick(&[0, 1, 2, 3, 4, 5]) }, seed: r.next() >> 8, len: n });
        let missing: Vec<usize> = if many && r.chance(1, 2) { vec![80_000 + r.us(100)] } else { vec![] };
        c.steps = vec![Step::Run(lib(vec!["rt".into(), kv("type", t), kv("w", w), kv("wide", r.us(2)), kv("file", "/w/in"), kv("out", "/w/out"), kv("extra", ""), kv("missing", list(&missing)), kv("threads", 1), kv("kind", r.us(256))], r))];
        for k in c.runs_mut() { k.mode = 2 }
        return vec![c];
    }
    if r.chance(1, 8) {
        let t = *r.pick(&["u8", "u16", "i64", "u128", "char", "String"]);
        let (b, w, wide) = letter_bytes(r, t, 800);
        let mut c = Case::new("C11", "weights-map"); c.set("w", w);
        c.file("/w/in", Content::raw(b));
        c.steps = vec![Step::Run(lib(vec!["build".into(), kv("type", t), kv("w", w), kv("wide", wide), kv("file", "/w/in"), kv("out", "/w/out")], r))];
        return vec![c];
    }
    let t = *r.pick(&RT);
    let (b, w, wide) = letter_bytes(r, t, if i % 300 == 4 { 70_000 } else if r.clone().chance(1, 5) { 3000 } else { 400 });
    let used: std::collections::HashSet<usize> = b.chunks_exact(w).map(|c| if w == 2 { c[0] as usize * 256 + c[1] as usize } else { c[0] as usize }).collect();
    let lim = if t == "Odd" { 128 } else if w == 1 { 256 } else { 65536 };
    let mut free: Vec<usize> = (0..lim).filter(|x| !used.contains(x)).collect(); r.shuffle(&mut free);
    let e = if r.chance(1, 2) { 0 } else { r.us(4).min(free.len()) }; let extra: Vec<usize> = free.drain(..e).collect();
    let m = r.us(3).min(free.len()); let missing: Vec<usize> = free.drain(..m).collect();
    let mut c = Case::new("C11", "letters"); c.set("w", w);
    c.file("/w/in", Content::raw(b));
    let args = vec!["rt".into(), kv("type", t), kv("w", w), kv("wide", wide), kv("file", "/w/in"), kv("out", "/w/out"), kv("extra", list(&extra)), kv("missing", list(&missing)), kv("threads", 1 + r.us(4)), kv("kind", r.us(256)), kv("flip", if r.chance(1, 4) { 1 + r.us(1 << 20) } else { 0 })];
    for _ in 0..1 + r.us(2) { let k = lib(args.clone(), r); c.steps.push(Step::Run(k)) }
    vec![c]
}
fn weights(r: &mut Rng, max: usize) -> Vec<usize> {
    let n = match r.us(6) { 0 => 1, 1 => 2, 2 => 3, 3 => r.range(1, 12), _ => 1 + r.skew(max - 1) };
    match r.us(12) {
        9 => (0..n).map(|_| if r.chance(1, 2) { 0 } else { r.us(9) }).collect(), // zero is a weight too
        10 => { // the sum is the greatest there is, or just below
            let mut v: Vec<usize> = (0..n).map(|_| (r.next() >> 1) as usize / n.max(1)).collect(); let s: usize = v[1..].iter().sum(); v[0] = usize::MAX - s - if r.chance(1, 2) { 0 } else { r.us(5) }; v }
        11 => { let mut v = vec![usize::MAX / n; n]; if r.chance(1, 2) { v[0] += usize::MAX % n } v }
        0 => vec![1 + r.us(9); n],
        1 => (0..n).map(|_| 1 + r.us(3)).collect(),
        2 => { let n = n.min(84); let mut f = vec![1usize, 1]; while f.len() < n { let x = f[f.len() - 1] + f[f.len() - 2]; f.push(x) } f.truncate(n); f }
        3 => (0..n.min(60)).map(|i| 1usize << i).collect(),
        4 => (0..n).map(|_| 1 + r.us(1_000_000_000)).collect(),
        5 => (0..n).map(|_| (r.next() >> 10) as usize + 1).collect(), // sums near 2^63
        6 => (0..n).map(|i| i + 1).collect(),
        7 => (0..n).map(|i| if i == 0 { 1_000_000 } else { 1 }).collect(),
        _ => (0..n).map(|_| 1usize << r.us(12)).collect(),
    }
}
fn c12(r: &mut Rng, i: u64) -> Vec<Case> {
    if r.chance(1, 4) {
        let n = gen::len(r, 4000);
        let mut c = Case::new("C12", "bytes");
        c.file("/w/in", Content::raw(gen::bytes(r, n)));
        for _ in 0..1 + r.us(2) { let k = lib(vec!["byteweights".into(), kv("file", "/w/in"), kv("n", r.us(6)), kv("out", "/w/out")], r); c.steps.push(Step::Run(k)) }
        return vec![c];
    }
    let t = *r.pick(&["u8", "u16", "u64", "i32", "u128", "char", "String", "Str"]);
    let many = i % 2000 == 5;
    let huge = i % 4000 == 7; // more letters than 16 bits count
    let t = if many { "u64" } else if huge { *r.pick(&["u64", "i32", "u128", "char", "String"]) } else { t };
    let mut ws = if huge { let n = 65_530 + r.us(4000); let k = *r.pick(&[1usize, 1, 3, 1000]); (0..n).map(|_| 1 + r.us(k)).collect() } else { weights(r, if many { 3000 } else if r.clone().chance(1, 6) { 256 } else { 40 }) };
    r.shuffle(&mut ws);
    let step = if t == "u8" { 1 } else { 1 + r.us(7) };
    let off = r.us(50);
    let mut ids: Vec<usize> = (0..ws.len()).map(|i| if t == "u8" { (i * 37 + off) % 256 } else { i * step + off }).collect();
    if r.chance(1, 2) { r.shuffle(&mut ids) }
    match r.us(4) { 0 => ws.sort(), 1 => { ws.sort(); ws.reverse() } _ => {} }
    let text: String = ids.iter().zip(&ws).map(|(i, w)| format!("{} {}\n", i, w)).collect();
    let mut c = Case::new("C12", "weights");
    c.file("/w/in", Content::raw(text.into_bytes()));
    for _ in 0..1 + r.us(3) {
        let k = lib(vec!["weights".into(), kv("type", t), kv("wide", r.us(2)), kv("kind", if huge || r.chance(1, 2) { "map" } else { "vec" }), kv("hashers", if huge { *r.pick(&["std", "mul"]) } else { *r.pick(&["std,const,sum,mul", "std", "sum", "const,mul"]) }), kv("file", "/w/in"), kv("out", "/w/out")], r);
        c.steps.push(Step::Run(k))
    }
    vec![c]
}
fn int_size(t: &str) -> usize { match t { "u8" | "i8" | "Odd" => 1, "u16" | "i16" => 2, "Rgb" => 3, "u32" | "i32" => 4, "u128" | "i128" => 16, _ => 8 } }
fn forged_tree(r: &mut Rng, t: &str) -> codec::Bits {
    let sz = int_size(t);
    let mut b = codec::Bits::new();
    let leaf = |b: &mut codec::Bits, r: &mut Rng| { b.push(false); for _ in 0..sz { let x = r.next() as u8 | (t == "Odd") as u8; for i in 0..8 { b.push(x >> (7 - i) & 1 == 1) } } };
    match r.us(6) {
        0 => { for _ in 0..*r.pick(&[1usize, 8, 255, 256, 300, 20_000, 300_000]) { b.push(true) } if r.chance(1, 2) { leaf(&mut b, r) } }
        1 => { let d = *r.pick(&[1usize, 5, 90, 254, 255, 256, 2000, 30_000]); if r.chance(1, 2) { for _ in 0..d { b.push(true); leaf(&mut b, r) } leaf(&mut b, r) } else { for _ in 0..d { b.push(true) } for _ in 0..d + 1 { leaf(&mut b, r) } } }
        2 => { for _ in 0..r.range(0, 400) { b.push(r.chance(1, 2)) } }
        3 => leaf(&mut b, r),
        _ => { let mut open = 1; let mut n = 0; while open > 0 { if n < 40 && r.chance(1, 2) { b.push(true); open += 1 } else { leaf(&mut b, r); open -= 1 } n += 1 } }
    }
    b
}
fn c13(r: &mut Rng, i: u64) -> Vec<Case> {
    if i == 40_000 { // (in the thorough check only) a tree of more than 2^32 bits
        let mut c = Case::new("C13", "intact-huge");
        c.steps = vec![Step::Run(lib(vec!["huge".into(), kv("k", 8192), kv("read", 0), kv("out", "/w/out")], r))];
        for k in c.runs_mut() { k.mode = 2; k.mem_cap = 12 << 30; k.max_steps = 1 << 42 }
        return vec![c];
    }
    if i % 700 == 4 { // thousands of letters: a tree of more than 65535 bytes
        let t = *r.pick(&["u64", "u128", "i128", "usize", "u32", "u16"]);
        let huge = i % 2800 == 4; // more than 65536 different letters
        let t = if huge { *r.pick(&["u32", "i32", "u64"]) } else { t };
        let n = match t { "u16" => 33_000, "u32" => 17_000, "u128" | "i128" => 4200, _ => 8300 };
        let mut b: Vec<u8> = (0..n).flat_map(|i: usize| [(i >> 8) as u8, i as u8]).collect(); for _ in 0..r.us(2000) { let x = r.us(n); b.extend([(x >> 8) as u8, x as u8]) }
        let mut c = Case::new("C13", "intact-many-letters");
        if huge { c.file("/w/in", Content::Gen { kind: 6, seed: r.next() >> 8, len: 3 * (65_530 + r.us(9000)) }) } else { c.file("/w/in", Content::raw(b)) };
        let wide = r.us(2);
        let com = || vec![kv("type", t), kv("w", 2 + huge as usize), kv("wide", wide), kv("file", "/w/in"), kv("out", "/w/out"), kv("ser", "/w/ser"), kv("tree", "/w/tree"), kv("val", "/w/val")];
        let mut a = vec!["serw".to_string(), kv("extra", "")]; a.extend(com());
        let mut b = vec!["serr".to_string(), kv("exact", 1), kv("thread", 0)]; b.extend(com());
        c.steps = vec![Step::Run(lib(a, r)), Step::Run(lib(b, r))];
        for k in c.runs_mut() { k.mode = 2 }
        return vec![c];
    }
    let t = *r.pick(&["u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128", "Odd", "Rgb", "u8", "u8"]);
    let common = |w: usize, wide: usize| vec![kv("type", t), kv("w", w), kv("wide", wide), kv("file", "/w/in"), kv("out", "/w/out"), kv("ser", "/w/ser"), kv("tree", "/w/tree"), kv("val", "/w/val")];
    if r.chance(1, 3) {
        let (b, w, wide) = letter_bytes(r, t, if r.clone().chance(1, 5) { 2000 } else { 200 });
        let mut c = Case::new("C13", "intact");
        c.file("/w/in", Content::raw(b));
        let lim = if t == "Odd" { 128 } else { 256 };
        let extra: Vec<usize> = if r.chance(1, 2) { vec![] } else { (0..1 + r.us(3)).map(|_| r.us(lim)).collect() };
        let mut a = vec!["serw".to_string(), kv("extra", list(&extra))]; a.extend(common(w, wide));
        // letters that do not occur have weight 0: thousands of them make long branches
        if int_size(t) > 1 && r.chance(1, 40) { a.push(kv("zeros", *r.pick(&[3usize, 40, 1100, 1300, 2500, 4500]))) }
        else if r.chance(1, 4) { a.push(kv("flip", 1 + r.us(1 << 20))) }
        let mut b = vec!["serr".to_string(), kv("exact", 1), kv("thread", r.us(2))]; b.extend(common(w, wide));
        c.steps = vec![Step::Run(lib(a, r)), Step::Run(lib(b, r))];
        for k in c.runs_mut() { if r.chance(1, 3) { gen::noise(r, k) } }
        return vec![c];
    }
    // stored bytes, then damaged
    let mut c = Case::new("C13", "damaged");
    let (mut ser, mut tree);
    if r.chance(1, 2) {
        let b = forged_tree(r, t);
        tree = (b.n as u64).to_be_bytes().to_vec(); tree.extend(&b.bytes);
        let dn = *r.pick(&[0usize, 1, 2, 9, 60]);
        ser = vec![(((8 - b.n % 8) % 8) as u8) << 4 | if r.chance(1, 3) { r.us(16) as u8 } else { r.us(8) as u8 }];
        ser.extend((if r.chance(1, 8) { *r.pick(&[0u32, 1, 2, u32::MAX, b.bytes.len() as u32 + 1]) } else { b.bytes.len() as u32 }).to_be_bytes()); ser.extend(&b.bytes);
        let dens = *r.pick(&[2u64, 2, 1_000_000]); for _ in 0..dn { ser.push(if dens == 2 { r.next() as u8 } else { 0 }) }
        if r.chance(1, 3) { gen::damage(r, &mut ser) }
        if r.chance(1, 6) { gen::damage(r, &mut tree) }
    } else {
        let sz = int_size(t);
        // a valid serialisation of letters of this size, written by the reference
        let n = gen::len(r, 300); let p = gen::bytes(r, n);
        let mut letters: Vec<u8> = p.clone(); letters.sort(); letters.dedup(); let m = letters.len();
        let ws: Vec<(u8, u64)> = letters.iter().map(|l| (*l, p.iter().filter(|x| *x == l).count() as u64)).collect();
        let base = codec::encode_with(&codec::tree_for(&ws, r, false), &p); let a = codec::parse(&base).unwrap();
        let mut b = codec::Bits::new(); let mut pos = 0;
        let bit = |i: usize| base[5 + i / 8] >> (7 - i % 8) & 1 == 1;
        let _ = m;
        while pos < a.tree_len * 8 - a.tree_pad as usize { if bit(pos) { b.push(true); pos += 1 } else { b.push(false); let mut l = 0u8; for i in 0..8 { l = l << 1 | bit(pos + 1 + i) as u8 } pos += 9; if t == "Odd" { l |= 1 } for k in 0..sz { let x = if k + 1 == sz { l } else { 0 }; for i in 0..8 { b.push(x >> (7 - i) & 1 == 1) } } } }
        tree = (b.n as u64).to_be_bytes().to_vec(); tree.extend(&b.bytes);
        ser = vec![(((8 - b.n % 8) % 8) as u8) << 4 | a.data_pad]; ser.extend((b.bytes.len() as u32).to_be_bytes()); ser.extend(&b.bytes); ser.extend(&base[a.data_off..]);
        gen::damage(r, &mut ser);
        if r.chance(1, 2) { gen::damage(r, &mut tree) }
    }
    c.file("/w/in", Content::raw(vec![1])); c.file("/w/ser", Content::raw(ser)); c.file("/w/tree", Content::raw(tree));
    let mut a = vec!["serr".to_string(), kv("exact", 0), kv("thread", r.us(2))]; a.extend(common(1, 0));
    c.steps = vec![Step::Run(lib(a, r))];
    vec![c]
}
fn c14(r: &mut Rng) -> Vec<Case> {
    let t = *r.pick(&["u8", "u8", "u16", "i64", "Rgb"]);
    let (b, w, wide) = letter_bytes(r, t, if r.clone().chance(1, 6) { 1500 } else { 200 });
    let mut c = Case::new("C14", "callers");
    c.file("/w/in", Content::raw(b));
    let one = r.chance(1, 3); // everyone does the same, or one of two things
    let ops: Vec<usize> = (0..if one { 1 + r.us(2) } else { 1 + r.us(8) }).map(|_| if one { *r.pick(&[0, 1, 7, 7, 7, 10, 9, 2, 15, 11, 16, 17]) } else { r.us(18) }).collect();
    let many = r.chance(1, 5);
    let tn: Vec<usize> = (0..1 + r.us(4)).map(|_| if r.chance(1, 3) { (*r.pick(&[8usize, 12, 12, 16, 17, 32, 40])).min(if many { 17 } else { 40 }) } else { 1 + r.us(6) }).collect();
    let mut k = lib(vec!["conc".into(), kv("type", t), kv("w", w), kv("wide", wide), kv("file", "/w/in"), kv("out", "/w/out"), kv("ops", list(&ops)), kv("threads", if many { 8 + r.us(12) } else { 2 + r.us(6) }), kv("per", 1 + r.us(3)), kv("tn", list(&tn)), kv("vary", r.us(2))], r);
    if k.mode == 2 { k.mode = 0; k.mean = 60 }
    c.steps = vec![Step::Run(k)];
    vec![c]
}

fn c15(sim: &mut Sim, r: &mut Rng) -> Vec<Case> {
    let max = *r.pick(&[30, 400, 3000, 20_000]);
    let (mut c, j, k, n) = job(r, "C15", max, 8, |r, j| j.r = r.chance(1, 4));
    if r.chance(1, 3) { old_dst(r, &mut c, &j, 30_000) }
    c.steps = vec![Step::Run(k.clone())];
    let Some(o) = probe(sim, &c) else { return vec![] };
    let mut v = vec![];
    for _ in 0..8 {
        let mut d = c.clone(); d.steps.clear();
        for _ in 0..1 + r.skew(3) {
            let mut q = k.clone(); gen::sched(r, &mut q);
            if r.chance(1, 4) { gen::noise(r, &mut q) }
            if r.chance(1, 2) { gen::crash_fault(r, &mut q, &o); d.steps.push(Step::Run(q)); if r.chance(1, 2) { d.steps.push(Step::Power(r.next() >> 1)) } }
            else { gen::hard_fault(r, &mut q, &o, n, false); d.steps.push(Step::Run(q)) }
        }
        d.steps.push(Step::Run(k.clone()));
        v.push(d);
    }
    v
}

fn bsize(r: &mut Rng, n: usize) -> String {
    match r.us(14) {
        0 => r.pick(&["0", "", "k", "K", "-1", "+5", "0x10", "1.5k", "1 k", " 5", "5 ", "kk", "1kk", "1kib", "1b", "ki1", "1e3", "٣", "1\u{212a}", "00", "0k", "0g"]).to_string(),
        1 => r.pick(&["18446744073709551615", "18446744073709551616", "99999999999999999999999999", "9223372036854775807", "9223372036854775808", "4294967296", "4294967295"]).to_string(),
        2 => format!("{}{}", r.next(), r.pick(&["k", "Ki", "m", "MI", "g", "gI", ""])),
        3 => { // products that wrap to small numbers
            let m: u128 = *r.pick(&[1000u128, 1_000_000, 1_000_000_000, 1024, 1 << 20, 1 << 30]); let s = match m { 1000 => "k", 1_000_000 => "m", 1_000_000_000 => "g", 1024 => "ki", 1_048_576 => "mi", _ => "gi" };
            let mut best = 0u128; for _ in 0..4 { let mult = 1 + r.below(1000) as u128; let x = (mult << 64).div_ceil(m); if x <= u64::MAX as u128 { best = x } } format!("{}{}", best.max(1), s) }
        4 => format!("{}{}", 1u64 << r.range(30, 63), r.pick(&["", "k", "Ki", "Mi", "Gi", "g"])),
        5 => "1".into(), 6 => r.range(1, 9).to_string(),
        7 => format!("000{}", r.range(1, 300)),
        8 => r.pick(&["1k", "1K", "1ki", "1KI", "2Ki", "1m", "1Mi", "3g", "2G", "2Gi", "4G"]).to_string(),
        _ => gen::block(r, n, 400).unwrap_or("2G".into()),
    }
}
/// what the help text says a size means, if anything
pub fn size_of(s: &str) -> Option<u64> {
    let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
    let m: u64 = match &s[d.len()..].to_ascii_lowercase()[..] { "" => 1, "k" => 1000, "m" => 1_000_000, "g" => 1_000_000_000, "ki" => 1024, "mi" => 1 << 20, "gi" => 1 << 30, _ => return None };
    d.parse::<u64>().ok().filter(|n| *n > 0)?.checked_mul(m)
}
fn c16(r: &mut Rng, i: u64) -> Vec<Case> {
    if i % 1500 == 11 { // a large block: what grows with the square of its size does not end in time
        let comp = r.chance(1, 2);
        let (s, d) = if comp { ("/w/big", "/w/big.hff") } else { ("/w/big.hff", "/w/out") };
        let len = r.range(2_500_000, 4_000_000);
        let mut c = Case::new("C16", "large-block");
        c.file(s, Content::Gen { kind: r.below(5) + if comp { 0 } else { 100 }, seed: r.next() >> 8, len });
        let j = Job { comp, src: s[3..].into(), dst_arg: if comp { None } else { Some("out".into()) }, srcabs: s.into(), dstabs: d.into(), n: true, r: false, t: false, bs: Some(r.pick(&["8M", "5Mi", "1Gi", "3M", "4000k", "4294967295"]).to_string()) };
        j.store(&mut c);
        let mut k = j.cmd(r);
        if k.mode == 0 { k.mean = k.mean.max(20_000) }
        if r.chance(1, 3) { k.psr = 30; k.psw = 30; }
        k.max_ops = 2_000_000;
        k.max_steps = LARGE * len as u64;
        c.steps = vec![Step::Run(k)];
        return vec![c];
    }
    let max = *r.pick(&[30, 400, 3000, 10_000]);
    let n0 = gen::len(r, max);
    let (mut c, mut j, _, n) = job(r, "C16", n0, 60, |r, j| { j.n = r.chance(1, 2); j.r = r.chance(1, 6) });
    j.bs = Some(bsize(r, n));
    if !j.comp && r.chance(1, 3) { for i in c.init.iter_mut() { if let Init::File(p, d) = i { if *p == j.srcabs { let mut b = if r.chance(1, 3) { forged(r) } else { d.bytes().to_vec() }; gen::damage(r, &mut b); *d = Content::raw(b) } } } }
    if r.chance(1, 8) { for i in c.init.iter_mut() { if let Init::File(p, d) = i { if *p == j.srcabs { *d = Content::raw(vec![]) } } } }
    if r.chance(1, 3) { old_dst(r, &mut c, &j, 500) }
    let n = c.content(&j.srcabs).len();
    let mut k = j.cmd(r);
    if r.chance(1, 2) { gen::noise(r, &mut k) }
    for _ in 0..r.us(3) { gen::soft_fault(r, &mut k, 30) }
    if r.chance(1, 6) { let p = r.below(40); let e = *r.pick(&gen::ERRNO); let f = *r.pick(&[fk::ERR, fk::ERRSTICKY]); k.fault(at::OP, p, f, e) }
    if r.chance(1, 8) { let p = r.below(40); let a = r.us(n + 1) as i64; let f = *r.pick(&[fk::PEER_TRUNC, fk::PEER_APPEND]); k.fault(at::OP, p, f, a) }
    k.stdin = r.pick(&[&b"y\n"[..], b"n\n", b"", b"maybe\n"]).to_vec(); k.stdin_chunk = r.us(2) as u32;
    limits(&mut k, n as u64 * 2 + 50, size_of(j.bs.as_deref().unwrap_or("")).unwrap_or(1).min(n as u64 * 2 + 50));
    k.max_steps += 4 * j.block().min(1 << 33); // filling the buffer
    c.steps = vec![Step::Run(k)];
    vec![c]
}
/// steps per byte of a file done in a large block
const LARGE: u64 = 2000;
/// generous linear bounds for a source of `n` bytes done in blocks of `b`
pub fn limits(k: &mut Cmd, n: u64, b: u64) {
    let blocks = n / b.max(1) + 2;
    k.max_ops = 2000 + 120 * blocks + 40 * n;
    k.max_steps = 4_000_000 + 400_000 * blocks + 20_000 * n;
}

fn c17(r: &mut Rng, i: u64) -> Vec<Case> {
    let comp = r.chance(1, 2);
    let mut kind = r.below(5); let seed = r.next() >> 8;
    // one in twelve is large: what grows slowly with the file shows there
    let large = i % 12 == 0;
    // and one in six has very many tiny blocks: what is kept for every block shows there
    let tiny = i % 6 == 3;
    if tiny && comp { kind = *r.pick(&[1, 3, 4]) } // (few letters: the tree is copied for every block)
    let bs = *r.pick(if tiny { &["1", "2", "3", "7", "11", "5"] } else if large { &["8K", "8192", "16ki", "20000", "16K", "12k", "32KI"] } else { &["2000", "3k", "4096", "4K", "4Ki", "8000", "8ki", "10000", "0500", "1K"] });
    let b = size_of(bs).unwrap() as usize;
    let len = if tiny { b * if comp { r.range(15_000, 30_000) } else { r.range(30_000, 60_000) } } else if large { r.range(6_000_000, 12_000_000) } else { b * r.range(120, 400).min(2_000_000 / b) };
    let mut c = Case::new("C17", if comp { "compress" } else { "decompress" });
    let (s, d) = if comp { ("/w/big", "/w/big.hff") } else { ("/w/big.hff", "/w/out") };
    let data = Content::Gen { kind: if comp { kind } else { 100 + kind }, seed, len: if comp { len } else { len * if kind == 4 && !large { 4 } else { 1 } } };
    c.file(s, data);
    let j = Job { comp, src: s[3..].into(), dst_arg: if comp { None } else { Some("out".into()) }, srcabs: s.into(), dstabs: d.into(), n: true, r: false, t: false, bs: Some(bs.to_string()) };
    j.store(&mut c);
    let mut k = j.cmd(r);
    k.max_steps = 40_000_000_000;
    if large && k.mode == 0 { k.mean = k.mean.max(20_000) }
    k.plat = 20;
    if tiny { k.mode = 0; k.mean = k.mean.max(20_000) }
    if r.chance(1, 2) { k.psr = 30; k.psw = 30; }
    c.set("limit", (if tiny { 400_000 } else if large { 1_000_000 } else { 600_000 }) + 40 * b as u64);
    c.steps = vec![Step::Run(k)];
    vec![c]
}

fn c18(sim: &mut Sim, r: &mut Rng) -> Vec<Case> {
    let max = *r.pick(&[30, 400, 3000, 20_000]);
    let (mut c, j, mut k, n) = job(r, "C18", max, 8, |r, j| { j.r = true; j.n = r.chance(1, 2); });
    if r.chance(1, 2) { old_dst(r, &mut c, &j, 3000) }
    if r.chance(1, 3) { gen::noise(r, &mut k) }
    k.stdin = r.pick(&[&b"y\n"[..], b"Y\n", b"n\n", b"", b"yes", b"maybe", b"\n"]).to_vec();
    if !j.comp && r.chance(1, 4) { for i in c.init.iter_mut() { if let Init::File(p, d) = i { if *p == j.srcabs { let mut b = d.bytes().to_vec(); gen::damage(r, &mut b); *d = Content::raw(b) } } } }
    c.steps = vec![Step::Run(k.clone())];
    let Some(o) = probe(sim, &c) else { return vec![] };
    let mut v = vec![c.clone()];
    let un: Vec<u64> = o.trace.iter().enumerate().filter(|(_, t)| t.op == op::UNLINK || t.op == op::RENAME).map(|x| x.0 as u64).collect();
    for i in 0..9 {
        let mut q = k.clone();
        if i < 2 && !un.is_empty() { let e = *r.pick(&[13, 1, 30, 5, 16, 2]); let kind = *r.pick(&[fk::ERR, fk::ERRSTICKY]); let p = *r.pick(&un); q.fault(at::OP, p, kind, e) }
        else { gen::hard_fault(r, &mut q, &o, n, false); if r.chance(1, 5) { gen::hard_fault(r, &mut q, &o, n, false) } }
        let mut d = c.clone(); d.steps = vec![Step::Run(q)];
        v.push(d);
    }
    v
}

/// several jobs on different files at once
fn c19(sim: &mut Sim, r: &mut Rng) -> Vec<Case> {
    let np = *r.pick(&[2, 2, 2, 3, 3, 4]);
    let mut c = Case::new("C19", "different-files");
    for d in ["/w/in", "/w/outdir"] { c.init.push(Init::Dir(d.into())) }
    // names that are easily taken for one another
    let stem = r.pick(&["a", "data", "x.y", "with space", ".hid", "long-name-long-name"]).to_string();
    let mut exts = vec![".txt", ".bin", ".dat", "", ".tar", ".txt2", ".hf", "~", ".tmp", ".1"]; r.shuffle(&mut exts);
    let mut used: Vec<String> = vec![];
    let mut ks: Vec<Cmd> = vec![];
    let mut shared: Option<(String, String, usize)> = None;
    for i in 0..np {
        let comp = r.chance(1, 2);
        let mut n = { let m = *r.pick(&[30, 400, 3000, 12_000]); gen::len(r, m) };
        let dir = *r.pick(&["/w/", "/w/", "/w/in/"]);
        let plain = format!("{}{}", stem, exts[i]);
        let (mut src, mut srcabs) = { let f = if comp { plain.clone() } else { format!("{}.hff", plain) }; (if dir == "/w/" { f.clone() } else { format!("in/{}", f) }, format!("{}{}", dir, f)) };
        let again = match &shared { Some((a, b, l)) if comp && r.chance(1, 2) => { src = a.clone(); srcabs = b.clone(); n = *l; true } _ => false };
        let (dst_arg, dstabs) = match r.us(4) {
            0 | 1 if dir == "/w/" && !again => (None, if comp { format!("/w/{}.hff", plain) } else { format!("/w/{}", plain) }),
            2 => { let d = format!("outdir/{}", plain); (Some(d.clone()), format!("/w/{}{}", d, if comp { ".hff" } else { "" })) }
            _ => { let d = format!("o-{}{}", stem, exts[i]); (Some(d.clone()), format!("/w/{}{}", d, if comp { ".hff" } else { "" })) }
        };
        if used.contains(&dstabs) || (!again && used.contains(&srcabs)) || srcabs == dstabs { continue; }
        let mut j = Job { comp, src, dst_arg, srcabs, dstabs, n: r.chance(1, 2), r: r.chance(1, 4) && !again, t: r.chance(1, 10), bs: gen::block(r, n, 6) };
        if again || (comp && shared.is_none() && r.chance(1, 2)) { j.r = false; shared = Some((j.src.clone(), j.srcabs.clone(), n)); }
        if !again { let p = gen::bytes(r, n); let mut s = if comp { p } else { codec::encode(&p, r, 0, false) }; if !comp && r.chance(1, 10) { gen::damage(r, &mut s) } c.file(&j.srcabs, Content::raw(s)); }
        if r.chance(1, 3) { old_dst(r, &mut c, &j, 500) }
        used.push(j.srcabs.clone()); used.push(j.dstabs.clone());
        let mut k = j.cmd(r);
        k.stdin = r.pick(&[&b"y\n"[..], b"y\n", b"n\n", b""]).to_vec();
        if r.chance(1, 3) { gen::noise(r, &mut k) }
        ks.push(k);
    }
    if ks.len() < 2 { return vec![]; }
    // a bystander that a stem-based scratch name would hit
    for p in [format!("/w/{}", stem), format!("/w/{}.tmp", stem), format!("/w/{}.hff", stem)] { if !used.contains(&p) && r.chance(1, 4) { let n = 1 + r.us(40); c.file(&p, Content::raw(gen::bytes(r, n))) } }
    let mut outs = vec![];
    for k in &ks { let mut d = c.clone(); d.steps = vec![Step::Run(k.clone())]; match probe(sim, &d) { Some(o) => outs.push(o), None => return vec![] } }
    let mut v = vec![];
    for _ in 0..4 {
        let mut qs = ks.clone();
        if r.chance(1, 3) { let i = r.us(qs.len()); let q = &mut qs[i];
            if r.chance(1, 2) { gen::crash_fault(r, q, &outs[i]) } else { let e = *r.pick(&gen::ERRNO); let kind = *r.pick(&[fk::ERR, fk::ERRSTICKY]); let p = gen::pick_op(r, &outs[i]); q.fault(at::OP, p, kind, e) } }
        for (q, o) in qs.iter_mut().zip(&outs) {
            let ops = o.ops + 2;
            match r.us(4) {
                0 => for p in 0..ops.min(200) { q.fault(at::OP, p, fk::PAUSE, 0) }, // at every operation
                1 => { let p = r.below(ops); for p in p..(p + 1 + r.below(12)).min(ops) { q.fault(at::OP, p, fk::PAUSE, 0) } }
                _ => for _ in 0..1 + r.us(6) { let p = gen::pick_op(r, o); q.fault(at::OP, p, fk::PAUSE, 0) },
            }
        }
        let n = r.range(1, 40); let order: Vec<u8> = if r.chance(1, 3) { (0..12).collect() } else { (0..n).map(|_| r.us(12) as u8).collect() };
        let mut d = c.clone(); d.steps = vec![Step::Par(qs, order)];
        v.push(d);
    }
    v
}

/// a history of commands in one directory tree
/// a file name of dots and other characters in any order
fn odd_name(r: &mut Rng, src: bool) -> String {
    loop {
        let mut t: String = (0..1 + r.us(5)).map(|_| *r.pick(&['.', '.', 'a', 'b', 'h', '-', '_', ' ', 'é', '~', ':'])).collect();
        match r.us(12) {
            0 => { let k = r.range(200, 232); while t.len() < k { t.push(*r.pick(&['a', 'b', '.', '0', 'Z'])) } } // around the longest name there can be
            1 if src => { let k = r.range(252, 255); while t.len() < k { t.push('x') } } // no room for .hff (other lengths: there may be room for scratch names)
            2 => t = r.pick(&["*", "?", "[a]", "a*b", "$HOME", "a\nb", "a\tb", "\"q\"", "'q'", "a\\b", "%s", "%d%n", "{}", "{0}", "a;b", "a&b", "a|b", "\u{1}", "~", "日本語", "a=b", "#", "!", "0", "1", "NUL", "con"]).to_string(),
            3 => t = r.pick(&["-a", "--", "-n", "-d", "-", "--x", "-1", "-r.hff", " a", "a ", "SRC_FILE", "DST_FILE", "SRC_FILE.hff"]).to_string(),
            _ => {}
        }
        if t.len() < 236 && r.chance(1, 4) { t.push_str(".hff") }
        if t != "." && t != ".." && t != "..hff" && t != "...hff" { return t }
    }
}
fn c20(sim: &mut Sim, r: &mut Rng) -> Vec<Case> {
    let mut c = Case::new("C20", "history");
    for d in ["/w/in", "/w/outdir", "/w/d.hff", "/w/dir"] { c.init.push(Init::Dir(d.into())) }
    if r.chance(1, 4) { c.cwd = "/w/in".into() }
    let base = c.cwd.clone();
    let names = ["a", "b.txt", "c.tar.gz", "d e", "a.hff", "n.hff.hff", "ünï", ".hid", "UP.HFF", "x.hffx", "a.", "..two", "b.txt."];
    let mut used: Vec<String> = vec![];
    for _ in 0..1 + r.us(4) {
        let p = format!("{}{}", r.pick(&["/w/", "/w/in/", "/w/", "/w/outdir/"]), if r.chance(1, 4) { odd_name(r, true) } else { r.pick(&names).to_string() });
        if used.contains(&p) { continue; }
        let n = { let m = *r.pick(&[1, 30, 400, 3000, 9000]); gen::len(r, m) };
        let mut b = gen::bytes(r, n);
        if p.ends_with(".hff") && r.chance(2, 3) { b = codec::encode(&b, r, 0, false); if r.chance(1, 5) { gen::damage(r, &mut b) } } else if r.chance(1, 12) { b = vec![] }
        if r.chance(1, 12) && !used.is_empty() { let t = r.pick(&used).clone(); if r.chance(1, 2) { c.init.push(Init::Hard(p.clone(), t)) } else { c.init.push(Init::Link(p.clone(), t)) } } else { c.file(&p, Content::raw(b)) }
        used.push(p);
    }
    sim.quiet = true;
    sim.begin(&c);
    let steps = 3 + r.us(8);
    for _ in 0..steps {
        let snap = sim.world().snap();
        let files: Vec<String> = snap.iter().filter(|(_, s)| !matches!(s.body, crate::world::Body::Dir | crate::world::Body::Free)).map(|x| x.0.clone()).collect();
        if r.chance(1, 14) { // a user edits or removes a file
            let Some(p) = files.get(r.us(files.len().max(1))) else { break };
            if !matches!(snap[p].body, crate::world::Body::File(_)) { continue; }
            let s = if r.chance(1, 2) { Step::Remove(p.clone()) } else { let n = gen::len(r, 400); let mut b = gen::bytes(r, n); if r.chance(1, 2) { b = codec::encode(&b, r, 0, false); } Step::Set(p.clone(), Content::raw(b)) };
            sim.step(&s); c.steps.push(s);
            continue;
        }
        if r.chance(1, 25) {
            let a: Vec<&str> = match r.us(9) { 0 => vec![], 1 => vec!["--help"], 2 => vec!["-V"], 3 => vec!["-n"], 4 => vec!["a", "b", "c"], 5 => vec!["-x", "a"], 6 => vec!["a", "-b"], 7 => vec!["--nosuch", "a"], _ => vec!["-dnr"] };
            let mut k = Cmd::new(false, a.into_iter().map(|s| s.to_string()).collect()); gen::sched(r, &mut k);
            let s = Step::Run(k); sim.step(&s); c.steps.push(s);
            continue;
        }
        let hffs: Vec<&String> = files.iter().filter(|f| f.ends_with(".hff")).collect();
        let d = if hffs.is_empty() { r.chance(1, 8) } else { r.chance(1, 2) };
        let srcabs = match r.us(14) { 0 => "/w/nosuch.hff".to_string(), 1 => r.pick(&["/w/dir", "/w/d.hff", "/w/in"]).to_string(), 2 if !files.is_empty() => r.pick(&files).clone(), _ if d && !hffs.is_empty() => r.pick(&hffs).to_string(), _ if !files.is_empty() => r.pick(&files).clone(), _ => "/w/a".into() };
        // how a path may be written
        let rel = |p: &str| -> String { if let Some(x) = p.strip_prefix(&format!("{}/", base)) { x.to_string() } else if base != "/w" { format!("../{}", p.strip_prefix("/w/").unwrap_or("x")) } else { p.to_string() } };
        let here = srcabs.rsplit_once('/').unwrap().0 == base;
        let noarg = r.chance(2, 5) && (!d || here);
        let src = match r.us(6) { 0 if !(d && noarg) => srcabs.clone(), 1 if here => format!("./{}", rel(&srcabs)), _ => rel(&srcabs) };
        let src = if d && noarg { format!("{}{}", r.pick(&["", "", "./", "././", ".//"]), rel(&srcabs)) } else if r.chance(1, 8) { match r.us(4) { 0 => src.replace('/', "//"), 1 => src.replace('/', "/./"), 2 => format!("{}/in/../{}", if base == "/w" { "." } else { "./.." }, if base == "/w" { src.clone() } else { format!("in/{}", src) }), _ => format!("././{}", src) } } else { src };
        let src = if src.contains("/in/../") && src.ends_with(&srcabs) { srcabs.clone() } else { src };
        let mut pos = vec![src];
        if !noarg {
            let t = r.pick(&["o", "o1", "r.v1", "a", "b.txt", "new", "a.hff", "n", "d", "dir", ".h", "a.", "o..", "b."]).to_string();
            let t = if r.chance(1, 8) { odd_name(r, false) } else { t };
            let t = match r.us(12) { 0 => format!("nodir/{}", t), 1 if !files.is_empty() => { let f = r.pick(&files).clone(); let f = if d { f } else { f.strip_suffix(".hff").map(|s| s.to_string()).unwrap_or(f) }; if f == srcabs || f.ends_with('/') { "o".into() } else { f } } 2 | 3 => format!("{}/{}", if base == "/w" { "outdir" } else { "../outdir" }, t), 4 => format!("/w/in/{}", t), 5 => format!("./{}", t), _ => t };
            pos.push(t);
        }
        // flags in every way they can be written
        let mut a: Vec<String> = vec![];
        let mut short = String::new();
        let mut fl: Vec<(char, &str)> = vec![]; if d { fl.push(('d', "--decompress")) } if r.chance(2, 3) { fl.push(('n', "--noask")) } if r.chance(1, 3) { fl.push(('r', "--replace")) } if r.chance(1, 6) { fl.push(('t', "--time")) }
        r.shuffle(&mut fl);
        for (s, l) in fl { match r.us(3) { 0 => a.push(l.into()), 1 => a.push(format!("-{}", s)), _ => short.push(s) } }
        let bs = match r.us(12) { 0 => Some(r.pick(&["0", "k", "0k", "0x10", "1.5k", "5 ", "kk", "1kk", "1kib", "1b", "1e3", "99999999999999999999999", "18446744073709551615k", "17179869184gi"]).to_string()), 1 | 2 => if r.chance(1, 4) { None } else { Some(r.pick(&["1M", "300K", "2mi"]).to_string()) }, 3 => Some(r.pick(&["2G", "1g", "1Gi", "7M", "5MI", "3mI", "64K", "9ki"]).to_string()), _ => { let n = match snap.get(&srcabs).map(|s| &s.body) { Some(crate::world::Body::File(d)) => d.len(), _ => 20 }; gen::block(r, n.max(1), 40) } };
        if let Some(b) = bs { match r.us(5) { 0 => a.push(format!("--block-size={}", b)), 1 => { a.push("--block-size".into()); a.push(b) } 2 => { a.push("-b".into()); a.push(b) } 3 => a.push(format!("-b{}", b)), _ => { short.push('b'); if !short.is_empty() { a.push(format!("-{}", short)); short.clear(); a.push(b) } } } }
        if !short.is_empty() { a.push(format!("-{}", short)) }
        // options before, after or between
        let args: Vec<String> = match r.us(4) { 0 => pos.into_iter().chain(a).collect(), 1 if pos.len() == 2 => { let mut v = vec![pos[0].clone()]; v.extend(a); v.push(pos[1].clone()); v } 2 => { a.push("--".into()); a.into_iter().chain(pos).collect() } _ => a.into_iter().chain(pos).collect() };
        let mut k = Cmd::new(false, args); gen::sched(r, &mut k); k.max_steps = 12_000_000_000;
        k.stdin = r.pick(&[&b"y\n"[..], b"Y", b"yes\n", b"n\n", b"", b"\n", b"maybe\n"]).to_vec();
        if r.chance(1, 4) { gen::noise(r, &mut k) }
        if r.chance(1, 8) { for _ in 0..1 + r.us(2) { gen::soft_fault(r, &mut k, 30) } }
        if r.chance(1, 7) { // one that fails or is killed
            let w = sim.world(); let idx = sim.cmdidx;
            let o = sim.run(&k);
            sim.load(&w); sim.cmdidx = idx;
            if o.ops > 0 { if r.chance(1, 2) { gen::crash_fault(r, &mut k, &o) } else { gen::hard_fault(r, &mut k, &o, 300, false) } }
        }
        let full = k.faults.iter().any(|f| f.kind == fk::DISKFULL);
        let s = Step::Run(k);
        sim.step(&s); c.steps.push(s);
        if full { let w = sim.world(); sim.load(&w); }
    }
    sim.quiet = false;
    vec![c]
}
