//! simdrv: runs seeded simulations of the code under test and decides one property per call.
//!   simdrv check <id> --tier quick|thorough --seed N --dir <build dir> --verif <dir> [--cases N] [--from N] [--cap seconds]
//!   simdrv replay <file> --dir <build dir>
mod case;
mod codec;
mod gen;
#[macro_use]
mod judge;
mod model;
mod props;
mod report;
mod rng;
mod shm;
mod sim;
mod world;

use case::{Case, Step};
use judge::{Ex, J};
use sim::Sim;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Verdict { pub res: Result<(), J>, pub hash: u64, pub notes: Vec<String> }
pub fn judge_case(sim: &mut Sim, c: &Case) -> Verdict {
    let mut ex = Ex { sim, hash: 0, notes: vec![] };
    let res = judge::judge(&mut ex, c);
    Verdict { res, hash: ex.hash, notes: ex.notes }
}
pub fn class(v: &str) -> String { v.split(':').next().unwrap_or("").to_string() }
fn viol(v: &Verdict) -> Option<&String> { if let Err(J::Viol(s)) = &v.res { Some(s) } else { None } }

/// make a failing case smaller while it fails in the same way
fn minimise(sim: &mut Sim, c: &Case, cls: &str) -> Case {
    sim.quiet = true;
    let t0 = Instant::now();
    let mut best = c.clone();
    let mut runs = 0;
    let mut fails = |sim: &mut Sim, c: &Case| -> bool {
        if runs >= 500 || t0.elapsed() > Duration::from_secs(20) { return false; }
        runs += 1;
        viol(&judge_case(sim, c)).map(|s| class(s)) == Some(cls.to_string())
    };
    for _round in 0..3 {
        let before = best.text().len();
        // steps
        let roles = matches!(&best.prop[..], "C01" | "C08") || best.profile == "intact"; // every command has its part there
        let mut i = if roles { usize::MAX } else { 0 };
        while i < best.steps.len() && best.steps.len() > 1 { let mut t = best.clone(); t.steps.remove(i); if t.runs().next().is_some() && fails(sim, &t) { best = t } else { i += 1 } }
        // processes that run at once
        for i in 0..best.steps.len() {
            let mut q = 0;
            while let Step::Par(v, _) = &best.steps[i] {
                if q >= v.len() || v.len() < 2 { break }
                let mut t = best.clone(); if let Step::Par(v, _) = &mut t.steps[i] { v.remove(q); }
                if fails(sim, &t) { best = t } else { q += 1 }
            }
        }
        for i in 0..best.steps.len() { for q in 0..best.steps[i].cmds().len() {
            // faults: halves first, then one by one
            let mut cut = best.steps[i].cmds()[q].faults.len().div_ceil(2);
            while cut > 0 {
                let mut f = 0;
                loop {
                    let n = best.steps[i].cmds()[q].faults.len();
                    if f >= n { break }
                    let mut t = best.clone(); t.steps[i].cmds_mut()[q].faults.drain(f..(f + cut).min(n));
                    if fails(sim, &t) { best = t } else { f += cut }
                }
                if cut == 1 { break }
                cut = cut.div_ceil(2);
            }
            // disturbances and scheduling
            for what in 0..8 {
                let mut t = best.clone();
                let k = &mut t.steps[i].cmds_mut()[q];
                let old = k.clone();
                match what { 0 => { k.psr = 0; k.psw = 0; k.peintr = 0; k.plat = 0 } 1 => k.psr = 0, 2 => k.psw = 0, 3 => k.peintr = 0, 4 => k.plat = 0, 5 => if k.mode == 0 { k.mode = 2; k.mean = 0 }, 6 => k.ncpu = 1, _ => k.stdin_chunk &= case::STDIN_OPEN }
                if *k == old { continue; }
                if fails(sim, &t) { best = t }
            }
        } }
        // contents
        let slots: Vec<usize> = (0..best.init.len()).filter(|i| matches!(best.init[*i], case::Init::File(..))).collect();
        for i in slots {
            let (p, d) = match &best.init[i] { case::Init::File(p, d) => (p.clone(), d.clone()), _ => continue };
            if let case::Content::Gen { kind, seed, len } = d { let mut l = len; while l > 1000 { l = l * 2 / 3; let mut t = best.clone(); t.init[i] = case::Init::File(p.clone(), case::Content::Gen { kind, seed, len: l }); if fails(sim, &t) { best = t } else { break } } continue; }
            let mut cut = d.bytes().len() / 2;
            while cut > 0 {
                let mut at = 0;
                loop {
                    let cur = match &best.init[i] { case::Init::File(_, d) => d.bytes(), _ => break };
                    if at >= cur.len() || cur.len() <= 1 { break }
                    let mut v = cur.to_vec(); v.drain(at..(at + cut).min(v.len()));
                    if v.is_empty() { break }
                    let mut t = best.clone(); t.init[i] = case::Init::File(p.clone(), case::Content::raw(v));
                    if fails(sim, &t) { best = t } else { at += cut }
                }
                cut /= 2;
                if runs_left(t0) == 0 { break }
            }
        }
        // files the violation does not need
        let mut i = 0;
        while i < best.init.len() { let mut t = best.clone(); let ok = match &t.init[i] { case::Init::File(p, _) => *p != t.m("src"), _ => false }; if ok { t.init.remove(i); if fails(sim, &t) { best = t; continue } } i += 1 }
        if best.text().len() == before { break }
    }
    // the schedule: explicit, then fewer preemptions
    for i in 0..best.steps.len() {
        let k = match &best.steps[i] { Step::Run(k) if k.mode == 0 => k.clone(), _ => continue };
        // replay up to and including this step to record its decisions
        sim.begin(&best);
        let mut rec = None;
        for (q, s) in best.steps.iter().enumerate() { sim.step(s); if q == i { rec = Some(sim.recorded()); break } }
        let Some((list, true)) = rec else { continue };
        let mut t = best.clone();
        if let Step::Run(q) = &mut t.steps[i] { q.mode = 1; q.exp = list.clone(); q.mean = 0; let _ = &k; }
        if !fails(sim, &t) { continue }
        best = t;
        let mut cut = list.len().div_ceil(2);
        while cut > 0 {
            let mut at = 0;
            loop {
                let n = match &best.steps[i] { Step::Run(q) => q.exp.len(), _ => 0 };
                if at >= n { break }
                let mut t = best.clone();
                if let Step::Run(q) = &mut t.steps[i] { q.exp.drain(at..(at + cut).min(n)); }
                if fails(sim, &t) { best = t } else { at += cut }
            }
            if cut == 1 { break }
            cut = cut.div_ceil(2);
        }
    }
    sim.quiet = false;
    best
}
fn runs_left(t0: Instant) -> u32 { if t0.elapsed() > Duration::from_secs(20) { 0 } else { 1 } }

pub struct Found { pub index: u64, pub sub: usize, pub case: Case, pub what: String }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let dir = opt("--dir").unwrap_or_else(|| "/verif/target".into());
    let code = match a.get(1).map(|s| &s[..]) {
        Some("check") => check(&a[2], &opt("--tier").unwrap_or("quick".into()), opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), &dir, &opt("--verif").unwrap_or("/verif".into()), opt("--cases").and_then(|s| s.parse().ok()), opt("--from").and_then(|s| s.parse().ok()).unwrap_or(0), opt("--cap").and_then(|s| s.parse().ok())),
        Some("case") => match sim::Sim::new(&dir) { // prints a generated case: <property> <seed> <index> <sub>
            Ok(mut s) => { let n = |i: usize| a[i].parse::<u64>().unwrap(); let mut r = rng::Rng::of(n(3), &a[2], n(4)); println!("{}", props::gen(&mut s, &mut r, &a[2], n(4))[n(5) as usize].text()); 0 }
            Err(e) => { eprintln!("{}", e); 2 }
        },
        Some("replay") => replay(&a[2], &dir, a.iter().any(|x| x == "--trace")),
        _ => { eprintln!("usage: simdrv check <id> | replay <file>"); 2 }
    };
    std::process::exit(code)
}

fn replay(file: &str, dir: &str, trace: bool) -> i32 {
    let t = match std::fs::read_to_string(file) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", file, e); return 2; } };
    let c = Case::parse(&t);
    let want = t.lines().find_map(|l| l.strip_prefix("hash ")).map(|s| s.to_string());
    let mut sim = match Sim::new(dir) { Ok(s) => s, Err(e) => { eprintln!("{}", e); return 2; } };
    let v = judge_case(&mut sim, &c);
    for n in &v.notes { println!("run: {}", n) }
    if trace {
        let s = sim.s();
        for i in 0..s.ntrace as usize { let t = s.trace[i]; println!("op {:4} {:8} thread {:2} ino {:2} off {:6} len {:6} -> {:6} {}", i, shm::OPS[t.op as usize], t.tid, t.ino, t.off, t.len, t.res, if t.fk > 0 { shm::FKS[t.fk as usize] } else { "" }); }
        println!("ops {} steps {} scheduling points {} spawns {} allocations {} peak heap {}", s.ops, s.steps, s.spoints, s.spawns, s.allocs, s.peak_mem);
    }
    match &v.res {
        Err(J::Viol(s)) => { println!("VIOLATION property={} replay={}", c.prop, file); println!("what: {}", s); let h = format!("{:016x}", v.hash); println!("execution {}{}", h, match want { Some(w) if w == h => " (identical to the recorded one)", Some(_) => " (not the recorded one: the code under test has changed)", None => "" }); 1 }
        Err(J::Harness(e)) => { eprintln!("harness: {}", e); 2 }
        Ok(()) => { println!("no violation of {} on this replay", c.prop); 0 }
    }
}

/// lines "known: property=<id> what=<text>" of the known-findings file
fn known(verif: &str, prop: &str) -> Vec<String> {
    std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix("known: ")).filter_map(|l| l.strip_prefix(&format!("property={} what=", prop)[..])).map(|s| s.to_string()).collect()
}

fn check(prop: &str, tier: &str, seed: u64, dir: &str, verif: &str, cases: Option<u64>, from: u64, cap: Option<u64>) -> i32 {
    let t0 = Instant::now();
    if !props::ALL.contains(&prop) { eprintln!("no check for {}", prop); return 2; }
    let b = props::budget(prop);
    let n = cases.unwrap_or(if tier == "thorough" { b.1 } else { b.0 });
    let cap = Duration::from_secs(cap.unwrap_or(if tier == "thorough" { 840 } else { 240 }));
    let next = AtomicU64::new(from);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let known = known(verif, prop);
    let known_hit: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let agg = Mutex::new(report::Agg::default());
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(2, 16);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut sim = match Sim::new(dir) { Ok(s) => s, Err(e) => { harness.lock().unwrap().push(e); return; } };
                let mut a = report::Agg::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= from + n || stop.load(Ordering::Relaxed) || t0.elapsed() > cap { break; }
                    let mut r = rng::Rng::of(seed, prop, i);
                    let cs = props::gen(&mut sim, &mut r, prop, i);
                    for (sub, mut c) in cs.into_iter().enumerate() {
                        c.index = i;
                        let f0 = sim.stats.fired;
                        let v = judge_case(&mut sim, &c);
                        a.case(&c, &v, &sim.stats.fired, &f0, i, sub);
                        match &v.res {
                            Ok(()) => {}
                            Err(J::Harness(e)) => { harness.lock().unwrap().push(format!("case {}.{}: {}", i, sub, e)); if harness.lock().unwrap().len() > 20 { stop.store(true, Ordering::Relaxed) } continue; }
                            Err(J::Viol(s)) => {
                                if let Some(k) = known.iter().find(|k| s.contains(&k[..])) { *known_hit.lock().unwrap().entry(k.clone()).or_insert(0) += 1; continue; }
                                let mut f = found.lock().unwrap();
                                f.push(Found { index: i, sub, case: c.clone(), what: s.clone() });
                                if f.len() >= 6 { stop.store(true, Ordering::Relaxed) }
                            }
                        }
                        if i % 12 == 5 { // the same seed twice is the same execution
                            sim.quiet = true;
                            let w = judge_case(&mut sim, &c);
                            sim.quiet = false;
                            a.rechecked += 1;
                            if w.hash != v.hash { a.nondet.push(format!("case {}.{}", i, sub)); }
                        }
                    }
                    a.groups += 1;
                }
                sim.merge_cov();
                a.absorb(&mut sim.stats);
                agg.lock().unwrap().merge(a);
            });
        }
    });
    let mut agg = agg.into_inner().unwrap();
    let harness = harness.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| (f.index, f.sub));
    let mut files = vec![];
    let mut unconfirmed = 0;
    if !found.is_empty() {
        match Sim::new(dir) {
            Err(e) => { eprintln!("{}", e); return 2; }
            Ok(mut sim) => {
                sim.quiet = true;
                let mut seen = HashSet::new();
                for f in &found {
                    let cls = class(&f.what);
                    if !seen.insert(cls.clone()) || files.len() >= 3 { continue; }
                    let again = judge_case(&mut sim, &f.case);
                    if viol(&again).is_none() { unconfirmed += 1; seen.remove(&cls); continue; }
                    let small = minimise(&mut sim, &f.case, &cls);
                    sim.quiet = true;
                    let mut best = (&small, judge_case(&mut sim, &small));
                    if viol(&best.1).is_none() { best = (&f.case, judge_case(&mut sim, &f.case)); }
                    let Some(what) = viol(&best.1).cloned() else { unconfirmed += 1; continue };
                    let second = judge_case(&mut sim, best.0);
                    let path = format!("{}/replays/{}-{}-{}.replay", verif, prop, seed, f.index);
                    let _ = std::fs::create_dir_all(format!("{}/replays", verif));
                    let txt = format!("# replay with: bash /verif/replay.sh {}\n# found with seed {} in case {}.{}, then minimised\n# violation: {}\n{}\nhash {:016x}\n# the runs:\n{}\n", path, seed, f.index, f.sub, what.replace('\n', " "), best.0.text(), best.1.hash, best.1.notes.iter().map(|n| format!("#   {}", n.replace('\n', " "))).collect::<Vec<_>>().join("\n"));
                    let _ = std::fs::write(&path, txt);
                    if second.hash != best.1.hash { eprintln!("note: the replay of {} is not exact", path); }
                    files.push((path, what));
                }
            }
        }
    }
    agg.violations = files.len() as u64;
    report::write(&agg, prop, tier, seed, verif, from, n, t0.elapsed().as_secs_f64(), unconfirmed, &known_hit.lock().unwrap(), &harness, threads);
    for k in &known { println!("KNOWN-FINDING: property={} {}", prop, k) }
    for e in agg.nondet.iter().take(5) { eprintln!("note: not deterministic: {}", e) }
    for (p, w) in &files { println!("what: {}", w); println!("VIOLATION property={} replay={}", prop, p) }
    println!("{} {}: {} cases, {} simulated runs, {:.1} s, {} violations", prop, tier, agg.cases, agg.stats.runs, t0.elapsed().as_secs_f64(), files.len());
    if !files.is_empty() { return 1; }
    if !harness.is_empty() { for h in harness.iter().take(5) { eprintln!("harness: {}", h) } return 2; }
    if agg.cases == 0 { eprintln!("nothing was simulated"); return 2; }
    0
}
