//! Executing a case and deciding whether the property held.
use crate::case::{Case, Cmd, Step};
use crate::codec::{self, Decoded};
use crate::model::{self, Ask, Fate};
use crate::shm::{fk, op};
use crate::sim::{End, Out, Sim};
use crate::world::{Body, Snap, World};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum J { Viol(String), Harness(String) }
pub type R = Result<(), J>;

/// a running case
pub struct Ex<'a> { pub sim: &'a mut Sim, pub hash: u64, pub notes: Vec<String> }
impl<'a> Ex<'a> {
    fn mix(&mut self, v: u64) { self.hash = (self.hash ^ v).wrapping_mul(0x100000001B3); self.hash ^= self.hash >> 31; }
    pub fn run(&mut self, c: &Cmd) -> Result<Out, J> {
        let o = self.sim.run(c);
        if let End::Harness(h) = &o.end { return Err(J::Harness(h.clone())); }
        self.mix(o.trace_hash); self.mix(o.sched_hash); self.mix(o.ops); self.mix(o.steps);
        let w = self.sim.world().hash(); self.mix(w);
        self.notes.push(format!("{} -> {}", c.args.join(" "), o.show()));
        Ok(o)
    }
    /// several processes at once
    pub fn par(&mut self, v: &[Cmd], order: &[u8]) -> Result<Vec<Out>, J> {
        let os = self.sim.par(v, order);
        for (c, o) in v.iter().zip(&os) {
            if let End::Harness(h) = &o.end { return Err(J::Harness(h.clone())); }
            self.mix(o.trace_hash); self.mix(o.sched_hash); self.mix(o.ops); self.mix(o.steps);
            self.notes.push(format!("{} -> {}", c.args.join(" "), o.show()));
        }
        let w = self.sim.world().hash(); self.mix(w);
        Ok(os)
    }
    /// run all steps; the results of the runs
    pub fn all(&mut self, c: &Case) -> Result<Vec<Out>, J> {
        let mut v = vec![];
        for s in &c.steps { match s { Step::Run(k) => v.push(self.run(k)?), Step::Par(k, o) => v.extend(self.par(k, o)?), s => { self.sim.step(s); } } }
        Ok(v)
    }
    pub fn file(&mut self, p: &str) -> Option<Arc<Vec<u8>>> { self.sim.world().file(p) }
}
#[macro_export]
macro_rules! viol { ($($a:tt)*) => { return Err($crate::judge::J::Viol(format!($($a)*))) } }

pub fn first_diff(a: &[u8], b: &[u8]) -> String { let p = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())); format!("{} bytes instead of {}, first difference at {}", a.len(), b.len(), p) }

/// the content the source stands for: what the job's destination must hold, decided by the reference
fn complete(comp: bool, src: &[u8], dst: Option<&[u8]>) -> Result<(), String> {
    let Some(d) = dst else { return Err("the destination does not exist".into()) };
    if comp {
        match codec::decode(d) { Decoded::Letters(l, _) if l == src => Ok(()), Decoded::Letters(l, _) => Err(format!("the archive decodes to {}", first_diff(&l, src))), Decoded::Refuse(e) => Err(format!("the archive is not valid: {}", e)) }
    } else {
        match codec::decode(src) { Decoded::Letters(l, _) if l == d => Ok(()), Decoded::Letters(l, _) => Err(format!("the destination has {}", first_diff(d, &l))), Decoded::Refuse(_) => Err("the source cannot be decoded".into()) }
    }
}
fn dst_of(w: &World, c: &Case) -> Option<Arc<Vec<u8>>> { w.file(c.m("dst")) }
fn comp(c: &Case) -> bool { c.mn("comp") == 1 }
fn hung(o: &Out) -> R { if let End::Hang(h) = &o.end { viol!("hang: an invocation does not end ({})", h) } Ok(()) }

pub fn judge(ex: &mut Ex, c: &Case) -> R {
    ex.sim.begin(c);
    match &c.prop[..] {
        "C01" => c01(ex, c), "C02" => c02(ex, c), "C03" => c03(ex, c), "C04" => c04(ex, c), "C05" => c05(ex, c), "C06" => c06(ex, c), "C07" => c07(ex, c), "C08" => c08(ex, c),
        "C09" | "C10" | "C14" => lines(ex, c), "C11" => c11(ex, c), "C12" => c12(ex, c), "C13" => c13(ex, c), "C15" => c15(ex, c), "C16" => c16(ex, c), "C17" => c17(ex, c), "C18" => c18(ex, c), "C19" => c19(ex, c), "C20" => c20(ex, c),
        p => Err(J::Harness(format!("no property {}", p))),
    }
}

fn c01(ex: &mut Ex, c: &Case) -> R {
    let src = c.content(c.m("src"));
    let o = ex.all(c)?;
    for (i, o) in o.iter().enumerate() {
        hung(o)?;
        if !o.ok() { viol!("failed: {} ended with {}", if i == 0 { "compressing" } else { "decompressing" }, o.show()) }
    }
    match ex.file(c.m("back")) { None => viol!("lost: no decompressed file"), Some(b) => if b != src { viol!("differs: decompressed file has {}", first_diff(&b, &src)) } }
    Ok(())
}

fn c02(ex: &mut Ex, c: &Case) -> R {
    let src = c.content(c.m("src"));
    let w0 = ex.sim.world();
    let srcino = w0.find(c.m("src")).unwrap_or(0);
    let Some(Step::Run(k)) = c.steps.first() else { return Err(J::Harness("no run".into())) };
    let o = ex.run(k)?;
    if !o.ended() { return Ok(()); }
    let w = ex.sim.world();
    if o.ok() && c.mn("ghost") > 0 { viol!("wrong: exit 0, but only {} of {} bytes of the source can be read", src.len(), src.len() as u64 + c.mn("ghost")) }
    if o.ok() {
        let d = dst_of(&w, c);
        let r = complete(comp(c), &src, d.as_ref().map(|x| &x[..]));
        if r.is_ok() { return Ok(()); }
        // the source had already shrunk before anything was read: then the shrunken source is the source
        for f in k.faults.iter().filter(|f| f.kind == fk::PEER_TRUNC && o.hit(fk::PEER_TRUNC)) {
            let first = o.trace.iter().position(|t| t.op == op::READ && t.ino == srcino && t.res >= 0).unwrap_or(usize::MAX);
            let new = &src[..(f.arg.max(0) as usize).min(src.len())];
            if (f.at as usize) <= first && complete(comp(c), new, d.as_ref().map(|x| &x[..])).is_ok() { return Ok(()); }
        }
        viol!("wrong: exit 0, but {}", r.unwrap_err())
    }
    if o.stderr.is_empty() && matches!(o.end, End::Exit(_)) { viol!("silent: {} without a diagnostic", o.show()) }
    Ok(())
}

fn others(before: &Snap, after: &Snap, skip: &[&str]) -> R {
    for (p, s) in before {
        if skip.contains(&&p[..]) || s.body == Body::Dir { continue; }
        match after.get(p) { None => viol!("bystander: {} is gone", p), Some(a) => if a.body != s.body { viol!("bystander: {} changed", p) } }
    }
    Ok(())
}
fn through(w: &World, p: &str) -> Option<Arc<Vec<u8>>> {
    // reads a path, following symbolic links (all links in cases are absolute or plain names in /w)
    let mut p = p.to_string();
    for _ in 0..8 { match w.find(&p).map(|i| w.ino[i as usize].clone()) { Some(Body::File(d)) => return Some(d), Some(Body::Link(t)) => p = if t.starts_with('/') { t } else { format!("{}/{}", p.rsplit_once('/').unwrap().0, t) }, _ => return None } }
    None
}
fn c03(ex: &mut Ex, c: &Case) -> R {
    let w0 = ex.sim.world(); let before = w0.snap();
    let src = through(&w0, c.m("src")).unwrap_or_default();
    let alias = c.mn("alias") == 1;
    for s in &c.steps {
        let Step::Run(k) = s else { continue };
        let o = ex.run(k)?;
        let w = ex.sim.world(); let after = w.snap();
        others(&before, &after, &[c.m("src"), c.m("dst")])?;
        if alias {
            // source and destination are one file: all of its names keep the content
            for p in [c.m("src"), c.m("dst")] { if before.contains_key(p) || p == c.m("src") { match through(&w, p) {
                None => {
                    // naming the archive itself can mean "the same without .hff": then the source may go, for a complete result
                    let elsewhere = c.mn("r") == 1 && after.keys().any(|q| !before.contains_key(q) && complete(comp(c), &src, through(&w, q).as_ref().map(|x| &x[..])).is_ok());
                    if !elsewhere { viol!("source: {} is gone after {}", p, o.show()) }
                    return Ok(());
                }
                 Some(d) => if d != src { viol!("source: {} now has {} after {}", p, first_diff(&d, &src), o.show()) } } } }
            continue;
        }
        match through(&w, c.m("src")) {
            Some(d) => if d != src { viol!("source: changed to {} after {}", first_diff(&d, &src), o.show()) },
            None => {
                if c.mn("r") == 0 { viol!("source: removed without -r, {}", o.show()) }
                if let Err(e) = complete(comp(c), &src, through(&w, c.m("dst")).as_ref().map(|x| &x[..])) { viol!("source: removed although {} ({})", e, o.show()) }
                return Ok(());
            }
        }
    }
    Ok(())
}

fn c04(ex: &mut Ex, c: &Case) -> R {
    let src = c.content(c.m("src"));
    let safe = |w: &World| -> Result<(), String> {
        if w.file(c.m("src")).map(|d| d == src) == Some(true) { return Ok(()); }
        complete(comp(c), &src, dst_of(w, c).as_ref().map(|x| &x[..])).map_err(|e| format!("the source is {} and {}", if w.find(c.m("src")).is_some() { "damaged" } else { "gone" }, e))
    };
    for s in &c.steps {
        let Step::Run(k) = s else { continue };
        let o = ex.run(k)?;
        if let Err(e) = safe(&ex.sim.world()) { viol!("kill: after {} {}", o.show(), e) }
        let n = c.mn("power");
        for i in 0..n {
            let seed = c.mn("pseed").wrapping_add(i);
            let w = ex.sim.power_state(seed);
            if let Err(e) = safe(&w) { viol!("power: after {} and a power loss (state {}) {}", o.show(), seed, e) }
        }
    }
    Ok(())
}

fn c05(ex: &mut Ex, c: &Case) -> R {
    let w0 = ex.sim.world(); let before = w0.snap();
    let src = c.content(c.m("src"));
    let Some(Step::Run(k)) = c.steps.first() else { return Err(J::Harness("no run".into())) };
    let o = ex.run(k)?;
    let w = ex.sim.world(); let after = w.snap();
    let asked = (o.stdin_left as usize) < k.stdin.len();
    let consent = c.mn("n") == 1 || (asked && matches!(k.stdin.first(), Some(b'y') | Some(b'Y')));
    let exists = before.contains_key(c.m("dst"));
    let healthy = k.faults.is_empty() && k.mem_cap == crate::case::MEM_CAP;
    if exists && !consent {
        if after != before { let p = before.keys().chain(after.keys()).find(|p| before.get(*p) != after.get(*p)).unwrap(); viol!("touched: no consent, but {} is not as it was ({})", p, o.show()) }
        // the answer is yes, nothing fails for good: an interruption alone does not make it a no
        let soft = k.mem_cap == crate::case::MEM_CAP && k.faults.iter().all(|f| matches!(f.kind, fk::EINTR | fk::STALL));
        if soft && o.ok() && matches!(k.stdin.first(), Some(b'y') | Some(b'Y')) { viol!("ignored: the answer is yes, exit 0, and nothing was replaced ({})", o.show()) }
        if healthy && o.ended() && o.stdout.is_empty() { viol!("mute: the destination exists and nothing was asked ({})", o.show()) }
        return Ok(());
    }
    others(&before, &after, &[c.m("src"), c.m("dst")])?;
    if o.ok() { if let Err(e) = complete(comp(c), &src, dst_of(&w, c).as_ref().map(|x| &x[..])) { viol!("partial: consent given and exit 0, but {}", e) } }
    else if healthy { hung(&o)?; viol!("refused: consent given on a healthy system, but {}", o.show()) }
    Ok(())
}

fn c06(ex: &mut Ex, c: &Case) -> R {
    let src = c.content(c.m("src"));
    let Some(Step::Run(k)) = c.steps.first() else { return Err(J::Harness("no run".into())) };
    let o = ex.run(k)?;
    hung(&o)?;
    match o.end { End::Exit(0) | End::Exit(1) => {} _ => viol!("crash: {}", o.show()) }
    if o.code() == Some(1) && o.stderr.is_empty() { viol!("silent: refused without a message") }
    if String::from_utf8_lossy(&o.stderr).contains("panicked at") { viol!("crash: {}", o.show()) }
    let limit = 6_000_000 + 2 * c.mn("block") + 40 * (src.len() as u64).min(c.mn("block")) + 400 * src.len() as u64;
    if o.peak > limit { viol!("memory: {} bytes of heap for a file of {} and a block of {}", o.peak, src.len(), c.mn("block")) }
    let w = ex.sim.world();
    let kept = w.file(c.m("src"));
    match codec::decode(&src) {
        Decoded::Refuse(e) => if o.ok() { viol!("accepted: exit 0 although {}", e) },
        Decoded::Letters(l, lenient) => if o.ok() {
            match dst_of(&w, c) { Some(d) if *d == l => {} Some(d) => viol!("differs: exit 0, the destination has {}", first_diff(&d, &l)), None => viol!("differs: exit 0 without a destination") }
        } else if lenient.is_none() { viol!("refused: a valid archive, {}", o.show()) },
    }
    match kept { Some(d) => { if d != src { viol!("source: the archive was modified ({})", o.show()) } } None => { if !o.ok() || c.mn("r") == 0 { viol!("source: the archive is gone ({})", o.show()) } } }
    Ok(())
}

fn c07(ex: &mut Ex, c: &Case) -> R {
    let mut first: Option<Arc<Vec<u8>>> = None;
    let mut i = 0;
    for s in &c.steps {
        let Step::Run(k) = s else { continue };
        let o = ex.run(k)?;
        hung(&o)?;
        if !o.ok() { viol!("failed: run {}: {}", i, o.show()) }
        let d = match ex.file(&k.peer_dst) { Some(d) => d, None => viol!("lost: run {} wrote no archive", i) };
        match &first { None => first = Some(d), Some(f) => if *f != d { viol!("differs: run {} wrote {} than run 0", i, first_diff(&d, f)) } }
        i += 1;
    }
    Ok(())
}

fn report(ex: &mut Ex, o: &Out) -> Result<Vec<String>, J> {
    hung(o)?;
    if !o.ok() { if o.code() == Some(3) { return Err(J::Harness(o.show())); } viol!("crash: {}", o.show()) }
    Ok(String::from_utf8_lossy(&ex.file("/w/out").unwrap_or_default()).lines().map(|s| s.to_string()).collect())
}
fn c08(ex: &mut Ex, c: &Case) -> R {
    let src = c.content(c.m("src"));
    for s in &c.steps {
        let Step::Run(k) = s else { continue };
        let o = ex.run(k)?;
        if k.lib {
            let l = report(ex, &o)?;
            if l.len() != 1 || l[0] != "ok" { viol!("library: {} reports {:?}", k.args[0], l) }
            if k.args[0] == "decode" { match ex.file("/w/dec") { Some(d) if d == src => {} d => viol!("library: decodes the archive to {}", first_diff(&d.unwrap_or_default(), &src)) } }
        } else {
            hung(&o)?;
            if !o.ok() { viol!("failed: {} {}", k.args.join(" "), o.show()) }
            if c.profile == "library-to-huff" { match ex.file(c.m("dst")) { Some(d) if d == src => {} d => viol!("interop: huff -d decodes the library's archive to {}", first_diff(&d.unwrap_or_default(), &src)) } }
            else { match ex.file(c.m("dst")) { None => viol!("lost: no archive"), Some(d) => if let Err(e) = codec::well_formed(&d, &src) { viol!("format: {}", e) } } }
        }
    }
    Ok(())
}

/// library workloads that report one line per call
fn lines(ex: &mut Ex, c: &Case) -> R {
    for s in &c.steps {
        let Step::Run(k) = s else { continue };
        let o = ex.run(k)?;
        let refused = o.hit(fk::SPAWNFAIL) || o.hit(fk::ALLOCFAIL);
        if refused && matches!(o.end, End::Exit(101)) && c.prop != "C09" { continue; }
        for l in report(ex, &o)? { if l == "ok" || l.starts_with("ok ") || (l.starts_with("PANIC") && refused) { continue; } viol!("{}: {}", l.split(' ').next().unwrap_or("?").to_lowercase(), l) }
    }
    Ok(())
}

fn c11(ex: &mut Ex, c: &Case) -> R {
    let d = c.content("/w/in");
    let mut cnt = std::collections::HashMap::new();
    let w = (c.mn("w") as usize).clamp(1, 3);
    for x in d.chunks_exact(w) { *cnt.entry(x.to_vec()).or_insert(0u64) += 1 }
    let fib = c.mn("fib");
    let best = if fib > 0 { 0 } else if cnt.is_empty() { 0 } else { codec::optimal(&cnt.values().copied().collect::<Vec<_>>()) };
    for s in &c.steps {
        let Step::Run(k) = s else { continue };
        let o = ex.run(k)?;
        for l in report(ex, &o)? {
            if let Some(b) = l.strip_prefix("ok bits=").filter(|_| fib == 0) { if b.parse() != Ok(best) { viol!("bits: {} code bits, the minimum is {}", b, best) } }
            else if l != "ok" && !(fib > 0 && l.starts_with("ok ")) { viol!("{}: {}", l.split(' ').next().unwrap_or("?").to_lowercase(), l) }
        }
    }
    Ok(())
}

fn c12(ex: &mut Ex, c: &Case) -> R {
    let data = c.content("/w/in");
    let mut want: Vec<(u64, u64)> = if c.profile == "bytes" { codec::counts(&data).iter().enumerate().filter(|x| *x.1 > 0).map(|x| (x.0 as u64, *x.1)).collect() }
        else { String::from_utf8_lossy(&data).lines().filter_map(|l| { let (a, b) = l.split_once(' ')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect() };
    want.sort();
    if want.windows(2).any(|w| w[0].0 == w[1].0) || want.is_empty() { return Ok(()); } // only after shrinking
    let best = codec::optimal(&want.iter().map(|x| x.1).collect::<Vec<_>>());
    for s in &c.steps {
        let Step::Run(k) = s else { continue };
        let o = ex.run(k)?;
        let ls = report(ex, &o)?;
        let mut got = vec![]; let mut codes = std::collections::BTreeMap::new(); let mut cost = 0u128;
        for l in ls.iter().filter(|l| l.starts_with("leaf ")) {
            let w: Vec<&str> = l.split(' ').collect();
            let (Ok(n), Ok(wt)) = (w[1].parse::<u64>(), w[2].parse::<u64>()) else { viol!("leaf: {}", l) };
            let path = if w[4] == "." { "" } else { w[4] };
            let code = if path.is_empty() { "0" } else { path };
            if w[3] != code { viol!("code: letter {} has code {} at path {}", n, w[3], w[4]) }
            got.push((n, wt)); codes.insert(n, code.to_string()); cost += wt as u128 * code.len() as u128;
        }
        got.sort();
        if got != want { viol!("leaves: the tree has {} leaves for {} letters, or other letters or weights", got.len(), want.len()) }
        if cost != best { viol!("optimum: weighted length {} instead of {}", cost, best) }
        let mut n = std::collections::BTreeMap::new();
        for l in &ls {
            if l.starts_with("leaf ") { continue; }
            let w: Vec<&str> = l.split(' ').collect();
            if !w[0].starts_with("code-") || w.len() != 3 { viol!("{}: {}", w[0].to_lowercase(), l) }
            let Ok(x) = w[1].parse::<u64>() else { viol!("map: {}", l) };
            if codes.get(&x).map(|s| &s[..]) != Some(w[2]) { viol!("map: {} says {} for letter {}, its path is {:?}", w[0], w[2], x, codes.get(&x)) }
            *n.entry(w[0].to_string()).or_insert(0usize) += 1;
        }
        for (h, k) in n { if k != want.len() { viol!("map: {} has {} codes for {} letters", h, k, want.len()) } }
    }
    Ok(())
}

fn c13(ex: &mut Ex, c: &Case) -> R {
    for s in &c.steps {
        let Step::Run(k) = s else { ex.sim.step(s); continue };
        let o = ex.run(k)?;
        for l in report(ex, &o)? { if l == "ok" || l == "err" { continue; } viol!("{}: {}", l.split(' ').next().unwrap_or("?").to_lowercase(), l) }
    }
    Ok(())
}

fn c15(ex: &mut Ex, c: &Case) -> R {
    let src = c.content(c.m("src"));
    // as if nothing had ever failed: the last command alone on the initial disk
    let Some(Step::Run(last)) = c.steps.last() else { return Err(J::Harness("no run".into())) };
    let o = ex.run(last)?;
    hung(&o)?;
    if !o.ok() { viol!("failed: without any failure before, {}", o.show()) }
    let want = dst_of(&ex.sim.world(), c);
    ex.sim.begin(c);
    for s in &c.steps[..c.steps.len() - 1] { match s { Step::Run(k) => { ex.run(k)?; } s => { ex.sim.step(s); } } }
    // the fault is over: disk space is back
    let w = ex.sim.world();
    if w.file(c.m("src")).map(|d| d == src) != Some(true) {
        if c.mn("r") == 1 && w.find(c.m("src")).is_none() { return Ok(()); }
        viol!("source: not intact before the last attempt")
    }
    ex.sim.load(&w);
    let o = ex.run(last)?;
    hung(&o)?;
    if !o.ok() { viol!("stuck: after the failures the command ends with {}", o.show()) }
    let got = dst_of(&ex.sim.world(), c);
    if got != want { viol!("differs: after the failures the destination has {} than without", first_diff(&got.unwrap_or_default(), &want.unwrap_or_default())) }
    Ok(())
}

fn c16(ex: &mut Ex, c: &Case) -> R {
    for s in &c.steps {
        let Step::Run(k) = s else { ex.sim.step(s); continue };
        let o = ex.run(k)?;
        if let End::Hang(h) = &o.end { viol!("hang: {} after {} operations and {} steps (allowed {} and {})", h, o.ops, o.steps, k.max_ops, k.max_steps) }
    }
    Ok(())
}

fn c17(ex: &mut Ex, c: &Case) -> R {
    for s in &c.steps {
        let Step::Run(k) = s else { ex.sim.step(s); continue };
        let o = ex.run(k)?;
        hung(&o)?;
        if !o.ok() { viol!("failed: {}", o.show()) }
        let limit = c.mn("limit");
        if std::env::var("SIM_PEAK").is_ok() { eprintln!("peak {} limit {} block {} steps {} ops {} {}", o.peak, limit, c.mn("block"), o.steps, o.ops, c.profile) }
        if o.peak > limit { viol!("memory: {} bytes of heap with a block size of {} (limit {})", o.peak, c.mn("block"), limit) }
    }
    Ok(())
}

fn c18(ex: &mut Ex, c: &Case) -> R {
    let src = c.content(c.m("src"));
    let w0 = ex.sim.world(); let si = w0.find(c.m("src")).unwrap_or(0);
    let dst0 = dst_of(&w0, c);
    let Some(Step::Run(k)) = c.steps.first() else { return Err(J::Harness("no run".into())) };
    let o = ex.run(k)?;
    if !o.ended() { return Ok(()); }
    let w = ex.sim.world();
    let there = w.file(c.m("src"));
    if let Some(d) = &there { if *d != src { viol!("source: damaged ({})", o.show()) } }
    let done = complete(comp(c), &src, dst_of(&w, c).as_ref().map(|x| &x[..]));
    let declined = dst0.is_some() && c.mn("n") == 0 && !matches!(k.stdin.first(), Some(b'y') | Some(b'Y'));
    if there.is_none() { if let Err(e) = &done { viol!("lost: the source was removed although {} ({})", e, o.show()) } }
    if declined { if there.is_none() { viol!("declined: the source was removed all the same") } return Ok(()); }
    if o.ok() { if there.is_some() { viol!("kept: exit 0, but the source is still there") } }
    let un = o.trace.iter().position(|t| (t.op == op::UNLINK || t.op == op::RENAME) && t.ino == si && t.res >= 0);
    let un_failed = o.trace.iter().any(|t| t.op == op::UNLINK && t.ino == si && t.res < 0);
    if un_failed && un.is_none() { if o.ok() { viol!("swallowed: removing the source failed, but exit 0") } if let Err(e) = &done { viol!("early: removal was tried although {}", e) } }
    if let (Some(u), Some(di)) = (un, w.find(c.m("dst"))) {
        if let Some(t) = o.trace[u..].iter().find(|t| (t.op == op::WRITE || t.op == op::TRUNC) && t.ino == di && t.res > 0) { viol!("order: the destination was written ({} bytes at {}) after the source had been removed", t.len, t.off) }
    }
    Ok(())
}

/// every process ends as it does alone, and the disk has all their effects and no other
fn c19(ex: &mut Ex, c: &Case) -> R {
    let w0 = ex.sim.world(); let before = w0.snap();
    let Some(Step::Par(ks, order)) = c.steps.first() else { return Err(J::Harness("no processes".into())) };
    let mut want = before.clone(); let mut ends = vec![]; let mut all_ok = true;
    for k in ks {
        let mut alone = k.clone(); alone.faults.retain(|f| f.kind != fk::PAUSE);
        ex.sim.begin(c);
        let o = ex.run(&alone)?;
        hung(&o)?;
        let after = ex.sim.world().snap();
        for p in before.keys().chain(after.keys()) { if before.get(p).map(|s| &s.body) != after.get(p).map(|s| &s.body) { match after.get(p) { Some(s) => { want.insert(p.clone(), s.clone()); } None => { want.remove(p); } } } }
        all_ok &= o.ok();
        ends.push(o);
    }
    ex.sim.begin(c);
    let os = ex.par(ks, order)?;
    let got = ex.sim.world().snap();
    for ((k, a), o) in ks.iter().zip(&ends).zip(&os) {
        hung(o)?;
        let same = match (&a.end, &o.end) { (End::Exit(x), End::Exit(y)) => x == y, (End::Crash, End::Crash) => true, (End::Signal(x), End::Signal(y)) => x == y, _ => false };
        if !same { viol!("ending: {} ends with {} next to others and with {} alone", k.args.join(" "), o.show(), a.show()) }
    }
    let mine: Vec<&str> = ks.iter().flat_map(|k| [&k.peer_src[..], &k.peer_dst[..]]).collect();
    for p in before.keys().chain(want.keys()).chain(got.keys()) {
        let (g, w) = (got.get(p).map(|s| &s.body), want.get(p).map(|s| &s.body));
        if g == w || !(all_ok || before.contains_key(p) || mine.contains(&&p[..])) { continue; }
        match (g, w) { (Some(Body::File(g)), Some(Body::File(w))) => viol!("content: {} has {} than when its process runs alone", p, first_diff(g, w)), (None, _) => viol!("missing: {}", p), (_, None) => viol!("surplus: {}", p), _ => viol!("kind: {}", p) }
    }
    Ok(())
}

/// a history of commands against the model of the command line
fn c20(ex: &mut Ex, c: &Case) -> R {
    for s in &c.steps {
        let Step::Run(k) = s else { ex.sim.step(s); continue };
        let w0 = ex.sim.world(); let before = w0.snap();
        let ask = model::ask(&k.args, &c.cwd);
        let o = ex.run(k)?;
        if k.faults.iter().any(|f| f.kind == fk::DISKFULL) { let w = ex.sim.world(); ex.sim.load(&w); } // disk space is back
        let Some(ask) = ask else { continue };
        let m = match ask {
            Ask::Job(m) => m,
            other => {
                let after = ex.sim.world().snap();
                if let Some(p) = before.keys().chain(after.keys()).find(|p| before.get(*p).map(|s| &s.body) != after.get(*p).map(|s| &s.body)) { viol!("tree: huff {} touches {}", k.args.join(" "), p) }
                if !k.faults.is_empty() { continue; }
                match other { Ask::Usage(why) => if o.ok() { viol!("status: huff {} exits 0 although {}", k.args.join(" "), why) } _ => if !o.ok() || o.stdout.is_empty() { viol!("status: huff {} ends with {}", k.args.join(" "), o.show()) } }
                continue;
            }
        };
        let fate = model::fate(&m, &before);
        let after = ex.sim.world().snap();
        let healthy = k.faults.iter().all(|f| matches!(f.kind, fk::STALL | fk::CLOCKJUMP | fk::EINTR | fk::SHORT)) && k.mem_cap == crate::case::MEM_CAP;
        let body = |w: &Snap, p: &str| w.get(p).map(|s| s.body.clone());
        // other names of an existing destination
        let real = model::real;
        let di = real(&before, &m.dst);
        if di.is_none() && before.contains_key(&m.dst) { continue; } // a link that leads nowhere
        let alias: Vec<&str> = before.keys().filter(|p| di.is_some() && **p != m.dst && **p != m.src && real(&before, p) == di).map(|p| &p[..]).collect();
        let cmd = k.args.join(" ");
        let untouched = |skip: &[&str]| -> R { for p in before.keys().chain(after.keys()) { if skip.contains(&&p[..]) || (skip.contains(&&m.dst[..]) && alias.contains(&&p[..])) || (!healthy && !o.ok() && !before.contains_key(p)) { continue; } let (b, a) = (body(&before, p), body(&after, p)); if a != b { viol!("tree: huff {} {} {} ({})", cmd, match (&b, &a) { (None, _) => "creates", (_, None) => "removes", _ => "changes" }, p, o.show()) } } Ok(()) };
        let exists = before.contains_key(&m.dst);
        let yes = m.n || matches!(k.stdin.first(), Some(b'y') | Some(b'Y'));
        if healthy { hung(&o)?; }
        if let Fate::Refuse(why) = fate {
            if healthy || !yes { untouched(&[])? } else { untouched(&[&m.dst])? } // a failing look at the files may hide the reason
            if o.ok() && (!exists || yes) { viol!("status: huff {} exits 0 although {}", cmd, why) }
            continue;
        }
        if exists && !yes { untouched(&[])?; continue; }
        let src = through_snap(&before, &m.src).unwrap_or_default();
        if !healthy && !o.ok() {
            untouched(&[&m.src, &m.dst])?;
            match body(&after, &m.src) { b if b == body(&before, &m.src) => {} None if m.r && complete(m.comp, &src, through_snap(&after, &m.dst).as_ref().map(|x| &x[..])).is_ok() => {} _ => viol!("source: {} is not as it was after huff {} ({})", m.src, cmd, o.show()) }
            continue;
        }
        if fate == Fate::Bad(true) || (fate == Fate::Bad(false) && !o.ok()) {
            untouched(&[&m.dst])?;
            if o.ok() { viol!("status: huff {} exits 0 for an archive that cannot be decoded", cmd) }
            continue;
        }
        if !o.ok() { viol!("status: huff {} ends with {}", cmd, o.show()) }
        untouched(&[&m.src, &m.dst])?;
        if let Err(e) = complete(m.comp, &src, through_snap(&after, &m.dst).as_ref().map(|x| &x[..])) { viol!("result: huff {} exits 0, but {}", cmd, e) }
        match (m.r, body(&after, &m.src)) { (true, Some(_)) => viol!("kept: huff {} leaves {}", cmd, m.src), (false, b) if b != body(&before, &m.src) => viol!("source: huff {} changes or removes {}", cmd, m.src), _ => {} }
        if m.t && o.stdout.iter().all(|b| b.is_ascii_whitespace()) { viol!("time: huff {} does not print the time", cmd) }
    }
    Ok(())
}
fn through_snap(w: &Snap, p: &str) -> Option<Arc<Vec<u8>>> { model::file(w, p) }
