//! Counting what was covered, and the evidence file.
use crate::case::{Case, Content, Init, Step};
use crate::shm::{self, NFK};
use crate::sim::Stats;
use crate::Verdict;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

#[derive(Default)]
pub struct Agg {
    pub cases: u64, pub groups: u64, pub rechecked: u64, pub nondet: Vec<String>, pub violations: u64,
    pub nontrivial: HashSet<u64>, pub profiles: BTreeMap<String, u64>, pub planned: BTreeMap<String, u64>, pub effective: u64,
    pub samples: Vec<(u64, usize, String)>, pub stats: Stats, pub sizes: BTreeMap<String, u64>,
}
fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }

impl Agg {
    pub fn case(&mut self, c: &Case, v: &Verdict, fired: &[u64; NFK], f0: &[u64; NFK], i: u64, sub: usize) {
        self.cases += 1;
        *self.profiles.entry(c.profile.clone()).or_insert(0) += 1;
        for k in c.runs() { for f in &k.faults { *self.planned.entry(shm::FKS[f.kind as usize].into()).or_insert(0) += 1 } }
        let disturbed = (1..NFK).any(|k| fired[k] > f0[k]);
        if disturbed { self.effective += 1 }
        // non-trivial: at least one disturbance took effect, or the input is more than a handful of bytes
        let big = c.init.iter().map(|i| match i { Init::File(_, Content::Raw(b)) => b.len(), Init::File(_, Content::Gen { len, .. }) => *len, _ => 0 }).sum::<usize>();
        *self.sizes.entry(match big { 0..=15 => "under 16", 16..=255 => "16 to 255", 256..=4095 => "256 to 4095", 4096..=65535 => "4096 to 65535", _ => "65536 and more" }.into()).or_insert(0) += 1;
        if disturbed || big >= 16 { self.nontrivial.insert(v.hash); }
        if self.samples.len() < 3 && (disturbed || i % 7 == 3) { self.samples.push((i, sub, sample(c, v))); }
    }
    pub fn absorb(&mut self, s: &mut Stats) { std::mem::swap(&mut self.stats, s) }
    pub fn merge(&mut self, o: Agg) {
        self.cases += o.cases; self.groups += o.groups; self.rechecked += o.rechecked; self.nondet.extend(o.nondet); self.nontrivial.extend(o.nontrivial); self.effective += o.effective;
        for (k, v) in o.profiles { *self.profiles.entry(k).or_insert(0) += v } for (k, v) in o.planned { *self.planned.entry(k).or_insert(0) += v } for (k, v) in o.sizes { *self.sizes.entry(k).or_insert(0) += v }
        self.samples.extend(o.samples); self.samples.sort(); self.samples.truncate(4);
        let (a, b) = (&mut self.stats, o.stats);
        a.runs += b.runs; a.ops += b.ops; a.steps += b.steps; a.sim_ns += b.sim_ns; a.spawns += b.spawns; a.switches += b.switches; a.mixed ^= b.mixed;
        for i in 0..NFK { a.fired[i] += b.fired[i] }
        if a.opcount.is_empty() { a.opcount = b.opcount } else { for i in 0..b.opcount.len() { a.opcount[i] += b.opcount[i] } }
        for (k, v) in b.ends { *a.ends.entry(k).or_insert(0) += v }
        a.traces.extend(b.traces); a.scheds.extend(b.scheds); a.crash_points.extend(b.crash_points); a.power_states.extend(b.power_states); a.unsupported.extend(b.unsupported);
        if a.cov_cli.is_empty() { a.cov_cli = b.cov_cli; a.cov_lib = b.cov_lib } else { for i in 0..b.cov_cli.len() { a.cov_cli[i] |= b.cov_cli[i]; a.cov_lib[i] |= b.cov_lib[i] } }
        a.ncov_cli = a.ncov_cli.max(b.ncov_cli); a.ncov_lib = a.ncov_lib.max(b.ncov_lib);
    }
}
fn sample(c: &Case, v: &Verdict) -> String {
    let mut s = format!("profile {}; files ", c.profile);
    for i in &c.init { match i { Init::File(p, d) => { let n = match d { Content::Raw(b) => b.len(), Content::Gen { len, .. } => *len }; let _ = write!(s, "{} ({} bytes) ", p, n); } Init::Link(p, t) | Init::Hard(p, t) => { let _ = write!(s, "{} -> {} ", p, t); } _ => {} } }
    for st in &c.steps { match st {
        Step::Power(x) => { let _ = write!(s, "; power loss {}", x); }
        Step::Run(_) | Step::Par(..) => for k in st.cmds() {
            let _ = write!(s, "; {} {:?}", if matches!(st, Step::Par(..)) { "at once" } else { "run" }, k.args.join(" "));
            if k.noisy() { let _ = write!(s, " noise short-read {} short-write {} eintr {} latency {} per mille", k.psr, k.psw, k.peintr, k.plat); }
            if k.mode == 0 { let _ = write!(s, " seeded schedule, preemption about every {} points", k.mean); }
            for f in &k.faults { let _ = write!(s, " fault {}@{} {} arg {}", shm::FKS[f.kind as usize], ["op", "spawn", "alloc"][f.atkind as usize], f.at, f.arg); }
        }
        _ => s.push_str("; disk changed"),
    } }
    let _ = write!(s, " => {}", v.notes.join(" / "));
    s.chars().take(1200).collect()
}

pub fn write(a: &Agg, prop: &str, tier: &str, seed: u64, verif: &str, from: u64, n: u64, wall: f64, unconfirmed: u64, known: &BTreeMap<String, u64>, harness: &[String], threads: usize) {
    let st = &a.stats;
    let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    let fired: BTreeMap<String, u64> = (1..shm::FKS.len()).filter(|k| st.fired[*k] > 0).map(|k| (shm::FKS[k].to_string(), st.fired[k])).collect();
    let ops: BTreeMap<String, u64> = (1..shm::OPS.len()).filter(|k| st.opcount.get(*k).copied().unwrap_or(0) > 0).map(|k| (shm::OPS[k].to_string(), st.opcount[k])).collect();
    let cov = |v: &Vec<u8>| v.iter().filter(|x| **x > 0).count();
    let h = wall.max(0.001) / 3600.0;
    let lib = st.ncov_lib > 0;
    let mut o = String::from("{\n");
    let _ = write!(o, " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n", esc(prop), esc(tier), seed);
    let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", a.cases, a.nontrivial.len());
    let _ = write!(o, "  \"rule\": {},\n", esc("Case i comes from a generator seeded with (seed, property, i): contents, command line, prior disk, scheduling policy, disturbances; most fault cases are derived from a fault-free run of the same job so that faults land on operations that happen. Distinct: different execution hash (every operation with its result, every scheduling decision, the disk after every run). Non-trivial: a fault or disturbance took effect in it, or its files hold at least 16 bytes."));
    let _ = write!(o, "  \"samples\": [{}],\n", a.samples.iter().map(|s| format!("\n   {}", esc(&s.2))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "  \"case_indices\": [{}, {}], \"groups_done\": {},\n", from, from + n, a.groups);
    let _ = write!(o, "  \"simulated_runs\": {}, \"runs_per_hour\": {:.0}, \"seeds_per_hour\": {:.0}, \"workers\": {},\n", st.runs, st.runs as f64 / h, a.cases as f64 / h, threads);
    let _ = write!(o, "  \"simulated_seconds\": {:.3}, \"system_calls\": {}, \"computation_steps\": {}, \"threads_started\": {}, \"context_switches\": {},\n", st.sim_ns as f64 / 1e9, st.ops, st.steps, st.spawns, st.switches);
    let _ = write!(o, "  \"cases_with_an_effective_fault\": {},\n  \"faults_fired\": {},\n  \"faults_planned\": {},\n  \"operations\": {},\n  \"run_endings\": {},\n  \"profiles\": {},\n  \"case_file_bytes\": {},\n", a.effective, map(&fired), map(&a.planned), map(&ops), map(&st.ends), map(&a.profiles), map(&a.sizes));
    let _ = write!(o, "  \"distinct_executions\": {}, \"distinct_preempted_interleavings\": {}, \"distinct_crash_points\": {}, \"distinct_power_loss_states\": {},\n", st.traces.len(), st.scheds.len(), st.crash_points.len(), st.power_states.len());
    let _ = write!(o, "  \"code_edges_reached_huff\": {}, \"code_edges_huff\": {}, \"code_edges_reached_library_workload\": {}, \"code_edges_library_workload\": {},\n", cov(&st.cov_cli), st.ncov_cli, if lib { cov(&st.cov_lib) } else { 0 }, st.ncov_lib);
    let _ = write!(o, "  \"determinism\": {{\"cases_run_twice\": {}, \"differing\": {}, \"unconfirmed_violations\": {}}},\n", a.rechecked, a.nondet.len(), unconfirmed);
    let _ = write!(o, "  \"real_components\": {},\n  \"stub_components\": {},\n", esc("huff (all of it: argument parsing, I/O paths, codec), huff_coding, the Rust standard library, clap, bitvec; for library checks libwork, a caller of huff_coding's public interface"), esc("kernel file system, standard streams, clocks, random bytes, CPU count, thread scheduling, futex waits, memory limits (libsim.so in place of libc's entry points)"));
    let _ = write!(o, "  \"known_findings_seen\": {}, \"unsupported_system_calls\": [{}], \"harness_errors\": {}\n }},\n", map(known), st.unsupported.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "), harness.len());
    let _ = write!(o, " \"assumptions\": [{}],\n", ["sequentially consistent interleavings at the granularity of compiled loads, stores, branches and calls of the crates under test (no weak-memory reordering)", "a file system that keeps the order of directory changes and on which fsync of a file makes its data and every earlier directory change durable", "seeded search, not exhaustive"].iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, " \"wall_s\": {:.2}, \"violations\": {}\n}}\n", wall, a.violations);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", verif, prop), o) { eprintln!("evidence: {}", e) }
}
