//! Workload over the huff_coding library, run under libsim: it reads what to do from its arguments and (simulated)
//! files, and reports raw observations to a (simulated) file. The driver judges them.
use huff_coding::prelude::*;
use huff_coding::bitvec::prelude::{BitVec, Msb0};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc};
use std::thread;

struct Args(BTreeMap<String, String>);
impl Args {
    fn s(&self, k: &str) -> &str { self.0.get(k).map(|s| s.as_str()).unwrap_or("") }
    fn n(&self, k: &str) -> usize { self.s(k).parse().unwrap_or(0) }
    fn list(&self, k: &str) -> Vec<usize> { self.s(k).split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect() }
    fn file(&self, k: &str) -> Vec<u8> { std::fs::read(self.s(k)).unwrap_or_else(|e| { eprintln!("libwork: {}: {}", self.s(k), e); std::process::exit(3) }) }
}

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
fn guarded<F: FnOnce() -> String>(f: F) -> String {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(s) => s, Err(e) => format!("PANIC {}", msg(e).replace('\n', " ")) }
}

/* ---- letters: an injective map from small numbers to each letter type */
trait Let: HuffLetter + Send + Sync + 'static { fn mk(i: u64, wide: bool) -> Self; fn show(&self) -> String; }
macro_rules! ints { ($($t:ty),*) => { $(impl Let for $t {
    fn mk(i: u64, wide: bool) -> Self { if wide { (i as $t).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835u128 as $t | 1).wrapping_add(77) } else { i as $t } }
    fn show(&self) -> String { format!("{}", self) }
})* } }
ints!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
impl Let for char { fn mk(i: u64, wide: bool) -> Self { char::from_u32(if wide { 0x10000 + i as u32 } else if i < 0xD800 { i as u32 } else { 0x10000 + i as u32 }).unwrap() } fn show(&self) -> String { format!("{}", *self as u32) } }
impl Let for String { fn mk(i: u64, wide: bool) -> Self { if wide { format!("letter number {} of the alphabet", i) } else if i == 0 { String::new() } else { i.to_string() } } fn show(&self) -> String { self.replace(' ', "_") } }
impl Let for &'static str { fn mk(i: u64, wide: bool) -> Self { Box::leak(String::mk(i, wide).into_boxed_str()) } fn show(&self) -> String { self.replace(' ', "_") } }
/// a caller's own letter type: only some byte patterns are letters
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Odd(u8);
impl HuffLetter for Odd {}
impl HuffLetterAsBytes for Odd {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> { if b.len() == 1 && b[0] % 2 == 1 { Ok(Odd(b[0])) } else { Err("not a letter".into()) } }
    fn as_be_bytes(&self) -> Box<[u8]> { Box::new([self.0]) }
}
/// and one of three bytes
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Rgb([u8; 3]);
impl HuffLetter for Rgb {}
impl HuffLetterAsBytes for Rgb {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> { if b.len() == 3 { Ok(Rgb([b[0], b[1], b[2]])) } else { Err("not a letter".into()) } }
    fn as_be_bytes(&self) -> Box<[u8]> { Box::new(self.0) }
}
impl Let for Rgb { fn mk(i: u64, wide: bool) -> Self { Rgb([if wide { (i as u8).wrapping_mul(29) } else { 0 }, (i >> 8) as u8, i as u8]) } fn show(&self) -> String { format!("{:?}", self.0).replace(' ', "") } }
impl Let for Odd { fn mk(i: u64, _: bool) -> Self { Odd((i as u8).wrapping_mul(2).wrapping_add(1)) } fn show(&self) -> String { self.0.to_string() } }

fn letters<L: Let>(data: &[u8], a: &Args) -> Vec<L> {
    let wide = a.n("wide") == 1;
    if a.n("w") == 3 { data.chunks_exact(3).map(|c| L::mk((c[0] as u64) << 16 | (c[1] as u64) << 8 | c[2] as u64, wide)).collect() }
    else if a.n("w") == 2 { data.chunks_exact(2).map(|c| L::mk(c[0] as u64 * 256 + c[1] as u64, wide)).collect() }
    else { data.iter().map(|b| L::mk(*b as u64, wide)).collect() }
}
fn bits(b: &BitVec<Msb0, u8>) -> String { b.iter().map(|x| if *x { '1' } else { '0' }).collect() }

/* ---- hashers a caller may bring */
#[derive(Default, Clone)] struct ConstH; impl Hasher for ConstH { fn finish(&self) -> u64 { 7 } fn write(&mut self, _: &[u8]) {} }
#[derive(Default, Clone)] struct SumH(u64); impl Hasher for SumH { fn finish(&self) -> u64 { self.0 & 3 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_add(*x as u64) } } }
#[derive(Default, Clone)] struct MulH(u64); impl Hasher for MulH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0.wrapping_add(*x as u64 + 1)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) } } }

/* ---- a weights collection with an order of its own */
#[derive(Clone, PartialEq, Eq)]
struct VecW<L: Let>(Vec<(L, usize)>);
impl<L: Let> IntoIterator for VecW<L> { type Item = (L, usize); type IntoIter = std::vec::IntoIter<(L, usize)>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<L: Let> Weights<L> for VecW<L> {
    fn get(&self, l: &L) -> Option<&usize> { self.0.iter().find(|x| x.0 == *l).map(|x| &x.1) }
    fn get_mut(&mut self, l: &L) -> Option<&mut usize> { self.0.iter_mut().find(|x| x.0 == *l).map(|x| &mut x.1) }
    fn len(&self) -> usize { self.0.len() }
    fn is_empty(&self) -> bool { self.0.is_empty() }
}

/* ---- byte counting */
fn naive(d: &[u8]) -> [usize; 256] { let mut c = [0; 256]; for b in d { c[*b as usize] += 1 } c }
fn check_counts(w: &ByteWeights, c: &[usize; 256]) -> Result<(), String> {
    let want: Vec<(u8, usize)> = (0..256).filter(|i| c[*i] > 0).map(|i| (i as u8, c[i])).collect();
    for i in 0..256usize {
        let g = w.get(&(i as u8)).copied();
        let e = if c[i] > 0 { Some(c[i]) } else { None };
        if g != e { return Err(format!("byte {} counted {:?} instead of {:?}", i, g, e)); }
    }
    if w.len() != want.len() { return Err(format!("len {} instead of {}", w.len(), want.len())); }
    if w.is_empty() != want.is_empty() { return Err("is_empty wrong".into()); }
    for how in 0..3 {
        let mut got: Vec<(u8, usize)> = Vec::new();
        let mut after = 0;
        macro_rules! pull { ($it:expr) => {{ let mut it = $it; while let Some(x) = it.next() { got.push(x); if got.len() > 600 { break } } for _ in 0..3 { if it.next().is_some() { after += 1 } } }} }
        match how { 0 => pull!(w.iter()), 1 => pull!(w.into_iter()), _ => pull!((*w).into_iter()) }
        got.sort();
        if got != want { return Err(format!("iteration {} yields {} entries instead of {} (first difference {:?})", how, got.len(), want.len(), got.iter().find(|x| !want.contains(x)).or(want.iter().find(|x| !got.contains(x))).or(got.first()))); }
        if after > 0 { return Err(format!("iteration {} goes on after its end", how)); }
    }
    // the same through the adaptors that iterators bring along
    macro_rules! adapt { ($it:expr, $how:expr) => {{
        let n = want.len();
        if $it.count() != n { return Err(format!("count of iteration {}", $how)); }
        if $it.last().map(|x| x.0 as usize) != $it.map(|x| x.0 as usize).reduce(|_, b| b) { return Err(format!("last of iteration {}", $how)); }
        let all: Vec<(u8, usize)> = $it.collect();
        for k in [0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, 255, 256, usize::MAX] {
            if $it.nth(k) != all.get(k).copied() { return Err(format!("nth({}) of iteration {}", k, $how)); }
            if $it.skip(k).collect::<Vec<_>>() != all[k.min(n)..] { return Err(format!("skip({}) of iteration {}", k, $how)); }
            let mut it = $it; let mut seen = 0; while seen < k.min(n) { it.next(); seen += 1 }
            let (lo, hi) = it.size_hint(); let left = n - seen; if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("size_hint of iteration {}", $how)); }
            if it.fold(0, |a, x| a + x.1) != all[seen..].iter().map(|x| x.1).sum::<usize>() { return Err(format!("fold of iteration {}", $how)); }
        }
        if $it.step_by(2).collect::<Vec<_>>() != all.iter().copied().step_by(2).collect::<Vec<_>>() { return Err(format!("step_by of iteration {}", $how)); }
    }} }
    adapt!(w.iter(), 0); adapt!((*w).into_iter(), 2);
    Ok(())
}
fn res(r: Result<(), String>) -> String { match r { Ok(()) => "ok".into(), Err(e) => format!("BAD {}", e) } }

fn prog_count(a: &Args) -> Vec<String> {
    let data = Arc::new(a.file("file"));
    let ns = a.list("n");
    let offs = a.list("off");
    let one = |data: &[u8], n: usize, off: usize| guarded(|| {
        let d = &data[off.min(data.len())..];
        let w = ByteWeights::threaded_from_bytes(d, n);
        let c = naive(d);
        res(check_counts(&w, &c).and_then(|_| { let f = ByteWeights::from_bytes(d); check_counts(&f, &c).map_err(|e| format!("sequential: {}", e))?; if w == f && f == w { Ok(()) } else { Err("not equal to the sequential count".into()) } }))
    });
    let off = |i: usize| offs.get(i).copied().unwrap_or(0);
    if a.n("conc") == 0 { return ns.iter().enumerate().map(|(i, n)| one(&data, *n, off(i))).collect(); }
    let hs: Vec<_> = ns.iter().enumerate().map(|(i, n)| { let (d, n, o) = (data.clone(), *n, off(i)); thread::spawn(move || one(&d, n, o)) }).collect();
    hs.into_iter().map(|h| h.join().unwrap_or_else(|e| format!("PANIC {}", msg(e)))).collect()
}

/// parts counted by workers, merged in order of arrival, checked after every merge
fn prog_merge(a: &Args) -> Vec<String> {
    let data = Arc::new(a.file("file"));
    let mut cuts = a.list("cuts"); for c in cuts.iter_mut() { *c = (*c).min(data.len()) } cuts.sort(); cuts.insert(0, 0); cuts.push(data.len());
    let how = a.list("how"); let merge = a.list("merge");
    let parts: Vec<(usize, usize)> = cuts.windows(2).map(|w| (w[0], w[1])).collect();
    let (tx, rx) = mpsc::channel::<(Vec<(usize, usize)>, ByteWeights)>();
    let mut hs = vec![];
    for (i, p) in parts.iter().enumerate() {
        let (d, p, h, tx) = (data.clone(), *p, how.get(i % how.len().max(1)).copied().unwrap_or(0), tx.clone());
        hs.push(thread::spawn(move || {
            let s = &d[p.0..p.1];
            let w = match h { 0 => ByteWeights::from_bytes(s), n => ByteWeights::threaded_from_bytes(s, n) };
            tx.send((vec![p], w)).unwrap();
        }));
    }
    drop(tx);
    let mut pool: Vec<(Vec<(usize, usize)>, ByteWeights)> = vec![];
    let mut out = vec![];
    let count = |ps: &[(usize, usize)]| { let mut c = [0usize; 256]; for p in ps { let n = naive(&data[p.0..p.1]); for i in 0..256 { c[i] += n[i] } } c };
    let mut k = 0;
    let mut step = |pool: &mut Vec<(Vec<(usize, usize)>, ByteWeights)>, out: &mut Vec<String>| {
        let m = merge.get(k % merge.len().max(1)).copied().unwrap_or(0); k += 1;
        let i = (m / 8) % pool.len(); let (mut pa, wa) = pool.swap_remove(i);
        let j = (m / 64) % pool.len(); let (pb, wb) = pool.swap_remove(j);
        let r = guarded(|| {
            let w = match m % 5 { 0 => wa + wb, 1 => { let mut x = wa; x += wb; x } 2 => { let mut x = wa; x.add_byte_weights(&wb); x }
                3 => { let mut x = wa.clone(); let mut it = x.iter(); it.next(); x.add_byte_weights(&wb); x } _ => { let mut x = ByteWeights::new(); x += wa; x.add_byte_weights(&wb); x } };
            let r = check_counts(&w, &{ let mut ps = pa.clone(); ps.extend(pb.iter().cloned()); count(&ps) });
            pool.push((vec![], w)); res(r)
        });
        pa.extend(pb);
        if let Some(x) = pool.last_mut() { if x.0.is_empty() { x.0 = pa; } }
        out.push(r);
    };
    let eager = a.n("eager");
    while let Ok(x) = rx.recv() {
        out.push(guarded(|| res(check_counts(&x.1, &count(&x.0)))));
        pool.push(x);
        if eager > 0 { while pool.len() > eager { step(&mut pool, &mut out) } }
    }
    while pool.len() > 1 { step(&mut pool, &mut out) }
    for h in hs { if let Err(e) = h.join() { out.push(format!("PANIC {}", msg(e))) } }
    if let Some(mut x) = pool.pop() {
        // the same collection many times over
        let mut c = naive(&data); let mut w = x.1;
        for i in 0..a.n("double") {
            if c.iter().map(|n| *n as u128).sum::<u128>() > (usize::MAX / 2) as u128 { break }
            let before = w; w = match i % 3 { 0 => w + w, 1 => { w += before; w } _ => { w.add_byte_weights(&before); w } };
            for n in c.iter_mut() { *n *= 2 }
            out.push(guarded(|| res(check_counts(&w, &c))));
        }
        // and changed through the mutable reference
        if a.n("double") % 2 == 1 { out.push(guarded(|| { for b in 0..=255u8 { match w.get_mut(&b) { Some(n) if *n > usize::MAX - 3 => {} Some(n) => { *n += 3; c[b as usize] += 3 } None => {} } } res(check_counts(&w, &c)) })) }
        x.0.clear();
        let whole = ByteWeights::from_bytes(&data);
        out.push(if x.1 == whole && whole == x.1 { "ok".into() } else { "BAD merged counts differ from counting the whole".into() });
    } else { out.push("BAD nothing arrived".into()); }
    out
}

/* ---- trees */
fn leaves<'a, L: HuffLetter>(b: &'a HuffBranch<L>, path: &mut String, out: &mut Vec<(&'a HuffLeaf<L>, String)>) {
    match (b.left_child(), b.right_child()) {
        (Some(l), Some(r)) => { path.push('0'); leaves(l, path, out); path.pop(); path.push('1'); leaves(r, path, out); path.pop(); }
        _ => out.push((b.leaf(), path.clone())),
    }
}
fn tree_ok<L: HuffLetter>(t: &HuffTree<L>) -> Result<(), String> {
    let mut ls = vec![]; leaves(t.root(), &mut String::new(), &mut ls);
    let single = ls.len() == 1;
    let codes = t.read_codes();
    if codes.len() != ls.len() { return Err(format!("{} codes for {} leaves", codes.len(), ls.len())); }
    for (leaf, path) in &ls {
        let l = leaf.letter().ok_or("a leaf has no letter")?;
        let want = if single { "0".to_string() } else { path.clone() };
        if leaf.code().map(|c| bits(c)) != Some(want.clone()) { return Err(format!("letter {:?} has code {:?}, its path is {}", l, leaf.code().map(|c| bits(c)), want)); }
        if codes.get(l).map(|c| bits(c)) != Some(want.clone()) { return Err(format!("code map says {:?} for {:?}, its path is {}", codes.get(l).map(|c| bits(c)), l, want)); }
    }
    Ok(())
}
/// exchanges the children of branches, as a caller may: codes and children are set anew
fn flip<L: HuffLetter>(b: &mut HuffBranch<L>, path: BitVec<Msb0, u8>, mut which: u64) {
    if b.has_children() {
        if which & 1 == 1 { let (x, y) = (b.left_child().unwrap().clone(), b.right_child().unwrap().clone()); b.set_children(Some((y, x))); }
        which = which.rotate_right(1);
        for right in [false, true] { let mut p = path.clone(); p.push(right); flip(if right { b.right_child_mut().unwrap() } else { b.left_child_mut().unwrap() }, p, which) }
    }
    if !path.is_empty() { b.set_code(path) }
}
/// the same leaves in another place, rebuilt from parts
fn rebuilt<L: HuffLetter>(b: &HuffBranch<L>, path: BitVec<Msb0, u8>) -> HuffBranch<L> {
    let mut leaf = HuffLeaf::new(b.leaf().letter().cloned(), b.leaf().weight());
    if !path.is_empty() { leaf.set_code(path.clone()) } else if let Some(c) = b.leaf().code() { leaf.set_code(c.clone()) }
    let mut n = HuffBranch::new(leaf, None);
    if let Some(mut it) = b.children_iter() {
        let (l, r) = (it.next().unwrap(), it.next().unwrap());
        let kids: Vec<HuffBranch<L>> = [r, l].iter().enumerate().map(|(i, k)| { let mut p = path.clone(); p.push(i == 1); rebuilt(k, p) }).collect();
        let mut k = kids.into_iter(); n.set_children(Some((k.next().unwrap(), k.next().unwrap())));
    }
    n
}
fn rearranged<L: HuffLetter>(t: &HuffTree<L>, how: u64) -> HuffTree<L> {
    let mut t = t.clone();
    if how & 8 == 0 { let n = t.read_codes().len(); assert!(n > 0) }
    if how % 3 == 0 { let r = rebuilt(t.root(), BitVec::new()); *t.root_mut() = r } else { flip(t.root_mut(), BitVec::new(), how) }
    t
}
/// a branch that has lost its children is a leaf
fn pruned<L: HuffLetter>(t: &HuffTree<L>) -> Result<(), String> {
    let mut b = t.root().clone(); let w = b.leaf().weight();
    b.set_children(None);
    if b.has_children() || b.left_child().is_some() || b.right_child().is_some() || b.left_child_mut().is_some() || b.right_child_mut().is_some() || b.children_iter().is_some() || b.leaf().weight() != w { return Err("a branch without children has some".into()); }
    Ok(())
}
fn total<L: HuffLetter>(t: &HuffTree<L>, ls: &[L]) -> usize { let c = t.read_codes(); ls.iter().map(|l| c.get(l).map(|b| b.len()).unwrap_or(0)).sum() }

/// the least number of code bits for the letters
fn optimum<L: HuffLetter>(ls: &[L]) -> usize {
    let mut c: HashMap<&L, usize> = HashMap::new(); for l in ls { *c.entry(l).or_insert(0) += 1 }
    if c.len() == 1 { return ls.len(); }
    let mut h: std::collections::BinaryHeap<std::cmp::Reverse<usize>> = c.values().map(|n| std::cmp::Reverse(*n)).collect();
    let mut t = 0; while h.len() > 1 { let x = h.pop().unwrap().0 + h.pop().unwrap().0; t += x; h.push(std::cmp::Reverse(x)) }
    t
}
/// compress / decompress in several threads, alone and against one shared tree
fn prog_rt<L: Let>(a: &Args) -> Vec<String> {
    let data = a.file("file");
    let ls: Arc<Vec<L>> = Arc::new(letters(&data, a));
    let extra: Vec<L> = a.list("extra").iter().map(|i| L::mk(*i as u64, a.n("wide") == 1)).collect();
    let missing: Vec<L> = a.list("missing").iter().map(|i| L::mk(*i as u64, a.n("wide") == 1)).collect();
    let mut out = vec![];
    if ls.is_empty() { return vec!["ok bits=0".into()]; }
    let mut all = (*ls).clone(); all.extend(extra);
    let fib = a.n("fib");
    let shared = Arc::new(match catch_unwind(AssertUnwindSafe(|| if fib > 0 {
        let mut f = vec![1usize, 1]; while f.len() < fib { let x = f[f.len() - 1] + f[f.len() - 2]; f.push(x) }
        let mut v: Vec<(L, usize)> = (0..fib).map(|i| (L::mk(i as u64, a.n("wide") == 1), f[i])).collect(); let k = a.n("kind") % fib; v.rotate_left(k); if k % 2 == 1 { v.reverse() }
        HuffTree::from_weights(VecW(v))
    } else { let t = HuffTree::from_weights(build_weights_map(&all)); match a.n("flip") { 0 => t, h => { if let Err(e) = pruned(&t) { panic!("{}", e) } rearranged(&t, h as u64) } } })) { Ok(t) => t, Err(e) => return vec![format!("PANIC {}", msg(e))] });
    let k = a.n("threads").max(1);
    let kind = a.n("kind");
    let job = move |ls: Arc<Vec<L>>, shared: Arc<HuffTree<L>>, i: usize| -> Vec<String> {
        let mut out = vec![];
        for round in 0..2 {
            if (kind >> ((i + round) % 8)) & 1 == 0 {
                out.push(guarded(|| {
                    let c = compress(&ls[..]);
                    if let Err(e) = tree_ok(c.huff_tree()) { return format!("BAD {}", e); }
                    let n = total(c.huff_tree(), &ls);
                    if c.comp_bytes().len() != (n + 7) / 8 || c.padding_bits() as usize != (8 - n % 8) % 8 { return format!("BAD {} code bits stored in {} bytes with padding {}", n, c.comp_bytes().len(), c.padding_bits()); }
                    if decompress(&c) != *ls { return "BAD decompressed letters differ".into(); }
                    let (b, p, t) = c.into_inner();
                    if decompress(&CompressData::new(b, p, t)) != *ls { return "BAD decompressed letters differ after into_inner".into(); }
                    format!("ok bits={}", n)
                }));
            } else {
                let mut seq = (*ls).clone(); seq.rotate_left(i % ls.len());
                out.push(guarded(|| {
                    let c = match compress_with_tree(&seq, (*shared).clone()) { Ok(c) => c, Err(e) => return format!("BAD refused: {:?}", e.missing_letter()) };
                    if decompress(&c) != seq { return "BAD decompressed letters differ (shared tree)".into(); }
                    let n = total(&shared, &ls);
                    if c.comp_bytes().len() != (n + 7) / 8 { return "BAD size (shared tree)".into(); }
                    "ok".into()
                }));
                if !missing.is_empty() {
                    out.push(guarded(|| {
                        let mut seq = seq.clone();
                        let at = (i * 7919) % (seq.len() + 1);
                        for (j, m) in missing.iter().enumerate() { seq.insert((at + j).min(seq.len()), m.clone()) }
                        match compress_with_tree(&seq, (*shared).clone()) {
                            Ok(_) => "BAD a letter without a code was accepted".into(),
                            Err(e) => if *e.missing_letter() == missing[0] { "ok".into() } else { format!("BAD reports {:?} as missing, not {:?}", e.missing_letter(), missing[0]) } }
                    }));
                }
            }
        }
        out
    };
    let hs: Vec<_> = (0..k).map(|i| { let (l, s, j, m) = (ls.clone(), shared.clone(), job.clone(), ()); let _ = m; thread::spawn(move || j(l, s, i)) }).collect();
    for h in hs { match h.join() { Ok(v) => out.extend(v), Err(e) => out.push(format!("PANIC {}", msg(e))) } }
    out.push(guarded(|| res(tree_ok(&shared))));
    out
}

/// trees from weights in a given order; everything is reported
fn prog_weights<L: Let>(a: &Args) -> Vec<String> {
    let text = String::from_utf8(a.file("file")).unwrap();
    let wide = a.n("wide") == 1;
    let mut names: HashMap<L, u64> = HashMap::new();
    let mut ws: Vec<(L, usize)> = vec![];
    for line in text.lines() { let mut it = line.split(' '); let (i, w): (u64, usize) = match (it.next().and_then(|x| x.parse().ok()), it.next().and_then(|x| x.parse().ok())) { (Some(i), Some(w)) => (i, w), _ => continue }; let l = L::mk(i, wide); names.entry(l.clone()).or_insert(i); ws.push((l, w)); }
    let name = |l: &L| names.get(l).map(|x| x.to_string()).unwrap_or_else(|| "none".into());
    let tree = match catch_unwind(AssertUnwindSafe(|| match a.s("kind") {
        "map" => HuffTree::from_weights(ws.iter().cloned().collect::<HashMap<L, usize>>()),
        _ => HuffTree::from_weights(VecW(ws.clone())),
    })) { Ok(t) => t, Err(e) => return vec![format!("PANIC {}", msg(e))] };
    let mut out = vec![];
    let mut ls = vec![]; leaves(tree.root(), &mut String::new(), &mut ls);
    for (leaf, path) in &ls { out.push(format!("leaf {} {} {} {}", leaf.letter().map(|l| name(l)).unwrap_or("none".into()), leaf.weight(), leaf.code().map(|c| bits(c)).unwrap_or("-".into()), if path.is_empty() { "." } else { path })); }
    fn dump<L: Let, S: BuildHasher>(m: &HashMap<L, BitVec<Msb0, u8>, S>, name: &dyn Fn(&L) -> String, tag: &str, out: &mut Vec<String>) { let mut v: Vec<String> = m.iter().map(|(l, c)| format!("code{} {} {}", tag, name(l), bits(c))).collect(); v.sort(); out.extend(v); }
    for h in a.s("hashers").split(',') {
        let r = catch_unwind(AssertUnwindSafe(|| { let mut o = vec![]; match h {
            "std" => dump(&tree.read_codes(), &name, "-std", &mut o),
            "const" => dump(&tree.read_codes_with_hasher(BuildHasherDefault::<ConstH>::default()), &name, "-const", &mut o),
            "sum" => dump(&tree.read_codes_with_hasher(BuildHasherDefault::<SumH>::default()), &name, "-sum", &mut o),
            "mul" => dump(&tree.read_codes_with_hasher(BuildHasherDefault::<MulH>::default()), &name, "-mul", &mut o),
            _ => {} } o }));
        match r { Ok(o) => out.extend(o), Err(e) => out.push(format!("PANIC {}", msg(e))) }
    }
    out
}
fn prog_byteweights(a: &Args) -> Vec<String> {
    // the same through ByteWeights (borrowed from a byte file)
    let data = a.file("file");
    let tree = match catch_unwind(AssertUnwindSafe(|| { let n = a.n("n"); HuffTree::from_weights(if n > 0 { ByteWeights::threaded_from_bytes(&data, n) } else { ByteWeights::from_bytes(&data) }) })) { Ok(t) => t, Err(e) => return vec![format!("PANIC {}", msg(e))] };
    let mut out = vec![];
    let mut ls = vec![]; leaves(tree.root(), &mut String::new(), &mut ls);
    for (leaf, path) in &ls { out.push(format!("leaf {} {} {} {}", leaf.letter().map(|l| l.to_string()).unwrap_or("none".into()), leaf.weight(), leaf.code().map(|c| bits(c)).unwrap_or("-".into()), if path.is_empty() { "." } else { path })); }
    let mut v: Vec<String> = tree.read_codes().iter().map(|(l, c)| format!("code-std {} {}", l, bits(c))).collect(); v.sort(); out.extend(v);
    out
}
/// build_weights_map counts
fn prog_build<L: Let>(a: &Args) -> Vec<String> {
    let data = a.file("file"); let ls: Vec<L> = letters(&data, a);
    let mut c: HashMap<L, usize> = HashMap::new(); for l in &ls { *c.entry(l.clone()).or_insert(0) += 1 }
    fn same<L: Let, S: BuildHasher>(m: &HashMap<L, usize, S>, c: &HashMap<L, usize>) -> Result<(), String> { if m.len() != c.len() { return Err(format!("{} letters instead of {}", m.len(), c.len())); } for (l, n) in c { if m.get(l) != Some(n) { return Err(format!("{:?} counted {:?} instead of {}", l, m.get(l), n)); } } Ok(()) }
    vec![guarded(|| res(same(&build_weights_map(&ls), &c))), guarded(|| res(same(&build_weights_map_with_hasher(&ls, BuildHasherDefault::<SumH>::default()), &c))), guarded(|| res(same(&build_weights_map_with_hasher(&ls, BuildHasherDefault::<ConstH>::default()), &c)))]
}

/* ---- serialisation through storage */
fn prog_serw<L: Let + HuffLetterAsBytes>(a: &Args) -> Vec<String> {
    let data = a.file("file"); let ls: Vec<L> = letters(&data, a);
    let extra: Vec<L> = a.list("extra").iter().map(|i| L::mk(*i as u64, a.n("wide") == 1)).collect();
    vec![guarded(|| {
        let zero_tree = |z: usize| { let mut w = build_weights_map(&ls); for i in 0..z { w.entry(L::mk(i as u64, a.n("wide") == 1)).or_insert(0); } HuffTree::from_weights(w) };
        let c = if a.n("zeros") > 0 {
            // (trees deeper than 1024 levels are not promised to be read back)
            let mut z = a.n("zeros"); let mut t = zero_tree(z); while z > 0 && t.read_codes().values().map(|c| c.len()).max() > Some(1024) { z /= 2; t = zero_tree(z) }
            match compress_with_tree(&ls, t) { Ok(c) => c, Err(_) => return "BAD letter refused".into() } }
            else if extra.is_empty() { compress(&ls) } else { let mut all = ls.clone(); all.extend(extra); match compress_with_tree(&ls, HuffTree::from_weights(build_weights_map(&all))) { Ok(c) => c, Err(_) => return "BAD letter refused".into() } };
        let c = match a.n("flip") { 0 => c, h => match compress_with_tree(&ls, rearranged(c.huff_tree(), h as u64)) { Ok(c) => c, Err(_) => return "BAD letter refused (rearranged)".into() } };
        let b = c.to_bytes();
        let t = c.huff_tree().as_bin();
        let mut tb = (t.len() as u64).to_be_bytes().to_vec(); tb.extend(t.clone().into_vec());
        if let Err(e) = std::fs::write(a.s("ser"), &b) { return format!("io {}", e); }
        if let Err(e) = std::fs::write(a.s("tree"), &tb) { return format!("io {}", e); }
        // the value as it is now, for the reader to compare with
        let mut codes: Vec<String> = c.huff_tree().read_codes().iter().map(|(l, c)| format!("{}={}", l.show(), bits(c))).collect(); codes.sort();
        if let Err(e) = std::fs::write(a.s("val"), format!("{} {} {}", c.padding_bits(), c.comp_bytes().iter().map(|b| format!("{:02x}", b)).collect::<String>(), codes.join(","))) { return format!("io {}", e); }
        "ok".into()
    })]
}
fn prog_serr<L: Let + HuffLetterAsBytes>(a: &Args) -> Vec<String> {
    let exact = a.n("exact") == 1;
    let ser = a.file("ser"); let tree = a.file("tree");
    let ls: Vec<L> = letters(&a.file("file"), a);
    let val = if exact { String::from_utf8(a.file("val")).unwrap() } else { String::new() };
    let work = move || -> Vec<String> {
        let mut out = vec![];
        out.push(guarded(|| match CompressData::<L>::try_from_bytes(&ser) {
            Err(e) => if exact { format!("BAD intact bytes refused: {}", e) } else { "err".into() },
            Ok(c) => {
                let d = decompress(&c);
                let again = c.to_bytes();
                if exact {
                    let mut codes: Vec<String> = c.huff_tree().read_codes().iter().map(|(l, c)| format!("{}={}", l.show(), bits(c))).collect(); codes.sort();
                    if d != ls { return "BAD decompresses to other letters".into(); }
                    let v = format!("{} {} {}", c.padding_bits(), c.comp_bytes().iter().map(|b| format!("{:02x}", b)).collect::<String>(), codes.join(","));
                    if v != val { return "BAD padding, data or codes differ after the round trip".into(); }
                    if let Err(e) = tree_ok(c.huff_tree()) { return format!("BAD {}", e); }
                    if again != ser { return "BAD serialised again differently".into(); }
                } else {
                    match CompressData::<L>::try_from_bytes(&again) { Ok(c2) => if decompress(&c2) != d { return "BAD re-serialised value decompresses differently".into(); }, Err(e) => return format!("BAD accepted bytes cannot be re-serialised: {}", e) }
                }
                "ok".into()
            }
        }));
        out.push(guarded(|| {
            if tree.len() < 8 { return "err".into(); }
            let n = u64::from_be_bytes([tree[0], tree[1], tree[2], tree[3], tree[4], tree[5], tree[6], tree[7]]) as usize;
            let mut b = BitVec::<Msb0, u8>::from_vec(tree[8..].to_vec());
            if n > b.len() { return if exact { "BAD bit count".into() } else { "err".into() }; }
            b.truncate(n);
            match HuffTree::<L>::try_from_bin(b.clone()) {
                Err(e) => if exact { format!("BAD intact tree refused: {}", e.message()) } else { "err".into() },
                Ok(t) => {
                    let codes = t.read_codes();
                    if exact { if let Err(e) = tree_ok(&t) { return format!("BAD {}", e); } if t.as_bin() != b { return "BAD tree written differently".into(); } if ls.iter().any(|l| !codes.contains_key(l)) { return "BAD letter missing in tree".into(); } }
                    else if HuffTree::<L>::try_from_bin(t.as_bin()).is_err() { return "BAD accepted tree cannot be re-read".into(); }
                    "ok".into()
                }
            }
        }));
        out
    };
    if a.n("thread") == 1 { thread::spawn(work).join().unwrap_or_else(|e| vec![format!("PANIC {}", msg(e))]) } else { work() }
}

/* ---- many callers at once */
fn prog_conc<L: Let + HuffLetterAsBytes>(a: &Args) -> Vec<String> {
    let data = Arc::new(a.file("file"));
    let ls: Arc<Vec<L>> = Arc::new(letters(&data, a));
    if ls.is_empty() { return vec!["ok".into()]; }
    let setup = catch_unwind(AssertUnwindSafe(|| {
        let c = compress(&ls[..]); let bw = ByteWeights::from_bytes(&data); let t = c.huff_tree().clone(); let tot = total(&t, &ls);
        (c.to_bytes(), bits(&t.as_bin()), c, t, bw, tot)
    }));
    let (ser, tbin, c, t, bw, tot) = match setup { Ok(x) => x, Err(e) => return vec![format!("PANIC {}", msg(e))] };
    let sh = Arc::new((ser, tbin, c, t, bw, tot));
    let counts = Arc::new(naive(&data));
    let ops = a.list("ops"); let k = a.n("threads").max(1); let per = a.n("per").max(1); let vary = a.n("vary") == 1;
    let tn = Arc::new({ let mut v = a.list("tn"); if v.is_empty() { v = vec![1, 2, 3, 4, 5] } v });
    let mut hs = vec![];
    for i in 0..k {
        let (data, ls, sh, counts, ops, tn) = (data.clone(), ls.clone(), sh.clone(), counts.clone(), ops.clone(), tn.clone());
        hs.push(thread::spawn(move || -> Vec<String> { (0..per).map(|r| {
            let op = ops.get((i * per + r) % ops.len().max(1)).copied().unwrap_or(0);
            let g = guarded(|| {
                let mut own: Vec<L> = (*ls).clone(); let at = (i * 31 + r * 17) % own.len(); own.rotate_left(at);
                // as many letters as the others have, but not the same ones
                if vary { let n = ls.len(); for (j, x) in own.iter_mut().enumerate() { *x = ls[(j * j * (i + 1) + j / (r + 1) + at) % n].clone() } }
                let tot = if vary { optimum(&own) } else { sh.5 };
                let mine: Vec<u8> = if vary { data.iter().map(|b| b.wrapping_mul(2 * i as u8 + 3).wrapping_add(r as u8) & if i % 3 == 0 { 15 } else { 255 }).collect() } else { (*data).clone() };
                let half = &own[..(own.len() + 1) / 2];
                match op % 18 {
                    0 => { let c = compress(&own); if decompress(&c) != own { return "BAD own data".into(); } if total(c.huff_tree(), &own) != tot { return format!("BAD {} code bits instead of {}", total(c.huff_tree(), &own), tot); } "ok".into() }
                    1 => { let c = match compress_with_tree(half, sh.3.clone()) { Ok(c) => c, Err(_) => return "BAD refused".into() }; if decompress(&c) == half { "ok".into() } else { "BAD shared tree".into() } }
                    2 => if decompress(&sh.2) == *ls { "ok".into() } else { "BAD shared compressed data".into() },
                    3 => if sh.2.to_bytes() == sh.0 { "ok".into() } else { "BAD to_bytes".into() },
                    4 => match CompressData::<L>::try_from_bytes(&sh.0) { Ok(c) => if decompress(&c) == *ls && c.to_bytes() == sh.0 { "ok".into() } else { "BAD try_from_bytes".into() }, Err(e) => format!("BAD refused: {}", e) },
                    5 => res(check_counts(&sh.4, &counts)),
                    6 => { let mut w = sh.4; w += ByteWeights::from_bytes(&data[..data.len() / 2]); let mut c = *counts; for b in &data[..data.len() / 2] { c[*b as usize] += 1 } res(check_counts(&w, &c)) }
                    7 => res(check_counts(&ByteWeights::threaded_from_bytes(&mine, tn[(i + r) % tn.len()].max(1)), &naive(&mine))),
                    8 => if bits(&sh.3.as_bin()) == sh.1 { res(tree_ok(&sh.3)) } else { "BAD as_bin".into() },
                    10 => { let w = ByteWeights::from_bytes(&mine); if let Err(e) = check_counts(&w, &naive(&mine)) { return format!("BAD {}", e); } let t = HuffTree::from_weights(w); if let Err(e) = tree_ok(&t) { return format!("BAD {}", e); } if total(&t, &mine) == optimum(&mine) { "ok".into() } else { "BAD from_weights of bytes".into() } }
                    11 => { let b: BitVec<Msb0, u8> = sh.1.bytes().map(|c| c == b'1').collect(); match HuffTree::<L>::try_from_bin(b) { Ok(t) => if bits(&t.as_bin()) == sh.1 && t.read_codes() == sh.3.read_codes() { res(tree_ok(&t)) } else { "BAD try_from_bin".into() }, Err(e) => format!("BAD tree refused: {}", e) } }
                    12 => { let c: Vec<(u8, usize)> = (&sh.4).into_iter().collect(); let d: Vec<(u8, usize)> = sh.4.into_iter().collect(); let e: Vec<(u8, usize)> = (0..256).filter(|i| counts[*i] > 0).map(|i| (i as u8, counts[i])).collect(); if c == d && c.len() == e.len() && e.iter().all(|x| c.contains(x)) { "ok".into() } else { "BAD iteration".into() } }
                    13 => { let m = sh.3.read_codes_with_hasher(BuildHasherDefault::<MulH>::default()); let n = sh.3.read_codes(); if m.len() == n.len() && n.iter().all(|(l, c)| m.get(l) == Some(c)) { "ok".into() } else { "BAD read_codes_with_hasher".into() } }
                    14 => { let t = HuffTree::from_weights(build_weights_map(&own[..1])); let bad = own.iter().find(|l| **l != own[0]); match (compress_with_tree(&own, t), bad) { (Ok(c), None) => if decompress(&c) == own { "ok".into() } else { "BAD single letter".into() }, (Err(e), Some(l)) if e.missing_letter() == l => "ok".into(), _ => "BAD missing letter".into() } }
                    // calls that must fail, in one caller only
                    15 => { if CompressData::<L>::try_from_bytes(&sh.0[..(i + r) % 5]).is_ok() { return "BAD accepted".into(); } let p = catch_unwind(|| HuffTree::from_weights(HashMap::<L, usize>::new())); if p.is_ok() { return "BAD a tree from no weights".into(); } let p = catch_unwind(|| HuffTree::from_weights(ByteWeights::new())); if p.is_ok() { return "BAD a tree from no bytes".into(); } "ok".into() }
                    // changes to a clone stay in the clone
                    16 => { let f = rearranged(&sh.3, 1 + (i * 7 + r) as u64); if let Err(e) = tree_ok(&f) { return format!("BAD {}", e); } if bits(&sh.3.as_bin()) != sh.1 { return "BAD changing a clone changes the tree".into(); } match compress_with_tree(&own, f.clone()) { Ok(c) => { if decompress(&c) != own { return "BAD rearranged tree".into(); } match CompressData::<L>::try_from_bytes(&c.to_bytes()) { Ok(d) => if decompress(&d) == own && d.huff_tree().read_codes() == f.read_codes() { res(tree_ok(&sh.3)) } else { "BAD rearranged tree read back".into() }, Err(e) => format!("BAD rearranged tree refused: {}", e) } } Err(_) => "BAD letter refused (rearranged)".into() } }
                    17 => { let mut c = sh.2.clone().into_inner(); c.0.iter_mut().for_each(|b| *b = !*b); let d = CompressData::new(c.0, c.1, rearranged(&c.2, !0)); if decompress(&d) != *ls && ls.iter().any(|l| *l != ls[0]) { return "BAD complemented data in the opposite tree".into(); } if sh.2.to_bytes() == sh.0 { res(pruned(&sh.3)) } else { "BAD changing a clone changes the data".into() } }
                    _ => { let m = build_weights_map(&own); let t = HuffTree::from_weights(m); if let Err(e) = tree_ok(&t) { return format!("BAD {}", e); } if total(&t, &own) == tot { "ok".into() } else { "BAD from_weights".into() } }
                }
            });
            if g == "ok" { g } else { format!("{} (thread {} call {} op {})", g, i, r, op % 18) }
        }).collect() }));
    }
    let mut out = vec![];
    for h in hs { match h.join() { Ok(v) => out.extend(v), Err(e) => out.push(format!("PANIC {}", msg(e))) } }
    out.push(guarded(|| if sh.2.to_bytes() != sh.0 || bits(&sh.3.as_bin()) != sh.1 { "BAD a shared value changed".into() } else { res(check_counts(&sh.4, &counts)) }));
    out
}

/* ---- archives */
fn prog_decode(a: &Args) -> Vec<String> {
    let b = a.file("file");
    vec![guarded(|| match CompressData::<u8>::try_from_bytes(&b) { Err(e) => format!("err {}", e), Ok(c) => match std::fs::write(a.s("dec"), decompress(&c)) { Ok(()) => "ok".into(), Err(e) => format!("io {}", e) } })]
}
fn prog_encode(a: &Args) -> Vec<String> {
    let b = a.file("file");
    let extra: Vec<u8> = a.list("extra").iter().map(|x| *x as u8).collect();
    let deep: Vec<u8> = a.list("deep").iter().map(|x| *x as u8).collect();
    vec![guarded(|| {
        if !deep.is_empty() { // every letter weighs as much as the two before it
            let (mut x, mut y) = (0usize, 1usize);
            let v: Vec<(u8, usize)> = deep.iter().map(|l| { let w = y; let z = x + y; x = y; y = z; (*l, w) }).collect();
            let c = match compress_with_tree(&b, HuffTree::from_weights(VecW(v))) { Ok(c) => c, Err(_) => return "BAD refused".into() };
            return match std::fs::write(a.s("out2"), c.to_bytes()) { Ok(()) => "ok".into(), Err(e) => format!("io {}", e) };
        }
        let mut all = b.clone(); all.extend(extra);
        let c = match a.n("kind") { 0 if all.len() == b.len() => compress(&b),
            1 => match compress_with_tree(&b, HuffTree::from_weights(ByteWeights::from_bytes(&all))) { Ok(c) => c, Err(_) => return "BAD refused".into() },
            2 => { let mut v: Vec<(u8, usize)> = build_weights_map(&all).into_iter().collect(); v.sort_by_key(|x| x.0.wrapping_mul(101)); match compress_with_tree(&b, HuffTree::from_weights(VecW(v))) { Ok(c) => c, Err(_) => return "BAD refused".into() } }
            _ => match compress_with_tree(&b, HuffTree::from_weights(build_weights_map(&all))) { Ok(c) => c, Err(_) => return "BAD refused".into() } };
        match std::fs::write(a.s("out2"), c.to_bytes()) { Ok(()) => "ok".into(), Err(e) => format!("io {}", e) }
    })]
}

/// letters of 64 KiB each: the tree takes more than 2^32 bits
const PAGE: usize = 1 << 16;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Flat([u8; PAGE]);
impl HuffLetter for Flat {}
impl HuffLetterAsBytes for Flat {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> { use std::convert::TryInto; Ok(Flat(b.try_into()?)) }
    fn as_be_bytes(&self) -> Box<[u8]> { self.0.to_vec().into_boxed_slice() }
}
fn prog_huge(a: &Args) -> Vec<String> {
    let (k, read) = (a.n("k"), a.n("read") == 1);
    let work = move || vec![guarded(|| {
        let v: Vec<Flat> = (0..k).map(|i| { let mut b = [0u8; PAGE]; b[0] = (i >> 8) as u8; b[1] = i as u8; b[PAGE - 1] = 7; Flat(b) }).collect();
        let c = compress(&v);
        let (data, b) = (c.comp_bytes().len(), c.to_bytes());
        drop(c);
        let len = u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
        if 5 + len + data != b.len() { return format!("BAD a tree of {} bytes is stored with a length of {}", b.len() - 5 - data, len) }
        if read { match CompressData::<Flat>::try_from_bytes(&b) { Err(e) => return format!("BAD intact bytes refused: {}", e), Ok(d) => if decompress(&d) != v { return "BAD decompresses to other letters".into() } } }
        "ok".into()
    })];
    thread::Builder::new().stack_size(1 << 28).spawn(work).unwrap().join().unwrap_or_else(|e| vec![format!("PANIC {}", msg(e))])
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let prog = argv.get(1).cloned().unwrap_or_default();
    let a = Args(argv.iter().skip(2).filter_map(|x| x.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect());
    macro_rules! by { ($f:ident; $($t:ty),*) => { match a.s("type") { $(stringify!($t) => $f::<$t>(&a),)* t => { eprintln!("libwork: type {}?", t); std::process::exit(3) } } } }
    let out = match &prog[..] {
        "count" => prog_count(&a),
        "merge" => prog_merge(&a),
        "rt" => { type Str = &'static str; by!(prog_rt; u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128, char, String, Str, Odd, Rgb) }
        "weights" => { type Str = &'static str; by!(prog_weights; u8, u16, u64, i32, u128, char, String, Str) }
        "byteweights" => prog_byteweights(&a),
        "build" => { type Str = &'static str; by!(prog_build; u8, u16, i64, u128, char, String) }
        "serw" => by!(prog_serw; u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128, Odd, Rgb),
        "serr" => by!(prog_serr; u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128, Odd, Rgb),
        "conc" => by!(prog_conc; u8, u16, i64, Rgb),
        "huge" => prog_huge(&a),
        "decode" => prog_decode(&a),
        "encode" => prog_encode(&a),
        p => { eprintln!("libwork: program {}?", p); std::process::exit(3) }
    };
    if let Err(e) = std::fs::write(a.s("out"), out.join("\n") + "\n") { eprintln!("libwork: out: {}", e); std::process::exit(3) }
}
