//! The reference model of `huff`'s command line: which files a command reads, writes and removes.
use crate::codec::{self, Decoded};
use crate::world::{Body, Snap};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Want { pub comp: bool, pub n: bool, pub r: bool, pub t: bool, pub size: Option<u64>, pub src: String, pub dst: String, pub src_is_hff: bool }
/// what must become of a command on a healthy system
#[derive(Clone, Debug, PartialEq)]
pub enum Fate { Refuse(&'static str), Do, /// the archive cannot be decoded (true), or may be refused
    Bad(bool) }

pub fn abs(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') { match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c) } }
    format!("/{}", v.join("/"))
}
fn name(p: &str) -> &str { p.rsplit('/').next().unwrap() }
fn ext(p: &str) -> Option<&str> { let n = name(p); match n.rfind('.') { Some(i) if i > 0 => Some(&n[i + 1..]), _ => None } }

/// what arguments ask for; None: the model has no opinion on them
#[derive(Clone, Debug)]
pub enum Ask { Job(Want), Usage(&'static str), Info }
pub fn ask(args: &[String], cwd: &str) -> Option<Ask> {
    if args.len() == 1 && matches!(&args[0][..], "-h" | "--help" | "-V" | "--version") { return Some(Ask::Info); }
    let (mut npos, mut i, mut only) = (0, 0, false);
    let mut seen: Vec<char> = vec![];
    while i < args.len() {
        let a = &args[i][..]; i += 1;
        if only || !a.starts_with('-') || a == "-" { npos += 1; continue; }
        if a == "--" { only = true; continue; }
        if let Some(l) = a.strip_prefix("--") {
            let f = match l.split('=').next().unwrap() { "decompress" => 'd', "noask" => 'n', "replace" => 'r', "time" => 't', "block-size" => 'b', _ => return Some(Ask::Usage("an option is unknown")) };
            if f != 'b' && l.contains('=') { return None; }
            if f == 'b' && !l.contains('=') { if i >= args.len() { return None; } i += 1 }
            if seen.contains(&f) { return None; } seen.push(f);
            continue;
        }
        let s = &a[1..];
        for (k, c) in s.char_indices() {
            if !"dnrtb".contains(c) { return if "hV".contains(c) { None } else { Some(Ask::Usage("an option is unknown")) }; }
            if seen.contains(&c) { return None; } seen.push(c);
            if c == 'b' { if k + 1 == s.len() { if i >= args.len() { return None; } i += 1 } break; }
        }
    }
    if npos == 0 { return Some(Ask::Usage("the source is missing")); }
    if npos > 2 { return Some(Ask::Usage("there are too many arguments")); }
    parse(args, cwd).map(Ask::Job)
}
fn parse(args: &[String], cwd: &str) -> Option<Want> {
    let (mut d, mut n, mut r, mut t, mut b, mut pos, mut only) = (false, false, false, false, "2G".to_string(), vec![], false);
    let mut i = 0;
    while i < args.len() {
        let a = &args[i][..]; i += 1;
        if only || !a.starts_with('-') || a == "-" { pos.push(a.to_string()); continue; }
        match a {
            "--" => only = true,
            "--decompress" => d = true, "--noask" => n = true, "--replace" => r = true, "--time" => t = true,
            "--block-size" => { b = args.get(i)?.clone(); i += 1 }
            _ if a.starts_with("--block-size=") => b = a[13..].into(),
            _ if a.starts_with("--") => return None,
            _ => { let s = &a[1..]; for (k, c) in s.char_indices() { match c { 'd' => d = true, 'n' => n = true, 'r' => r = true, 't' => t = true, 'b' => { b = if k + 1 < s.len() { s[k + 1..].into() } else { i += 1; args.get(i - 1)?.clone() }; break } _ => return None } } }
        }
    }
    if pos.is_empty() || pos.len() > 2 { return None; }
    // a destination without a name of its own
    if pos.last().map(|p| matches!(p.rsplit('/').next().unwrap(), "" | "." | ".." | "..hff" | "...hff")).unwrap() { return None; }
    // as good as the default
    if pos.get(1).map_or(false, |p| p.starts_with("./") && p.ends_with("/SRC_FILE.hff")) { return None; }
    let src = abs(cwd, &pos[0]);
    let dst = match (pos.get(1), d) {
        (Some(p), false) => abs(cwd, p) + ".hff",
        (Some(p), true) => { let p = abs(cwd, p); if p == src { return None; } p }
        (None, false) => abs(cwd, &format!("{}.hff", name(&src))),
        (None, true) => { if abs(cwd, name(&src)) != src || pos[0].starts_with('/') || pos[0].contains("..") { return None; } let p = abs(cwd, name(&src)); match p.strip_suffix(".hff") { Some(x) => x.to_string(), None => p } }
    };
    Some(Want { comp: !d, n, r, t, size: crate::props::size_of(&b), src_is_hff: ext(&src) == Some("hff"), src, dst })
}
pub fn file(w: &Snap, p: &str) -> Option<Arc<Vec<u8>>> { match follow(w, p).map(|p| &w[&p].body) { Some(Body::File(d)) => Some(d.clone()), _ => None } }
/// the name a path leads to, through symbolic links (all links in cases are absolute)
pub fn follow(w: &Snap, p: &str) -> Option<String> {
    let mut p = p.to_string();
    for _ in 0..8 { match w.get(&p).map(|s| &s.body) { Some(Body::Link(t)) => p = t.clone(), Some(_) => return Some(p), None => return None } }
    None
}
/// the inode a path leads to
pub fn real(w: &Snap, p: &str) -> Option<u32> { follow(w, p).map(|p| w[&p].ino) }
pub fn fate(k: &Want, w: &Snap) -> Fate {
    if k.size.is_none() { return Fate::Refuse("the block size is not valid"); }
    let Some(s) = file(w, &k.src) else { return Fate::Refuse("the source is not a file") };
    if !k.comp && !k.src_is_hff { return Fate::Refuse("the source is not named .hff"); }
    if k.comp && s.is_empty() { return Fate::Refuse("the source is empty"); }
    match w.get(&k.dst).map(|s| &s.body) { Some(Body::Dir) => return Fate::Refuse("the destination is a directory"), _ => {} }
    if let (Some(a), Some(b)) = (real(w, &k.src), real(w, &k.dst)) { if a == b { return Fate::Refuse("source and destination are one file"); } }
    if name(&k.dst).len() > 255 { return Fate::Refuse("the destination's name is too long"); }
    let dir = k.dst.rsplit_once('/').unwrap().0;
    if !dir.is_empty() && w.get(dir).map(|s| &s.body) != Some(&Body::Dir) { return Fate::Refuse("the destination's directory does not exist"); }
    if !k.comp { match codec::decode(&s) { Decoded::Refuse(_) => return Fate::Bad(true), Decoded::Letters(_, Some(_)) => return Fate::Bad(false), _ => {} } }
    Fate::Do
}
