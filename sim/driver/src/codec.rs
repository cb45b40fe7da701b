//! Independent reference for the archive format and for Huffman optimality. Shares no code with /repo.
use crate::rng::Rng;
use std::collections::BinaryHeap;
use std::cmp::Reverse;

#[derive(Clone, Debug)]
pub enum Node { Leaf(u8), Join(Box<Node>, Box<Node>) }

pub struct Bits { pub bytes: Vec<u8>, pub n: usize }
impl Bits {
    pub fn new() -> Self { Bits { bytes: vec![], n: 0 } }
    pub fn push(&mut self, b: bool) { if self.n % 8 == 0 { self.bytes.push(0) } if b { *self.bytes.last_mut().unwrap() |= 0x80 >> (self.n % 8) } self.n += 1; }
}
fn bit(b: &[u8], i: usize) -> bool { b[i / 8] >> (7 - i % 8) & 1 == 1 }

pub struct Archive { pub tree_pad: u8, pub data_pad: u8, pub tree_len: usize, pub nodes: Vec<(i32, i32)>, pub leaf: Vec<u8>, pub leaves: Vec<u8>, pub data_off: usize }
#[derive(Debug, Clone)]
pub enum Decoded {
    Refuse(&'static str),
    /// the letters; whether refusing is fine too (and why)
    Letters(Vec<u8>, Option<&'static str>),
}

/// header and tree; iterative, any depth
pub fn parse(b: &[u8]) -> Result<Archive, &'static str> {
    if b.len() < 5 { return Err("shorter than the header"); }
    let (tp, dp) = (b[0] >> 4, b[0] & 15);
    if tp > 7 || dp > 7 { return Err("padding count above 7"); }
    let tl = u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
    if tl > b.len() - 5 { return Err("tree longer than the file"); }
    let t = &b[5..5 + tl];
    let nb = tl * 8;
    if nb < tp as usize + 1 { return Err("no tree"); }
    let nb = nb - tp as usize;
    // nodes: (left, right) or (-1 - index into leaf, _)
    let mut nodes: Vec<(i32, i32)> = vec![]; let mut leaf: Vec<u8> = vec![];
    let mut open: Vec<usize> = vec![]; // joints waiting for a child
    let mut p = 0;
    loop {
        if p >= nb { return Err("tree section too short"); }
        let j = bit(t, p); p += 1;
        let me = nodes.len() as i32;
        if j { nodes.push((-1, -1)) } else {
            if p + 8 > nb { return Err("tree section too short"); }
            let mut l = 0u8; for _ in 0..8 { l = l << 1 | bit(t, p) as u8; p += 1; }
            nodes.push((i32::MIN, leaf.len() as i32)); leaf.push(l);
        }
        if me > 0 {
            let par = *open.last().unwrap();
            if nodes[par].0 == -1 { nodes[par].0 = me } else { nodes[par].1 = me; }
        }
        if j { open.push(me as usize); }
        else { while let Some(&o) = open.last() { if nodes[o].1 != -1 { open.pop(); } else { break } } }
        if open.is_empty() { break; }
    }
    if p != nb { return Err("tree section too long"); }
    Ok(Archive { tree_pad: tp, data_pad: dp, tree_len: tl, leaves: leaf.clone(), leaf, nodes, data_off: 5 + tl })
}

pub fn decode(b: &[u8]) -> Decoded {
    let a = match parse(b) { Ok(a) => a, Err(e) => return Decoded::Refuse(e) };
    let d = &b[a.data_off..];
    let mut lenient = None;
    if d.is_empty() { return Decoded::Letters(vec![], Some("no data")); }
    let nb = d.len() * 8 - a.data_pad as usize;
    let mut seen = [false; 256];
    for l in &a.leaves { if seen[*l as usize] { lenient = Some("two codes for one letter") } seen[*l as usize] = true; }
    if a.leaves.len() == 1 {
        if (0..nb).any(|i| bit(d, i)) { lenient = Some("a code that is not in the tree"); }
        return Decoded::Letters(vec![a.leaves[0]; nb], lenient);
    }
    let mut out = vec![]; let mut n = 0usize;
    for i in 0..nb {
        n = if bit(d, i) { a.nodes[n].1 } else { a.nodes[n].0 } as usize;
        if a.nodes[n].0 == i32::MIN { out.push(a.leaf[a.nodes[n].1 as usize]); n = 0; }
    }
    if n != 0 { lenient = lenient.or(Some("incomplete last code")); }
    Decoded::Letters(out, lenient)
}

pub fn counts(d: &[u8]) -> [u64; 256] { let mut c = [0; 256]; for b in d { c[*b as usize] += 1 } c }

/// the least total number of code bits any prefix code needs (a lone letter takes one bit each)
pub fn optimal(ws: &[u64]) -> u128 {
    if ws.len() == 1 { return ws[0] as u128; }
    let mut h: BinaryHeap<Reverse<u128>> = ws.iter().map(|w| Reverse(*w as u128)).collect();
    let mut t = 0;
    while h.len() > 1 { let a = h.pop().unwrap().0; let b = h.pop().unwrap().0; t += a + b; h.push(Reverse(a + b)); }
    t
}
pub fn optimal_of(d: &[u8]) -> u128 { optimal(&counts(d).iter().copied().filter(|c| *c > 0).collect::<Vec<_>>()) }

/// is `b` a documented, minimal, cleanly padded archive of `d`?
pub fn well_formed(b: &[u8], d: &[u8]) -> Result<(), String> {
    let a = parse(b).map_err(|e| e.to_string())?;
    let c = counts(d);
    let mut seen = [0; 256]; for l in &a.leaves { seen[*l as usize] += 1 }
    for i in 0..256 { let want = (c[i] > 0) as usize; if seen[i] != want { return Err(format!("tree has {} leaves for byte {} which occurs {} times", seen[i], i, c[i])); } }
    for i in 0..a.tree_pad as usize { if bit(&b[5..], a.tree_len * 8 - 1 - i) { return Err("tree padding bits are not zero".into()); } }
    let data = &b[a.data_off..];
    if data.is_empty() { return Err("no data section".into()); }
    for i in 0..a.data_pad as usize { if bit(data, data.len() * 8 - 1 - i) { return Err("data padding bits are not zero".into()); } }
    let bits = data.len() as u128 * 8 - a.data_pad as u128;
    match decode(b) { Decoded::Letters(l, _) if l == d => {}, Decoded::Letters(l, _) => { let p = l.iter().zip(d).position(|(x, y)| x != y).unwrap_or(l.len().min(d.len())); return Err(format!("decodes to {} bytes instead of {}, first difference at {}", l.len(), d.len(), p)) } Decoded::Refuse(e) => return Err(e.into()) }
    let best = optimal_of(d);
    if bits != best { return Err(format!("data section has {} bits, the minimum is {}", bits, best)); }
    Ok(())
}

fn emit_tree(n: &Node, t: &mut Bits) {
    // iterative: forged trees may be deep
    let mut st = vec![n];
    while let Some(n) = st.pop() {
        match n { Node::Join(l, r) => { t.push(true); st.push(r); st.push(l) } Node::Leaf(b) => { t.push(false); for i in 0..8 { t.push(b >> (7 - i) & 1 == 1) } } }
    }
}
fn emit_codes(n: &Node, pre: Vec<bool>, out: &mut [Option<Vec<bool>>]) {
    match n { Node::Leaf(b) => out[*b as usize] = Some(if pre.is_empty() { vec![false] } else { pre }), Node::Join(l, r) => { let mut a = pre.clone(); a.push(false); emit_codes(l, a, out); let mut b = pre; b.push(true); emit_codes(r, b, out) } }
}
/// a Huffman tree with random tie-breaks, or (skewed) any tree over the letters
pub fn tree_for(ws: &[(u8, u64)], rng: &mut Rng, any: bool) -> Node {
    let mut v: Vec<(u64, Node)> = ws.iter().map(|(l, w)| (*w, Node::Leaf(*l))).collect();
    while v.len() > 1 {
        rng.shuffle(&mut v);
        if !any { v.sort_by_key(|x| Reverse(x.0)); }
        let a = v.pop().unwrap(); let b = v.pop().unwrap();
        let j = if rng.chance(1, 2) { Node::Join(Box::new(a.1), Box::new(b.1)) } else { Node::Join(Box::new(b.1), Box::new(a.1)) };
        v.push((a.0 + b.0, j));
    }
    v.pop().unwrap().1
}
pub fn encode_with(tree: &Node, d: &[u8]) -> Vec<u8> {
    let mut t = Bits::new(); emit_tree(tree, &mut t);
    let mut codes: Vec<Option<Vec<bool>>> = vec![None; 256]; emit_codes(tree, vec![], &mut codes);
    let mut x = Bits::new();
    for b in d { for c in codes[*b as usize].as_ref().unwrap() { x.push(*c) } }
    let mut out = vec![(((8 - t.n % 8) % 8) as u8) << 4 | ((8 - x.n % 8) % 8) as u8];
    out.extend((t.bytes.len() as u32).to_be_bytes()); out.extend(t.bytes); out.extend(x.bytes);
    out
}
/// a valid archive of `d`, with random ties and possibly surplus letters or a non-optimal tree
pub fn encode(d: &[u8], rng: &mut Rng, surplus: usize, any: bool) -> Vec<u8> {
    let c = counts(d);
    let mut ws: Vec<(u8, u64)> = (0..256).filter(|i| c[*i] > 0).map(|i| (i as u8, c[i])).collect();
    for _ in 0..surplus { let b = rng.next() as u8; if !ws.iter().any(|x| x.0 == b) { ws.push((b, 1 + rng.below(20))) } }
    let t = tree_for(&ws, rng, any);
    encode_with(&t, d)
}
