//! C17: strict encoding of the types of commit_verify, against a grammar of the wire format written here.
use std::collections::BTreeMap;
use std::fmt::Debug;

use amplify::confinement::Confined;
use commit_verify::mpc::*;
use commit_verify::{MerkleHash, MerkleNode, NodeBranching, ReservedBytes, StrictHash};
use strict_encoding::{StreamReader, StrictDecode, StrictDeserialize, StrictEncode, StrictReader, StrictSerialize, StrictWriter};

use crate::check;
use crate::mpc::{any_entropy, msg, pid, rand_sparse, case_tree};
use crate::util::*;

#[derive(Clone)]
pub enum G {
    Raw(usize),                          // that many free bytes
    Below(u8),                           // one byte less than this
    Const(usize, u8),                    // that many bytes of one value
    Seq(Vec<G>),
    Sum(Vec<(u8, G)>),                   // tag, then the variant
    List(usize, u64, u64, Box<G>),       // length prefix width, min, max
    Map(usize, u64, usize, bool, Box<G>) // prefix width, max, key bytes, key read backwards when compared, value
}
fn le(n: u64, k: usize) -> Vec<u8> { n.to_le_bytes()[..k].to_vec() }
fn len_of(b: &[u8]) -> u64 { b.iter().rev().fold(0, |a, x| a << 8 | *x as u64) }
impl G {
    /// length of the value at the start of `b`
    fn parse(&self, b: &[u8]) -> Option<usize> {
        match self {
            G::Raw(n) => (b.len() >= *n).then_some(*n),
            G::Below(m) => (!b.is_empty() && b[0] < *m).then_some(1),
            G::Const(n, v) => (b.len() >= *n && b[..*n].iter().all(|x| x == v)).then_some(*n),
            G::Seq(v) => { let mut p = 0; for g in v { p += g.parse(&b[p..])?; } Some(p) }
            G::Sum(v) => { let t = *b.first()?; let g = v.iter().find(|x| x.0 == t)?; Some(1 + g.1.parse(&b[1..])?) }
            G::List(k, min, max, g) => {
                if b.len() < *k { return None; }
                let n = len_of(&b[..*k]);
                if n < *min || n > *max { return None; }
                let mut p = *k;
                for _ in 0..n { p += g.parse(&b[p..])?; }
                Some(p)
            }
            G::Map(k, max, kb, rev, g) => {
                if b.len() < *k { return None; }
                let n = len_of(&b[..*k]);
                if n > *max { return None; }
                let mut p = *k;
                let mut last: Option<Vec<u8>> = None;
                for _ in 0..n {
                    if b.len() < p + kb { return None; }
                    let mut key = b[p..p + kb].to_vec();
                    if *rev { key.reverse(); }
                    if last.as_ref().is_some_and(|l| *l >= key) { return None; }
                    last = Some(key);
                    p += kb;
                    p += g.parse(&b[p..])?;
                }
                Some(p)
            }
        }
    }
    fn gen(&self, r: &mut Rng, deep: u64) -> Vec<u8> {
        match self {
            G::Raw(0) => vec![],
            G::Raw(n) => match r.below(6) { 0 => vec![0; *n], 1 => vec![0xFF; *n], 2 => { let mut v = vec![0; *n]; v[r.below(*n as u64) as usize] = r.next() as u8; v } _ => r.bytes(*n) },
            G::Below(m) => vec![match r.below(4) { 0 => 0, 1 => m - 1, _ => r.below(*m as u64) as u8 }],
            G::Const(n, v) => vec![*v; *n],
            G::Seq(v) => v.iter().flat_map(|g| g.gen(r, deep)).collect(),
            G::Sum(v) => { let x = &v[r.below(v.len() as u64) as usize]; let mut o = vec![x.0]; o.extend(x.1.gen(r, deep)); o }
            G::List(k, min, max, g) => {
                let n = match r.below(5) { 0 => *min, 1 if *max <= 1000 => *max, _ => min + r.below(deep.min(max - min) + 1) };
                let mut o = le(n, *k);
                for _ in 0..n { o.extend(g.gen(r, deep)); }
                o
            }
            G::Map(k, _, kb, rev, g) => {
                let n = if r.below(5) == 0 { 0 } else { r.below(deep + 1) };
                let mut m = BTreeMap::new();
                for _ in 0..n { m.insert(G::Raw(*kb).gen(r, deep), g.gen(r, deep)); }
                let mut o = le(m.len() as u64, *k);
                for (mut key, v) in m { if *rev { key.reverse(); } o.extend(key); o.extend(v); }
                o
            }
        }
    }
}
fn h32() -> G { G::Raw(32) }
fn u5() -> G { G::Below(32) }
fn method() -> G { G::Sum(vec![(0, G::Raw(0))]) }
fn leaf() -> G { G::Sum(vec![(0x10, G::Seq(vec![h32(), h32()])), (0x11, G::Seq(vec![G::Raw(8), G::Raw(4)]))]) }
fn tree_node() -> G { G::Sum(vec![(0, G::Seq(vec![u5(), h32()])), (1, G::Seq(vec![h32(), h32()]))]) }
fn block() -> G { G::Seq(vec![method(), u5(), G::Raw(2), G::List(4, 1, u32::MAX as u64, Box::new(tree_node())), G::Sum(vec![(0, G::Raw(0)), (1, G::Raw(8))])]) }
fn proof() -> G { G::Seq(vec![method(), G::Raw(4), G::Raw(2), G::List(1, 0, 32, Box::new(h32()))]) }
fn tree() -> G { G::Seq(vec![method(), u5(), G::Raw(8), G::Raw(2), G::Map(3, 0xFFFFFF, 32, false, Box::new(h32())), G::Map(3, 0xFFFFFF, 4, true, Box::new(G::Seq(vec![h32(), h32()])))]) }
fn branching() -> G { G::Sum(vec![(0, G::Raw(0)), (1, G::Raw(0)), (2, G::Raw(0))]) }
fn node() -> G { G::Seq(vec![branching(), G::Raw(1), G::Raw(32), h32(), h32()]) }

fn show(b: &[u8]) -> String { if b.len() > 3000 { format!("{}… ({} bytes)", hex(&b[..3000]), b.len()) } else { hex(b) } }
/// what the decoder says: the value and how much it read
fn read<T: StrictDecode>(b: &[u8]) -> Option<(T, usize)> {
    let mut r = StrictReader::with(StreamReader::in_memory::<{ usize::MAX }>(b));
    let t = T::strict_decode(&mut r).ok()?;
    Some((t, r.into_cursor().position() as usize))
}
/// writes into a buffer which can only take so much
fn write_max<T: StrictEncode>(t: &T) -> Option<Vec<u8>> {
    let w = StrictWriter::in_memory::<{ usize::MAX }>();
    Some(t.strict_encode(w).ok()?.unbox().unconfine())
}
fn value<T: StrictEncode + StrictDecode + PartialEq + Debug>(c: &mut Ctx, name: &str, v: &T) -> Result<Vec<u8>, Fail> {
    c.cases += 1;
    let inp = || format!("{name} {}", { let s = format!("{v:?}"); s.chars().take(3000).collect::<String>() });
    let b = match run(&inp, "serialization", || write_max(v))? { Some(b) => b, None => return fail(inp(), "serialization to memory failed") };
    let x = run(&inp, "decoding", || read::<T>(&b))?;
    match x {
        None => fail(inp(), format!("its serialization is not accepted: {}", show(&b))),
        Some((x, n)) => {
            check!(x == *v, inp(), "its serialization {} decodes to another value: {}", show(&b), { let s = format!("{x:?}"); s.chars().take(3000).collect::<String>() });
            check!(n == b.len(), inp(), "its serialization {} is not read whole ({n} bytes)", show(&b));
            Ok(b)
        }
    }
}
/// `b` against the grammar
fn bytes<T: StrictEncode + StrictDecode + PartialEq + Debug>(c: &mut Ctx, name: &str, g: &G, b: &[u8]) -> R {
    c.cases += 1;
    let inp = || format!("{name} read from {}", show(b));
    let want = g.parse(b);
    let got = run(&inp, "decoding", || read::<T>(b))?;
    match (want, &got) {
        (None, None) => Ok(()),
        (None, Some(_)) => fail(inp(), "bytes which are no value are accepted"),
        (Some(_), None) => fail(inp(), "a value is not accepted"),
        (Some(n), Some((v, m))) => {
            check!(n == *m, inp(), "{m} bytes read instead of {n}");
            let e = value(c, name, v)?;
            check!(e == b[..n], inp(), "written back as {}", show(&e));
            Ok(())
        }
    }
}
/// positions of length prefixes must not become huge: decoders allocate what the prefix says
fn sane(g: &G, b: &[u8]) -> bool {
    match g {
        G::Seq(v) => { let mut p = 0; for x in v { if !sane(x, &b[p.min(b.len())..]) { return false; } match x.parse(&b[p.min(b.len())..]) { Some(n) => p += n, None => return true } } true }
        G::List(k, ..) | G::Map(k, ..) => b.len() < *k || len_of(&b[..*k]) < 1 << 16,
        _ => true,
    }
}
fn family<T: StrictEncode + StrictDecode + PartialEq + Debug>(c: &mut Ctx, name: &str, g: G) -> R {
    let n = c.n(150, 4000);
    // every first byte and every single byte
    for t in 0..=255u8 { let mut b = g.gen(&mut c.rng, 2); if !b.is_empty() { b[0] = t; if sane(&g, &b) { bytes::<T>(c, name, &g, &b)?; } } }
    for i in 0..n {
        let b = g.gen(&mut c.rng, if i % 16 == 0 { 40 } else { 4 });
        bytes::<T>(c, name, &g, &b)?;
        // cut short
        for _ in 0..3 { let k = c.rng.below(b.len() as u64 + 1) as usize; bytes::<T>(c, name, &g, &b[..k])?; }
        if !b.is_empty() { bytes::<T>(c, name, &g, &b[..b.len() - 1])?; }
        // followed by more
        let mut t = b.clone();
        let k = 1 + c.rng.below(3) as usize; t.extend(c.rng.bytes(k));
        bytes::<T>(c, name, &g, &t)?;
        check!(dec::<T>(&t).is_none(), format!("{name} read from {}", show(&t)), "trailing bytes are accepted");
        // changed
        for _ in 0..6 {
            let mut m = t.clone();
            let p = if c.rng.flip() { c.rng.below(m.len() as u64) } else { c.rng.below((m.len() as u64).min(16)) } as usize;
            m[p] = match c.rng.below(4) { 0 => m[p].wrapping_add(1), 1 => m[p].wrapping_sub(1), 2 => 1 << c.rng.below(8), _ => c.rng.next() as u8 };
            if sane(&g, &m) { bytes::<T>(c, name, &g, &m)?; }
        }
    }
    Ok(())
}
fn whole<const MAX: usize>(c: &mut Ctx, b: &MerkleBlock) -> R {
    c.cases += 1;
    let inp = || format!("block {} in at most {MAX} bytes", show(&enc(b)));
    let want = enc(b);
    let s = run(&inp, "serialization", || b.to_strict_serialized::<MAX>())?;
    match s {
        Err(_) => check!(want.len() > MAX, inp(), "serialization of {} bytes refused", want.len()),
        Ok(s) => {
            check!(s.as_slice() == &want[..], inp(), "serialized differently");
            check!(run(&inp, "decoding", || MerkleBlock::from_strict_serialized::<MAX>(s.clone()).ok())?.as_ref() == Some(b), inp(), "not read back");
            let mut l = s.to_vec(); l.push(c.rng.next() as u8);
            if let Ok(l) = Confined::<Vec<u8>, 0, MAX>::try_from(l) { check!(run(&inp, "decoding", || MerkleBlock::from_strict_serialized::<MAX>(l).is_err())?, inp(), "a byte too much is accepted"); }
            let mut l = s.to_vec(); l.pop();
            if let Ok(l) = Confined::<Vec<u8>, 0, MAX>::try_from(l) { check!(run(&inp, "decoding", || MerkleBlock::from_strict_serialized::<MAX>(l).is_err())?, inp(), "a byte too few is accepted"); }
        }
    }
    Ok(())
}
pub fn c17(c: &mut Ctx) -> R {
    family::<ProtocolId>(c, "ProtocolId", h32())?;
    family::<Message>(c, "Message", h32())?;
    family::<Commitment>(c, "Commitment", h32())?;
    family::<MerkleHash>(c, "MerkleHash", h32())?;
    family::<StrictHash>(c, "StrictHash", h32())?;
    family::<Method>(c, "Method", method())?;
    family::<Leaf>(c, "Leaf", leaf())?;
    family::<NodeBranching>(c, "NodeBranching", branching())?;
    family::<MerkleNode>(c, "MerkleNode", node())?;
    family::<MerkleConcealed>(c, "MerkleConcealed", G::Seq(vec![u5(), G::Raw(2), h32()]))?;
    family::<MerkleProof>(c, "MerkleProof", proof())?;
    family::<MerkleBlock>(c, "MerkleBlock", block())?;
    family::<MerkleTree>(c, "MerkleTree", tree())?;
    family::<ReservedBytes<1>>(c, "ReservedBytes<1>", G::Const(1, 0))?;
    family::<ReservedBytes<8, 0>>(c, "ReservedBytes<8>", G::Const(8, 0))?;
    family::<ReservedBytes<3, 0xA5>>(c, "ReservedBytes<3, 0xA5>", G::Const(3, 0xA5))?;
    // atoms made of a byte slice
    for n in (0..80usize).chain([255, 256, 1000, 65568, (1 << 16) + 32]) { for _ in 0..4 {
        c.cases += 1;
        let v: Vec<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
        let got = [ProtocolId::copy_from_slice(&v).ok().map(|x| x[..].to_vec()), Message::copy_from_slice(&v).ok().map(|x| x[..].to_vec()), Commitment::copy_from_slice(&v).ok().map(|x| x[..].to_vec())];
        for g in got { check!(g == if n == 32 { Some(v.clone()) } else { None }, format!("slice of {n} bytes: {v:02x?}"), "copy_from_slice gives {g:02x?}"); }
    } }
    // what the library itself produces
    for i in 0..c.n(60, 1500) {
        let (_, t, m) = case_tree(&mut c.rng, i as u64, if i % 10 == 0 { 60 } else { 8 }, 8);
        value(c, "MerkleTree", &t)?;
        let full = MerkleBlock::from(&t);
        value(c, "MerkleBlock", &full)?;
        whole::<64>(c, &full)?; whole::<{ u16::MAX as usize }>(c, &full)?; whole::<{ u32::MAX as usize }>(c, &full)?;
        for p in m.keys().take(3) {
            let mut b = full.clone();
            if let Ok(pr) = b.to_merkle_proof(pid(*p)) { value(c, "MerkleProof", &pr)?; }
            if b.conceal_except([pid(*p)]).is_ok() { value(c, "MerkleBlock", &b)?; }
            value(c, "Leaf", &Leaf::inhabited(pid(*p), msg(m[p])))?;
        }
        let (e, p) = (any_entropy(&mut c.rng), c.rng.next() as u32);
        value(c, "Leaf", &Leaf::entropy(e, p))?;
        let (_, _, b) = rand_sparse(&mut c.rng, 4);
        value(c, "MerkleBlock", &b)?;
    }
    Ok(())
}
