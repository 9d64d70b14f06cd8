//! C01-C08, C18, C19, C21 against the reference.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, LargeOrdSet, LargeVec, MediumOrdMap, SmallOrdSet, SmallVec, TinyOrdSet, TinyVec};
use amplify::num::{u256, u5};
use commit_verify::mpc::{self, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, Message, Method, MultiSource, Proof, ProtocolId};
use commit_verify::{CommitId, Conceal, MerkleBuoy, MerkleHash, MerkleLeaves, MerkleNode, NodeBranching, TryCommitVerify};
use strict_encoding::StrictEncode;

use crate::check;
use crate::reference as r;
use crate::reference::{Item, RErr, RTree, GT, H};
use crate::util::*;

pub fn pid(h: H) -> ProtocolId { ProtocolId::from(h) }
pub fn msg(h: H) -> Message { Message::from(h) }
pub fn raw_pid(p: &ProtocolId) -> H { enc(p).try_into().unwrap() }
pub fn raw<T: StrictEncode>(p: &T) -> H { enc(p).try_into().unwrap() }
pub fn num(n: u128) -> H { let mut b = [0u8; 32]; b[..16].copy_from_slice(&n.to_le_bytes()); b }

// ---------------------------------------------------------------- private state through its serialization
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blk { pub method: u8, pub depth: u8, pub cofactor: u16, pub cs: Vec<Item>, pub entropy: Option<u64> }
pub fn read_block(b: &MerkleBlock) -> Blk {
    let v = enc(b);
    let mut p = 0usize;
    let mut take = |n: usize| { p += n; v[p - n..p].to_vec() };
    let method = take(1)[0];
    let depth = take(1)[0];
    let cofactor = u16::from_le_bytes(take(2).try_into().unwrap());
    let n = u32::from_le_bytes(take(4).try_into().unwrap());
    let cs = (0..n).map(|_| match take(1)[0] {
        0 => { let d = take(1)[0]; Item::Hidden(d, take(32).try_into().unwrap()) }
        1 => { let a = take(32).try_into().unwrap(); Item::Leaf(a, take(32).try_into().unwrap()) }
        x => panic!("unknown node tag {x} in a serialized block"),
    }).collect();
    let entropy = match take(1)[0] { 0 => None, _ => Some(u64::from_le_bytes(take(8).try_into().unwrap())) };
    Blk { method, depth, cofactor, cs, entropy }
}
pub fn make_block(b: &Blk) -> Option<MerkleBlock> {
    let mut v = vec![b.method, b.depth];
    v.extend(b.cofactor.to_le_bytes());
    v.extend((b.cs.len() as u32).to_le_bytes());
    for i in &b.cs {
        match i {
            Item::Hidden(d, h) => { v.push(0); v.push(*d); v.extend(h); }
            Item::Leaf(p, m) => { v.push(1); v.extend(p); v.extend(m); }
        }
    }
    match b.entropy { None => v.push(0), Some(e) => { v.push(1); v.extend(e.to_le_bytes()); } }
    dec(&v)
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Prf { pub pos: u32, pub cofactor: u16, pub path: Vec<H> }
pub fn read_proof(p: &MerkleProof) -> Prf { Prf { pos: p.pos(), cofactor: p.cofactor(), path: p.as_path().iter().map(raw).collect() } }
pub fn make_proof(p: &Prf) -> Option<MerkleProof> {
    let mut v = vec![0u8];
    v.extend(p.pos.to_le_bytes());
    v.extend(p.cofactor.to_le_bytes());
    v.push(p.path.len() as u8);
    for h in &p.path { v.extend(h); }
    dec(&v)
}
/// (depth, entropy, cofactor, messages, slots)
pub fn read_tree(t: &MerkleTree) -> (RTree, BTreeMap<H, H>, u8) {
    let v = enc(t);
    let mut p = 0usize;
    let mut take = |n: usize| { p += n; v[p - n..p].to_vec() };
    let method = take(1)[0];
    let depth = take(1)[0];
    let entropy = u64::from_le_bytes(take(8).try_into().unwrap());
    let cofactor = u16::from_le_bytes(take(2).try_into().unwrap());
    let n = take(3);
    let n = n[0] as usize | (n[1] as usize) << 8 | (n[2] as usize) << 16;
    let msgs = (0..n).map(|_| (take(32).try_into().unwrap(), take(32).try_into().unwrap())).collect();
    let n = take(3);
    let n = n[0] as usize | (n[1] as usize) << 8 | (n[2] as usize) << 16;
    let slots = (0..n).map(|_| (u32::from_le_bytes(take(4).try_into().unwrap()), (take(32).try_into().unwrap(), take(32).try_into().unwrap()))).collect();
    (RTree { depth, cofactor, entropy, slots }, msgs, method)
}
pub fn make_tree(t: &RTree) -> Option<MerkleTree> {
    let mut v = vec![0u8, t.depth];
    v.extend(t.entropy.to_le_bytes());
    v.extend(t.cofactor.to_le_bytes());
    let msgs: BTreeMap<H, H> = t.slots.values().copied().collect();
    v.extend(&(msgs.len() as u32).to_le_bytes()[..3]);
    for (p, m) in &msgs { v.extend(p); v.extend(m); }
    v.extend(&(t.slots.len() as u32).to_le_bytes()[..3]);
    for (s, (p, m)) in &t.slots { v.extend(s.to_le_bytes()); v.extend(p); v.extend(m); }
    dec(&v)
}
pub fn source(min_depth: u8, msgs: &BTreeMap<H, H>, e: Option<u64>) -> MultiSource {
    MultiSource {
        method: Method::Sha256t,
        min_depth: u5::with(min_depth),
        messages: MediumOrdMap::try_from_iter(msgs.iter().map(|(p, m)| (pid(*p), msg(*m)))).unwrap(),
        static_entropy: e,
    }
}
pub fn show_msgs(m: &BTreeMap<H, H>) -> String {
    if m.len() > 40 { return format!("{} messages, first {}", m.len(), m.iter().take(3).map(|(p, q)| format!("{}=>{}", hex(p), hex(q))).collect::<Vec<_>>().join(",")); }
    m.iter().map(|(p, q)| format!("{}=>{}", hex(p), hex(q))).collect::<Vec<_>>().join(",")
}
fn show_set(m: &BTreeSet<H>) -> String { m.iter().map(|p| hex(p)).collect::<Vec<_>>().join(",") }

/// entropies: the extremes as often as the rest
pub fn any_entropy(rng: &mut Rng) -> u64 { match rng.below(6) { 0 => 0, 1 => u64::MAX, 2 => 1 << rng.below(64), 3 => rng.below(300), _ => rng.next() } }
/// A section of a deep tree, of which only some leaves are known and the rest is merged: (tree without hidden slots, section, block).
pub fn rand_sparse(rng: &mut Rng, max_known: u64) -> (RTree, GT, MerkleBlock) {
    for _ in 0..2000 {
        let depth = if rng.below(3) == 0 { 1 + rng.below(15) } else { 15 + rng.below(17) } as u8;
        let cofactor = match rng.below(4) { 0 | 1 => 0, 2 => rng.below(501) as u16, _ => 1 };
        let w = (1u64 << depth).saturating_sub(cofactor as u64).max(1);
        let mut slots = BTreeMap::new();
        let n = 1 + rng.below(max_known);
        let base = rng.below(w);
        for i in 0..n {
            let s = match rng.below(4) { 0 => (base + i) % w, 1 => w - 1 - rng.below(w.min(5)), 2 => rng.below(w.min(5)), _ => rng.below(w) };
            let p = num(s as u128 + w as u128 * rng.below(1 << 40) as u128);
            slots.insert(r::slot(&p, cofactor, depth), (p, rng.bytes32()));
        }
        fn go(rng: &mut Rng, slots: &BTreeMap<u32, (H, H)>, d: u8, depth: u8, at: u64) -> GT {
            let size = 1u64 << (depth - d);
            if slots.range(at as u32..=(at + size - 1) as u32).next().is_none() { return GT::Hidden(rng.bytes32()); }
            if d == depth { let (p, m) = slots[&(at as u32)]; return GT::Leaf(p, m); }
            let a = go(rng, slots, d + 1, depth, at);
            GT::Node(Box::new(a), Box::new(go(rng, slots, d + 1, depth, at + size / 2)))
        }
        let gt = go(rng, &slots, 0, depth, 0);
        let entropy = if rng.flip() { None } else { Some(any_entropy(rng)) };
        let rt = RTree { depth, cofactor, entropy: entropy.unwrap_or(0), slots };
        if let Some(b) = make_block(&Blk { method: 0, depth, cofactor, cs: gt.items(), entropy }) { return (rt, gt, b); }
    }
    panic!("no block is read from its published encoding any more")
}

/// Random message maps: small ids (dense), large ids, ids sharing residues.
pub fn rand_msgs(rng: &mut Rng, max: u64) -> BTreeMap<H, H> {
    let n = rng.below(max + 1);
    let style = rng.below(5);
    let mut m = BTreeMap::new();
    let step = 1u128 << rng.below(40);
    for _ in 0..n {
        let p = match style {
            0 => rng.bytes32(),
            1 => num(rng.below(2 * max + 2) as u128),
            2 => num(step * rng.below(2 * max + 2) as u128),
            3 => { let mut b = [0u8; 32]; b[31] = rng.next() as u8; b[16] = rng.next() as u8; b[0] = rng.below(4) as u8; b }
            _ => if rng.flip() { rng.bytes32() } else { num(rng.below(64) as u128) },
        };
        let q = if rng.below(4) == 0 { [rng.below(3) as u8; 32] } else { rng.bytes32() };
        m.insert(p, q);
    }
    m
}
/// A tree small enough to be laid out, together with its reference form.
pub fn rand_tree(rng: &mut Rng, max_msgs: u64, max_depth: u8) -> (RTree, MerkleTree, BTreeMap<H, H>) {
    let mut refused = 0;
    while refused < 200 {
        let min = rng.below(max_depth as u64 + 1) as u8;
        let m = rand_msgs(rng, max_msgs);
        let e = any_entropy(rng);
        if m.is_empty() && min == 0 { continue; }
        if let Ok(t) = r::try_commit(min, &m, e) {
            if t.depth > max_depth { continue; }
            if let Some(x) = make_tree(&t) { return (t, x, m); }
            refused += 1;
        }
    }
    panic!("no tree is read from its published encoding any more")
}
/// the first two cases are trees with more messages than fit 8 and 10 bits, on consecutive slots; the others are random
pub fn case_tree(rng: &mut Rng, i: u64, max_msgs: u64, max_depth: u8) -> (RTree, MerkleTree, BTreeMap<H, H>) {
    let n = match i { 0 => 257 + rng.below(120), 1 => 1025 + rng.below(100), _ => return rand_tree(rng, max_msgs, max_depth) };
    let base = rng.below(1 << 40) as u128;
    let m: BTreeMap<H, H> = (0..n as u128).map(|k| (num(base + k), rng.bytes32())).collect();
    if let Ok(t) = r::try_commit(0, &m, any_entropy(rng)) { if let Some(x) = make_tree(&t) { return (t, x, m); } }
    rand_tree(rng, max_msgs, max_depth)
}
fn in_tree(t: &RTree) -> String {
    format!("tree depth={} cofactor={} entropy={} slots=[{}]", t.depth, t.cofactor, t.entropy,
        t.slots.iter().take(64).map(|(s, (p, m))| format!("{s}:{}=>{}", hex(p), hex(m))).collect::<Vec<_>>().join(","))
}
/// `in_tree` plus a set of kept protocols
fn in_tree_set(t: &RTree, s: &BTreeSet<H>) -> String { format!("{}; protocols [{}]", in_tree(t), show_set(s)) }

// ---------------------------------------------------------------- C01
fn c01_one<L: MerkleLeaves>(c: &mut Ctx, kind: &str, n: usize, v: &L, want: H) -> R {
    c.cases += 1;
    let d = format!("{kind} of {n} leaves");
    let got = run(&|| d.clone(), "merklize", || raw(&MerkleHash::merklize(v)))?;
    check!(got == want, d, "merkle root is {} instead of {}", hex(&got), hex(&want));
    Ok(())
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Lf(u64);
impl commit_verify::CommitEncode for Lf {
    type CommitmentId = MerkleHash;
    fn commit_encode(&self, e: &mut commit_verify::CommitEngine) {
        e.commit_to_serialized(&Leaf::entropy(self.0, 7));
    }
}
pub fn c01(c: &mut Ctx) -> R {
    let lim = c.n(700, 2100) as usize;
    let leaf = |x: u64| r::entropy(x, 7);
    let mk = |c: &mut Ctx, n: usize, dup: bool| -> Vec<u64> { let mut v: Vec<u64> = (0..n).map(|_| if dup { c.rng.below(3) } else { c.rng.next() }).collect(); if !dup { v.dedup(); } v };
    for n in (0..=lim).chain([1023, 1024, 1025, 4095, 4097, 65534, 65535].into_iter().filter(|n| *n > lim)) {
        let xs = mk(c, n, n % 5 == 1);
        let hs: Vec<H> = xs.iter().map(|x| leaf(*x)).collect();
        let want = r::merkle_root(&hs);
        let ls: Vec<Lf> = xs.iter().map(|x| Lf(*x)).collect();
        if n <= 255 { c01_one(c, "TinyVec", n, &TinyVec::try_from(ls.clone()).unwrap(), want)?; }
        c01_one(c, "SmallVec", n, &SmallVec::try_from(ls.clone()).unwrap(), want)?;
        c01_one(c, "LargeVec", n, &LargeVec::try_from(ls.clone()).unwrap(), want)?;
        let set: BTreeSet<Lf> = ls.iter().copied().collect();
        let sw = r::merkle_root(&set.iter().map(|x| leaf(x.0)).collect::<Vec<_>>());
        if set.len() <= 255 { c01_one(c, "TinyOrdSet", set.len(), &TinyOrdSet::try_from(set.clone()).unwrap(), sw)?; }
        c01_one(c, "SmallOrdSet", set.len(), &SmallOrdSet::try_from(set.clone()).unwrap(), sw)?;
        c01_one(c, "LargeOrdSet", set.len(), &LargeOrdSet::try_from(set).unwrap(), sw)?;
    }
    for n in [65536usize, 65537, 100_003, 262_145, 1_000_001].into_iter().take(c.n(4, 5) as usize) {
        let xs = mk(c, n, false);
        let want = r::merkle_root(&xs.iter().map(|x| leaf(*x)).collect::<Vec<_>>());
        c01_one(c, "LargeVec", n, &LargeVec::try_from(xs.iter().map(|x| Lf(*x)).collect::<Vec<_>>()).unwrap(), want)?;
    }
    for i in 0..c.n(400, 4000) {
        c.cases += 1;
        let (a, b) = (c.rng.bytes32(), c.rng.bytes32());
        let d = (i % 256) as u8;
        let w = if i % 3 == 0 { c.rng.next() } else { 1 << c.rng.below(33) };
        let inp = format!("depth {d}, width {w}, nodes {} {}", hex(&a), hex(&b));
        let wu = u256::from(w);
        for (k, g, n1, n2) in [
            (2u8, raw(&MerkleHash::branches(d, wu, a.into(), b.into())), a, b),
            (1, raw(&MerkleHash::single(d, wu, a.into())), a, r::VLEAF),
            (0, raw(&MerkleHash::void(d, wu)), r::VLEAF, r::VLEAF),
        ] {
            check!(g == r::tagged(r::NODE_TAG, &r::node_bytes(k, d, w, n1, n2)), inp, "node of kind {k} hashes to {}", hex(&g));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02
fn c02_one(c: &mut Ctx, min: u8, m: &BTreeMap<H, H>, e: Option<u64>) -> R {
    c.cases += 1;
    let d = || format!("min_depth={min}, static entropy {e:?}, messages [{}]", show_msgs(m));
    let got = run(&d, "try_commit", || MerkleTree::try_commit(&source(min, m, e)))?;
    let want = r::try_commit(min, m, e.unwrap_or(0));
    match (got, want) {
        (Ok(t), Ok(mut w)) => {
            let (g, msgs, method) = read_tree(&t);
            if e.is_none() { w.entropy = g.entropy; }
            check!(g.depth == w.depth && g.cofactor == w.cofactor, d(), "tree has depth {} and cofactor {} instead of {} and {}", g.depth, g.cofactor, w.depth, w.cofactor);
            check!(g.entropy == w.entropy, d(), "tree has entropy {}", g.entropy);
            check!(g.slots == w.slots, d(), "slots hold {}", in_tree(&g));
            check!(msgs == *m && method == 0, d(), "message map or method differs from the source");
            check!(t.depth().to_u8() == w.depth && t.cofactor() == w.cofactor && t.entropy() == w.entropy, d(), "accessors disagree");
            check!(t.width_limit() == 1u32 << w.depth, d(), "width limit {}", t.width_limit());
            check!(t.factored_width() as u64 == (1u64 << w.depth).saturating_sub(w.cofactor as u64), d(), "factored width");
            for p in m.keys() {
                let s = run(&d, "protocol_id_pos", || t.protocol_id_pos(pid(*p)))?;
                check!(s == r::slot(p, w.cofactor, w.depth), d(), "slot of {} is {s}", hex(p));
            }
        }
        (Err(mpc::Error::Empty), Err(RErr::Empty)) => {}
        (Err(mpc::Error::CantFitInMaxSlots(n)), Err(RErr::CantFit(k))) if n == k => {}
        (g, w) => { let w = w.map(|w| in_tree(&w)); return fail(d(), format!("outcome is {:?} instead of {:?}", g.map(|t| in_tree(&read_tree(&t).0)), w)); }
    }
    Ok(())
}
/// ids which collide for every cofactor in `cfs` at depth `d`
fn colliding(rng: &mut Rng, d: u8, cfs: std::ops::RangeInclusive<u16>, m: &mut BTreeMap<H, H>) {
    for cf in cfs {
        let w = (1u64 << d).saturating_sub(cf as u64).max(1) as u128;
        let base = rng.next() as u128;
        m.insert(num(base), rng.bytes32());
        m.insert(num(base + w * (1 + rng.below(3) as u128)), rng.bytes32());
    }
}
pub fn c02(c: &mut Ctx) -> R {
    c02_one(c, 0, &BTreeMap::new(), Some(1))?;
    for d in 1..=31 { c02_one(c, d, &BTreeMap::new(), Some(c.rng.clone().next()))?; }
    // every pair / triple of small ids
    for a in 0..12u128 { for b in 0..12u128 { for k in [0u128, 3, 8, 40] {
        let m: BTreeMap<H, H> = [(num(a), [1; 32]), (num(b + k), [2; 32]), (num(a + b + 2 * k), [3; 32])].into();
        for min in 0..4 { c02_one(c, min, &m, Some(5))?; }
    } } }
    for i in 0..c.n(1500, 30000) {
        let max = [3, 8, 20, 60, 200][(i % 5) as usize];
        let m = rand_msgs(&mut c.rng, max);
        let min = if i % 3 == 0 { c.rng.below(32) } else { c.rng.below(6) } as u8;
        let e = if i % 7 == 0 { None } else { Some(any_entropy(&mut c.rng)) };
        c02_one(c, min, &m, e)?;
    }
    // deep fall-through: all cofactors of a depth collide but the last / none but the one after the last
    for d in [2u8, 3, 5, 8, 9, 10, 11, 12, 14, 20, 30, 31].into_iter() {
        for last in [0u16, 1, 7, 8, 255, 256, 498, 499, 500, 501] {
            let mut m = BTreeMap::new();
            let mut rng = c.rng.clone();
            c.rng.next();
            colliding(&mut rng, d, 0..=last, &mut m);
            if m.len() as u64 > 1 << d { continue; }
            c02_one(c, d, &m, Some(9))?;
            if d > 0 { c02_one(c, d - 1, &m, Some(9))?; }
        }
    }
    // more messages than fit into 16 bits
    for n in [65535u128, 65536, 65537, 131073].into_iter().take(c.n(3, 4) as usize) {
        let from = c.rng.next() as u128;
        let m: BTreeMap<H, H> = (0..n).map(|k| (num(from + k), c.rng.bytes32())).collect();
        c02_one(c, 0, &m, Some(11))?;
    }
    for n in [(1u32 << 20) + 1, (1 << 23) + 1].into_iter().take(c.n(1, 2) as usize) {
        c.cases += 1;
        let d = || format!("{n} messages for the protocols 0, 1, ...");
        let messages = MediumOrdMap::try_from_iter((0..n).map(|k| (pid(num(k as u128)), msg(num(k as u128 ^ 5))))).unwrap();
        let t = run(&d, "try_commit", || MerkleTree::try_commit(&MultiSource { method: Method::Sha256t, min_depth: u5::with(0), messages, static_entropy: Some(3) }))?;
        check!(matches!(&t, Ok(t) if 1 << t.depth().to_u8() == n.next_power_of_two() && t.cofactor() == 0), d(), "outcome is {:?}", t.map(|t| (t.depth(), t.cofactor())));
    }
    // nothing fits
    for _ in 0..c.n(1, 4) {
        let mut m = BTreeMap::new();
        let mut rng = c.rng.clone();
        c.rng.next();
        colliding(&mut rng, 31, 0..=500, &mut m);
        colliding(&mut rng, 30, 0..=500, &mut m);
        c02_one(c, 31, &m, Some(2))?;
        c02_one(c, 30, &m, Some(2))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
/// matching with a tree which differs in one field
fn neighbour(c: &mut Ctx, rt: &RTree, t: &MerkleTree, b: &MerkleBlock) -> R {
    // a neighbour tree: one field changed
    let mut o = rt.clone();
    let d = || in_tree(rt);
    let id = rt.id();
    match c.rng.below(5) {
        0 => o.entropy ^= 1 << c.rng.below(64),
        1 => o.cofactor ^= 1 << c.rng.below(9),
        2 => if let Some((_, x)) = o.slots.iter_mut().next() { x.1[c.rng.below(32) as usize] ^= 1 },
        3 => if let Some((k, v)) = o.slots.pop_last() { if k > 0 && !o.slots.contains_key(&(k - 1)) { o.slots.insert(k - 1, v); } },
        _ => { o.slots.pop_first(); }
    }
    if let Some(u) = make_tree(&o) {
        if o.cofactor as u64 <= 1u64 << o.depth {
            let same = o.id() == id;
            check!(t.matches(&u) == same && u.matches(&t) == same, format!("{}; other {}", d(), in_tree(&o)), "match of trees is {} though ids are equal: {same}", t.matches(&u));
            let ub = MerkleBlock::from(&u);
            check!(b.matches(&ub) == same, format!("{}; other {}", d(), in_tree(&o)), "match of blocks is {} though ids are equal: {same}", b.matches(&ub));
        }
    }
    Ok(())
}
pub fn c03(c: &mut Ctx) -> R {
    let mut prev: Option<(MerkleTree, MerkleBlock, H)> = None;
    for i in 0..c.n(700, 6000) {
        c.cases += 1;
        let (deep, mm) = if i % 40 == 0 { (12, 300) } else if i % 9 == 0 { (9, 60) } else { (5, 12) };
        let (rt, made, m) = case_tree(&mut c.rng, i as u64, mm, deep);
        let d = || in_tree(&rt);
        let t = if i % 2 == 0 { made } else {
            match run(&d, "try_commit", || MerkleTree::try_commit(&source(rt.depth, &m, Some(rt.entropy))))? { Ok(t) => t, Err(_) => made }
        };
        // a decoded tree may have any cofactor
        let t = if i % 5 != 4 { t } else { let (mut o, _, _) = read_tree(&t); o.cofactor = c.rng.next() as u16; make_tree(&o).unwrap_or(t) };
        let (rt, _, _) = read_tree(&t);
        let d = || in_tree(&rt);
        let root = rt.root();
        let id = r::commit_id(rt.depth, rt.cofactor, root);
        let g = run(&d, "root", || raw(&t.root()))?;
        check!(g == root, d(), "root is {} instead of {}", hex(&g), hex(&root));
        let b = run(&d, "MerkleBlock::from", || MerkleBlock::from(&t))?;
        let k: MerkleConcealed = run(&d, "tree conceal", || t.conceal())?;
        let kb = run(&d, "block conceal", || b.conceal())?;
        check!(k == kb, d(), "tree and block conceal to different values");
        let want_k = { let mut v = vec![rt.depth]; v.extend(rt.cofactor.to_le_bytes()); v.extend(root); v };
        check!(enc(&k) == want_k, d(), "concealed form is {}", hex(&enc(&k)));
        for (n, g) in [
            ("tree", run(&d, "tree commit_id", || raw(&t.commit_id()))?),
            ("block", run(&d, "block commit_id", || raw(&b.commit_id()))?),
            ("concealed", run(&d, "concealed commit_id", || raw(&k.commit_id()))?),
            ("concealed twice", run(&d, "concealed commit_id", || raw(&k.conceal().commit_id()))?),
        ] { check!(g == id, d(), "commitment id of the {n} form is {} instead of {}", hex(&g), hex(&id)); }
        let bl = read_block(&b);
        let items: Vec<Item> = (0..1u32 << rt.depth).map(|p| match rt.slots.get(&p) { Some((p, m)) => Item::Leaf(*p, *m), None => Item::Hidden(rt.depth, r::entropy(rt.entropy, p)) }).collect();
        check!(bl == Blk { method: 0, depth: rt.depth, cofactor: rt.cofactor, cs: items, entropy: Some(rt.entropy) }, d(), "block of the tree is {bl:?}");
        check!(b == MerkleBlock::from(t.clone()), d(), "block from an owned tree differs");
        // matching
        check!(t.matches(&t.clone()) && b.matches(&b.clone()), d(), "does not match itself");
        // same commitment, different knowledge
        let mut b2 = b.clone();
        let keep: Vec<ProtocolId> = rt.slots.values().map(|x| pid(x.0)).filter(|_| c.rng.flip()).collect();
        if run(&d, "conceal_except", || b2.conceal_except(&keep))?.is_ok() {
            check!(b.matches(&b2) && b2.matches(&b), d(), "block does not match its concealed version");
        }
        neighbour(c, &rt, &t, &b)?;
        if let Some((pt, pb, pi)) = &prev {
            check!(pt.matches(&t) == (*pi == id) && pb.matches(&b) == (*pi == id), d(), "match with an unrelated tree");
        }
        prev = Some((t, b, id));
    }
    // wide trees: positions above 2^16
    for depth in if c.deep { vec![15u8, 16, 17, 18, 19] } else { vec![16, 17] } {
        c.cases += 1;
        let cofactor = c.rng.below(400) as u16;
        let slots = (0..20).map(|_| { let p = c.rng.bytes32(); (r::slot(&p, cofactor, depth), (p, c.rng.bytes32())) }).collect();
        let rt = RTree { depth, cofactor, entropy: any_entropy(&mut c.rng), slots };
        let d = || in_tree(&rt);
        let Some(t) = make_tree(&rt) else { continue };
        let hashes = rt.leaf_hashes();
        let root = r::merkle_root(&hashes);
        let g = run(&d, "root", || raw(&t.root()))?;
        check!(g == root, d(), "root is {} instead of {}", hex(&g), hex(&root));
        let b = run(&d, "MerkleBlock::from", || MerkleBlock::from(&t))?;
        let bl = read_block(&b);
        for (p, i) in bl.cs.iter().enumerate() {
            let want = match rt.slots.get(&(p as u32)) { Some((a, m)) => Item::Leaf(*a, *m), None => Item::Hidden(depth, hashes[p]) };
            check!(*i == want, d(), "slot {p} of the block of the tree is {i:?} instead of {want:?}");
        }
        check!(bl.cs.len() == 1 << depth && bl.depth == depth && bl.cofactor == cofactor && bl.entropy == Some(rt.entropy), d(), "block of the tree has other parameters");
        // the same tree with another cofactor: the root alone does not tell
        let mut o = rt.clone();
        o.cofactor = o.cofactor.wrapping_add(1);
        if let Some(u) = make_tree(&o) { check!(t.root() == u.root(), d(), "root depends on the cofactor"); }
    }
    // sections of deep trees
    for _ in 0..c.n(150, 3000) {
        c.cases += 1;
        let (rt, gt, b) = rand_sparse(&mut c.rng, 8);
        let d = || format!("{}; block {:?}", in_tree(&rt), read_block(&b));
        let id = r::commit_id(rt.depth, rt.cofactor, gt.hash(0, rt.depth));
        let g = run(&d, "block commit_id", || raw(&b.commit_id()))?;
        check!(g == id, d(), "commitment id of the block is {} instead of {}", hex(&g), hex(&id));
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
/// checks one concealing step; returns the new reference form
fn c04_step(c: &mut Ctx, rt: &RTree, gt: &GT, b: &mut MerkleBlock, ps: &[H], single: bool) -> Result<GT, Fail> {
    c.cases += 1;
    let before = read_block(b);
    let d = || format!("{}; block known [{}]; conceal except [{}]", in_tree(rt), show_set(&gt.known().keys().copied().collect()), ps.iter().map(|p| hex(p)).collect::<Vec<_>>().join(","));
    let id = r::commit_id(rt.depth, rt.cofactor, gt.hash(0, rt.depth));
    let res = if single { run(&d, "conceal_other", || b.conceal_other(pid(ps[0])))? } else {
        let v: Vec<ProtocolId> = ps.iter().map(|p| pid(*p)).collect();
        run(&d, "conceal_except", || b.conceal_except(&v).map(|_| ()))?
    };
    let after = read_block(b);
    let known = gt.known();
    let unknown: Vec<&H> = ps.iter().filter(|p| !known.contains_key(*p)).collect();
    check!(res.is_ok() == unknown.is_empty(), d(), "{} though unknown requested protocols are {:?}", if res.is_ok() { "succeeds" } else { "fails" }, unknown.iter().map(|p| hex(*p)).collect::<Vec<_>>());
    let g = run(&d, "commit_id", || raw(&b.commit_id()))?;
    check!(g == id, d(), "commitment id became {} instead of {}", hex(&g), hex(&id));
    check!(after.entropy.is_none() || res.is_err(), d(), "entropy is kept");
    check!((after.method, after.depth, after.cofactor) == (before.method, before.depth, before.cofactor), d(), "depth, cofactor or method changed");
    if let Err(e) = res {
        let t = e.to_string();
        check!(unknown.iter().any(|p| t.contains(&pid(**p).to_string())), d(), "the error names no unknown requested protocol: {t}");
        // nothing revealed, nothing moved
        for i in &after.cs { if let Item::Leaf(p, m) = i { check!(known.get(p) == Some(m), d(), "a failed concealing reveals {}", hex(p)); } }
        let k: Vec<Item> = after.cs.clone();
        return match parse(&k, rt.depth) { Some(x) => Ok(x), None => fail(d(), "block is not a tree section after failed concealing") };
    }
    let want = gt.reduce(0, rt.depth, &|p| ps.contains(p));
    check!(after.cs == want.items(), d(), "cross section is {:?} instead of {:?}", after.cs, want.items());
    Ok(want)
}
/// cross section -> tree
pub fn parse(cs: &[Item], depth: u8) -> Option<GT> {
    fn go(cs: &[Item], i: &mut usize, d: u8, depth: u8) -> Option<GT> {
        match cs.get(*i)? {
            Item::Leaf(p, m) if d == depth => { *i += 1; Some(GT::Leaf(*p, *m)) }
            Item::Hidden(x, h) if *x == d => { *i += 1; Some(GT::Hidden(*h)) }
            _ if d < depth => { let a = go(cs, i, d + 1, depth)?; Some(GT::Node(Box::new(a), Box::new(go(cs, i, d + 1, depth)?))) }
            _ => None,
        }
    }
    let mut i = 0;
    let t = go(cs, &mut i, 0, depth)?;
    if i == cs.len() { Some(t) } else { None }
}
fn pick(rng: &mut Rng, known: &BTreeMap<H, H>, extra: u64) -> Vec<H> {
    let mut v: Vec<H> = known.keys().copied().filter(|_| rng.flip()).collect();
    if extra > 0 && rng.below(4) == 0 { v.push(if rng.flip() { rng.bytes32() } else { num(rng.below(20) as u128) }); }
    if !v.is_empty() && rng.below(4) == 0 { let i = rng.below(v.len() as u64) as usize; let x = v[i]; v.push(x); }
    if v.len() > 1 && rng.flip() { let i = rng.below(v.len() as u64) as usize; v.swap(0, i); }
    v
}
/// small trees with every placement of leaves: returns one tree per non-empty mask
fn dense_tree(depth: u8, mask: u32, e: u64) -> RTree {
    let slots = (0..1u32 << depth).filter(|i| mask >> i & 1 == 1).map(|i| (i, (num(i as u128), [i as u8 + 1; 32]))).collect();
    RTree { depth, cofactor: 0, entropy: e, slots }
}
pub fn c04(c: &mut Ctx) -> R {
    // exhaustive: every leaf placement up to depth 2 (3 thorough: sampled masks), every kept set, plus one unknown id
    for depth in 0..=3u8 {
        let masks: Vec<u32> = if depth < 3 { (0..1u32 << (1 << depth)).collect() } else { (0..c.n(40, 256)).map(|i| if c.deep { i as u32 } else { c.rng.below(256) as u32 }).collect() };
        for mask in masks {
            let rt = dense_tree(depth, mask, 77);
            let Some(t) = make_tree(&rt) else { continue };
            let b0 = MerkleBlock::from(&t);
            let ids: Vec<H> = rt.slots.values().map(|x| x.0).collect();
            for keep in 0..1u32 << ids.len() {
                for unk in 0..2 {
                    let mut ps: Vec<H> = ids.iter().enumerate().filter(|(i, _)| keep >> i & 1 == 1).map(|x| *x.1).collect();
                    if unk == 1 { ps.push(num(200)); }
                    let mut b = b0.clone();
                    let gt = GT::of_tree(&rt);
                    let g2 = c04_step(c, &rt, &gt, &mut b, &ps, false)?;
                    if unk == 0 {
                        // conceal once more with fewer
                        let sub: Vec<H> = ps.iter().copied().filter(|_| c.rng.flip()).collect();
                        c04_step(c, &rt, &g2, &mut b, &sub, false)?;
                    }
                }
            }
        }
    }
    for i in 0..c.n(1200, 12000) {
        let (deep, mm) = if i % 30 == 0 { (10, 120) } else { (6, 16) };
        let (rt, t, _) = case_tree(&mut c.rng, i as u64, mm, deep);
        let full = GT::of_tree(&rt);
        let mut gt = full.clone();
        let mut b = MerkleBlock::from(&t);
        for _ in 0..1 + c.rng.below(3) {
            let known = gt.known();
            if known.len() == 0 && c.rng.flip() { break; }
            let ps = pick(&mut c.rng, &known, 1);
            let single = ps.len() == 1 && c.rng.flip();
            gt = c04_step(c, &rt, &gt, &mut b, &ps, single)?;
            if c.rng.below(3) == 0 {
                // merge something back in, then go on concealing
                let mut o = MerkleBlock::from(&t);
                let ps = pick(&mut c.rng, &full.known(), 0);
                let v: Vec<ProtocolId> = ps.iter().map(|p| pid(*p)).collect();
                if o.conceal_except(&v).is_ok() {
                    if guard(|| b.merge_reveal(o)).map(|r| r.is_ok()).unwrap_or(false) {
                        gt = match parse(&read_block(&b).cs, rt.depth) { Some(g) => g, None => break };
                    } else { break }
                }
            }
        }
    }
    // sections of deep trees
    for _ in 0..c.n(500, 6000) {
        let (rt, mut gt, mut b) = rand_sparse(&mut c.rng, 8);
        for _ in 0..1 + c.rng.below(2) {
            let ps = pick(&mut c.rng, &gt.known(), 1);
            let single = ps.len() == 1 && c.rng.flip();
            gt = c04_step(c, &rt, &gt, &mut b, &ps, single)?;
        }
    }
    // blocks of single proofs
    for _ in 0..c.n(300, 3000) {
        let len = c.rng.below(32) as u8;
        let cf = if c.rng.flip() { 0 } else { c.rng.below(600) as u16 };
        let p = c.rng.bytes32();
        let m = c.rng.bytes32();
        let prf = Prf { pos: r::slot(&p, cf, len), cofactor: cf, path: (0..len).map(|_| c.rng.bytes32()).collect() };
        let Some(proof) = make_proof(&prf) else { continue };
        let d = || format!("proof {prf:?} for {}", hex(&p));
        let Ok(mut b) = run(&d, "MerkleBlock::with", || MerkleBlock::with(&proof, pid(p), msg(m)))? else { continue };
        let Some(gt) = parse(&read_block(&b).cs, len) else { return fail(d(), "block of a proof is not a tree section") };
        let rt = RTree { depth: len, cofactor: cf, entropy: 0, slots: BTreeMap::new() };
        let ps = pick(&mut c.rng, &gt.known(), 1);
        c04_step(c, &rt, &gt, &mut b, &ps, false)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C05
pub fn c05(c: &mut Ctx) -> R {
    for i in 0..c.n(900, 8000) {
        c.cases += 1;
        let (deep, mm) = if i % 30 == 0 { (10, 60) } else { (6, 14) };
        let sparse = i % 3 == 2;
        let (rt, full, mut b, t) = if sparse { let (a, g, b) = rand_sparse(&mut c.rng, 6); (a, g, b, None) } else {
            let (rt, t, _) = case_tree(&mut c.rng, i as u64, mm, deep);
            let g = GT::of_tree(&rt);
            let b = MerkleBlock::from(&t);
            (rt, g, b, Some(t))
        };
        let id = r::commit_id(rt.depth, rt.cofactor, full.hash(0, rt.depth));
        let b0 = b.clone();
        let mut gt = full.clone();
        if i > 1 && c.rng.flip() {
            let ps = pick(&mut c.rng, &gt.known(), 0);
            let v: Vec<ProtocolId> = ps.iter().map(|p| pid(*p)).collect();
            if guard(|| b.conceal_except(&v)).map(|r| r.is_ok()).unwrap_or(false) { gt = gt.reduce(0, rt.depth, &|p| ps.contains(p)); } else { b = b0.clone(); }
        }
        let known = gt.known();
        let d = || format!("{}; known [{}]", in_tree(&rt), show_set(&known.keys().copied().collect()));
        let order: Vec<H> = gt.items().iter().filter_map(|i| if let Item::Leaf(p, _) = i { Some(*p) } else { None }).collect();
        let mut got: Vec<H> = b.known_protocol_ids().map(|p| raw_pid(&p)).collect();
        check!(got.iter().copied().collect::<BTreeSet<_>>() == known.keys().copied().collect() && got.len() == order.len(), d(), "known_protocol_ids lists {:?}", got.iter().map(|p| hex(p)).collect::<Vec<_>>());
        got.sort();
        let mm: BTreeMap<H, H> = run(&d, "to_known_message_map", || b.to_known_message_map())?.iter().map(|(p, m)| (raw_pid(p), raw(m))).collect();
        check!(mm == known, d(), "to_known_message_map is {}", show_msgs(&mm));
        let one = |p: &H, proof: &MerkleProof, how: &str| -> R {
            let x = read_proof(proof);
            let slot = r::slot(p, rt.cofactor, rt.depth);
            let want = Prf { pos: slot, cofactor: rt.cofactor, path: full.path(rt.depth, slot) };
            check!(x == want, format!("{}; {how} of {}", d(), hex(p)), "proof is {x:?} instead of {want:?}");
            check!(proof.depth().to_u8() == rt.depth && proof.width_limit() == 1u32 << rt.depth, d(), "proof depth or width");
            check!(proof.to_path() == proof.clone().into_path() && proof.to_path().as_unconfined().as_slice() == proof.as_path(), d(), "path accessors disagree");
            let r = run(&d, "convolve", || proof.convolve(pid(*p), msg(known[p])))?;
            check!(r.as_ref().ok().map(raw) == Some(id), format!("{}; {how} of {}", d(), hex(p)), "checking the proof yields {:?} instead of {}", r.map(|c| hex(&raw(&c))), hex(&id));
            Ok(())
        };
        let every = 1 + known.len() / 60;
        for p in known.keys().step_by(every) {
            match run(&d, "to_merkle_proof", || b.to_merkle_proof(pid(*p)))? { Ok(x) => one(p, &x, "to_merkle_proof")?, Err(e) => return fail(d(), format!("no proof for a known protocol {}: {e}", hex(p))) }
            match run(&d, "into_merkle_proof", || b.clone().into_merkle_proof(pid(*p)))? { Ok(x) => one(p, &x, "into_merkle_proof")?, Err(e) => return fail(d(), format!("no proof for a known protocol {}: {e}", hex(p))) }
        }
        let l: Vec<(ProtocolId, MerkleProof)> = run(&d, "into_known_proofs", || b.clone().into_known_proofs().collect())?;
        let ids: Vec<H> = l.iter().map(|x| raw_pid(&x.0)).collect();
        check!(ids.len() == known.len() && ids.iter().copied().collect::<BTreeSet<_>>() == known.keys().copied().collect(), d(), "into_known_proofs lists {:?}", ids.iter().map(|p| hex(p)).collect::<Vec<_>>());
        for (p, x) in l.iter().step_by(every) { one(&raw_pid(p), x, "into_known_proofs")?; }
        if let (Some(t), true) = (&t, known.len() == rt.slots.len() && (i != 1 || c.deep)) {
            let l: Vec<(ProtocolId, MerkleProof)> = run(&d, "into_proofs", || t.clone().into_proofs().collect())?;
            check!(l.len() == known.len() && l.iter().map(|x| raw_pid(&x.0)).collect::<BTreeSet<_>>() == known.keys().copied().collect(), d(), "into_proofs lists the wrong protocols");
            for (p, x) in l.iter().step_by(every) { one(&raw_pid(p), x, "into_proofs")?; }
        }
        let mut unknown = vec![c.rng.bytes32(), num(c.rng.below(30) as u128)];
        unknown.extend(rt.slots.values().map(|x| x.0));
        for u in unknown.into_iter().filter(|u| !known.contains_key(u)).take(3) {
            match run(&d, "to_merkle_proof", || b.to_merkle_proof(pid(u)))? {
                Ok(_) => return fail(d(), format!("a proof was made for the unknown protocol {}", hex(&u))),
                Err(e) => check!(e.to_string().contains(&pid(u).to_string()), d(), "error does not name {}: {e}", hex(&u)),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06
pub fn c06(c: &mut Ctx) -> R {
    for i in 0..c.n(1500, 15000) {
        c.cases += 1;
        let (rt, _, _) = rand_tree(&mut c.rng, if i % 20 == 0 { 60 } else { 10 }, if i % 20 == 0 { 9 } else { 6 });
        if rt.slots.is_empty() { continue; }
        let full = GT::of_tree(&rt);
        let id = rt.id();
        let k = c.rng.below(rt.slots.len() as u64) as usize;
        let (slot, (p, m)) = rt.slots.iter().nth(k).map(|(a, b)| (*a, *b)).unwrap();
        let good = Prf { pos: slot, cofactor: rt.cofactor, path: full.path(rt.depth, slot) };
        let (mut x, mut p2, mut m2) = (good.clone(), p, m);
        let n = x.path.len() as u64;
        match c.rng.below(9) {
            0 => m2[c.rng.below(32) as usize] ^= 1 << c.rng.below(8),
            1 => p2[c.rng.below(32) as usize] ^= 1 << c.rng.below(8),
            2 => x.pos ^= 1 << c.rng.below(rt.depth.max(1) as u64 + 2),
            3 => x.cofactor ^= 1 << c.rng.below(10),
            4 if n > 0 => { let j = c.rng.below(n) as usize; x.path[j][c.rng.below(32) as usize] ^= 1 << c.rng.below(8); }
            5 if n > 1 => { let j = c.rng.below(n - 1) as usize; x.path.swap(j, j + 1); }
            6 if n > 1 => { x.path.reverse(); }
            7 => { let o = rt.slots.values().nth(c.rng.below(rt.slots.len() as u64) as usize).unwrap(); p2 = o.0; m2 = o.1; x.pos = r::slot(&p2, x.cofactor, rt.depth); }
            _ => { p2 = c.rng.bytes32(); x.pos = r::slot(&p2, x.cofactor, rt.depth); }
        }
        c06_one(c, &rt, id, &x, p2, m2)?;
        c06_one(c, &rt, id, &good, p, m)?;
    }
    // any proof at all
    for _ in 0..c.n(4000, 40000) {
        c.cases += 1;
        let p = c.rng.bytes32();
        let m = c.rng.bytes32();
        let len = c.rng.below(32) as u8;
        let cf = if c.rng.flip() { c.rng.below(4) as u16 } else { c.rng.next() as u16 };
        let pos = match c.rng.below(4) { 0 => c.rng.next() as u32, 1 => r::slot(&p, cf, len) ^ (1 << c.rng.below(32)), _ => r::slot(&p, cf, len) };
        let x = Prf { pos, cofactor: cf, path: (0..len).map(|_| c.rng.bytes32()).collect() };
        let rt = RTree { depth: len, cofactor: cf, entropy: 0, slots: BTreeMap::new() };
        c06_one(c, &rt, [0; 32], &x, p, m)?;
    }
    Ok(())
}
fn c06_one(_c: &mut Ctx, rt: &RTree, id: H, x: &Prf, p: H, m: H) -> R {
    let d = || format!("{}; proof {x:?}; protocol {} message {}", in_tree(rt), hex(&p), hex(&m));
    let Some(proof) = make_proof(x) else { return Ok(()) };
    let len = x.path.len() as u8;
    let res = run(&d, "convolve", || proof.convolve(pid(p), msg(m)))?;
    let expected = r::slot(&p, x.cofactor, len);
    match res {
        Err(e) => {
            check!(expected != x.pos, d(), "a proof with the right position is refused: {e}");
            let want = format!("{}", e);
            for (n, v) in [("protocol", pid(p).to_string()), ("expected position", format!("expected position {expected} ")), ("actual position", format!("position {} ", x.pos)), ("width", format!("width {}", 1u64 << len))] {
                check!(want.contains(&v), d(), "the error does not carry the {n} ({v}): {want}");
            }
        }
        Ok(cid) => {
            check!(expected == x.pos, d(), "a proof with position {} instead of {expected} is accepted", x.pos);
            let want = r::commit_id(len, x.cofactor, r::fold_path(x.pos, &x.path, r::leaf(p, m)));
            check!(raw(&cid) == want, d(), "the proof commits to {} instead of {}", hex(&raw(&cid)), hex(&want));
            if raw(&cid) == id { check!(rt.slots.get(&x.pos) == Some(&(p, m)), d(), "the proof vouches for a message which is not in the tree"); }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
fn c07_merge(c: &mut Ctx, rt: &RTree, a: &GT, ab: &MerkleBlock, b: &GT, bb: &MerkleBlock) -> Result<(GT, MerkleBlock), Fail> {
    c.cases += 1;
    let d = || format!("{}; base knows [{}], merged-in knows [{}]", in_tree(rt), show_set(&a.known().keys().copied().collect()), show_set(&b.known().keys().copied().collect()));
    let mut x = ab.clone();
    let id = raw(&ab.commit_id());
    let o = bb.clone();
    let res = run(&d, "merge_reveal", || x.merge_reveal(o))?;
    check!(res.is_ok(), d(), "merge of blocks with one commitment is refused: {:?}", res.err());
    let want = a.merge(b);
    let k = read_block(&x);
    check!(res.as_ref().ok() == Some(&(k.cs.len() as u16)), d(), "merge reports {res:?} for a cross section of {} nodes", k.cs.len());
    let mut known: Vec<(H, H)> = k.cs.iter().filter_map(|i| if let Item::Leaf(p, m) = i { Some((*p, *m)) } else { None }).collect();
    known.sort();
    check!(known == want.known().into_iter().collect::<Vec<_>>(), d(), "merged block knows [{}]", known.iter().map(|x| hex(&x.0)).collect::<Vec<_>>().join(","));
    let g = run(&d, "commit_id", || raw(&x.commit_id()))?;
    check!(g == id, d(), "commitment id became {}", hex(&g));
    check!(k.cs == want.items(), d(), "merged cross section is {:?}", k.cs);
    check!((k.method, k.depth, k.cofactor) == (0, rt.depth, rt.cofactor), d(), "method, depth or cofactor changed");
    check!(k.entropy == read_block(ab).entropy, d(), "the entropy became {:?}", k.entropy);
    Ok((want, x))
}
fn hide(full: &GT, t: &MerkleTree, depth: u8, keep: &[H]) -> Option<(GT, MerkleBlock)> {
    let mut b = MerkleBlock::from(t);
    let v: Vec<ProtocolId> = keep.iter().map(|p| pid(*p)).collect();
    if !guard(|| b.conceal_except(&v)).map(|r| r.is_ok()).unwrap_or(false) { return None; }
    let g = full.reduce(0, depth, &|p| keep.contains(p));
    let bb = make_block(&Blk { method: 0, depth, cofactor: b.cofactor(), cs: g.items(), entropy: None })?;
    Some((g, bb))
}
pub fn c07(c: &mut Ctx) -> R {
    for depth in 0..=3u8 {
        let masks: Vec<u32> = if depth < 3 { (1..1u32 << (1 << depth)).collect() } else { (0..c.n(14, 60)).map(|_| 1 + c.rng.below(255) as u32).collect() };
        for mask in masks {
            let rt = dense_tree(depth, mask, 123);
            let Some(t) = make_tree(&rt) else { continue };
            let full = GT::of_tree(&rt);
            let ids: Vec<H> = rt.slots.values().map(|x| x.0).collect();
            let mut forms: Vec<(GT, MerkleBlock)> = vec![(full.clone(), MerkleBlock::from(&t))];
            for keep in 0..1u32 << ids.len() {
                let ps: Vec<H> = ids.iter().enumerate().filter(|(i, _)| keep >> i & 1 == 1).map(|x| *x.1).collect();
                if let Some(f) = hide(&full, &t, depth, &ps) { forms.push(f); }
            }
            if forms.len() > 33 && !c.deep { let k = c.rng.below(forms.len() as u64) as usize; forms.rotate_left(k); forms.truncate(33); }
            for i in 0..forms.len() { for j in 0..forms.len() {
                let (a, b) = (forms[i].clone(), forms[j].clone());
                c07_merge(c, &rt, &a.0, &a.1, &b.0, &b.1)?;
            } }
        }
    }
    for i in 0..c.n(900, 9000) {
        let (deep, mm) = if i % 30 == 0 { (10, 100) } else { (7, 20) };
        let (rt, t, _) = case_tree(&mut c.rng, i as u64, mm, deep);
        let full = GT::of_tree(&rt);
        let ks = pick(&mut c.rng, &full.known(), 0);
        let Some((mut a, mut ab)) = hide(&full, &t, rt.depth, &ks) else { continue };
        for _ in 0..1 + c.rng.below(4) {
            if c.rng.flip() {
                let ks = pick(&mut c.rng, &full.known(), 0);
                let Some((b, bb)) = hide(&full, &t, rt.depth, &ks) else { break };
                (a, ab) = c07_merge(c, &rt, &a, &ab, &b, &bb)?;
            } else if let Some((slot, (p, m))) = rt.slots.iter().nth(c.rng.below(rt.slots.len() as u64) as usize).map(|(a, b)| (*a, *b)) {
                c.cases += 1;
                let x = Prf { pos: slot, cofactor: rt.cofactor, path: full.path(rt.depth, slot) };
                let Some(proof) = make_proof(&x) else { break };
                let a0 = a.clone();
                let d = || format!("{}; base knows [{}], merge path of {}", in_tree(&rt), show_set(&a0.known().keys().copied().collect()), hex(&p));
                let mut y = ab.clone();
                let res = run(&d, "merge_reveal_path", || y.merge_reveal_path(&proof, pid(p), msg(m)))?;
                check!(res.is_ok(), d(), "refused: {:?}", res.err());
                let want = a.merge(&full.reduce(0, rt.depth, &|q| *q == p));
                check!(read_block(&y).cs == want.items(), d(), "merged cross section is {:?}", read_block(&y).cs);
                check!(raw(&y.commit_id()) == rt.id(), d(), "commitment id changed");
                check!(read_block(&y).entropy == read_block(&ab).entropy, d(), "the entropy became {:?}", read_block(&y).entropy);
                check!(res.as_ref().ok() == Some(&(want.items().len() as u16)), d(), "merge reports {res:?} for a cross section of {} nodes", want.items().len());
                (a, ab) = (want, y);
                // refused merges
                let before = ab.clone();
                let mut bad = x.clone();
                let mut m2 = m;
                if c.rng.flip() { m2[0] ^= 1; } else { bad.pos ^= 1; }
                let proof = make_proof(&bad).unwrap();
                let mut y = ab.clone();
                let res = run(&d, "merge_reveal_path", || y.merge_reveal_path(&proof, pid(p), msg(m2)))?;
                match (res, bad.pos == x.pos) {
                    (Err(commit_verify::mpc::MergeError::UnrelatedBlocks { base_root, merged_root }), true) => {
                        let want = r::commit_id(rt.depth, rt.cofactor, r::fold_path(bad.pos, &bad.path, r::leaf(p, m2)));
                        check!(raw(&base_root) == rt.id() && raw(&merged_root) == want, d(), "refusal carries {} and {}", hex(&raw(&base_root)), hex(&raw(&merged_root)));
                    }
                    (Err(commit_verify::mpc::MergeError::InvalidProof(_)), false) => {}
                    (res, _) => return fail(d(), format!("merging a bad proof gives {res:?}")),
                }
                check!(y == before, d(), "a refused merge changed the block");
            }
        }
        if i % 2 == 0 {
            // two sections of one deep tree
            let (rs, gs, bs) = rand_sparse(&mut c.rng, 8);
            let cut = |rng: &mut Rng| -> Option<(GT, MerkleBlock)> {
                let ks = pick(rng, &gs.known(), 0);
                let g = gs.reduce(0, rs.depth, &|p| ks.contains(p));
                let b = make_block(&Blk { method: 0, depth: rs.depth, cofactor: rs.cofactor, cs: g.items(), entropy: None })?;
                Some((g, b))
            };
            if let (Some((x, xb)), Some((y, yb))) = (cut(&mut c.rng), cut(&mut c.rng)) {
                let (z, zb) = c07_merge(c, &rs, &x, &xb, &y, &yb)?;
                if let Some((y, yb)) = cut(&mut c.rng) { c07_merge(c, &rs, &z, &zb, &y, &yb)?; }
                c07_merge(c, &rs, &x, &xb, &gs, &bs)?;
                c07_merge(c, &rs, &gs, &bs, &x, &xb)?;
            }
        }
        // unrelated block
        let (rt2, t2, _) = rand_tree(&mut c.rng, 8, 5);
        let mut o = rt2.clone();
        if c.rng.flip() && rt.cofactor < 60000 { o = rt.clone(); if c.rng.flip() { o.cofactor += 1 } else { o.entropy ^= 1 } }
        let t3 = if o == rt2 { t2 } else { match make_tree(&o) { Some(t) => t, None => continue } };
        if o.id() != rt.id() && o.cofactor as u64 <= 1 << o.depth {
            c.cases += 1;
            let d = || format!("{}; merged with {}", in_tree(&rt), in_tree(&o));
            let mut y = ab.clone();
            match run(&d, "merge_reveal", || y.merge_reveal(MerkleBlock::from(&t3)))? {
                Err(commit_verify::mpc::MergeError::UnrelatedBlocks { base_root, merged_root }) =>
                    check!(raw(&base_root) == rt.id() && raw(&merged_root) == o.id(), d(), "refusal carries the wrong commitments"),
                res => return fail(d(), format!("merging an unrelated block gives {res:?}")),
            }
            check!(y == ab, d(), "a refused merge changed the block");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08
pub fn c08(c: &mut Ctx) -> R {
    for i in 0..c.n(6000, 60000) {
        c.cases += 1;
        let p = if c.rng.flip() { c.rng.bytes32() } else { num(c.rng.below(40) as u128) };
        let m = c.rng.bytes32();
        let len = if i < 66 { (i / 2) as usize } else { match c.rng.below(4) { 0 => 32, 1 => 31, _ => c.rng.below(33) as usize } };
        let cf = match c.rng.below(5) { 0 => 0, 1 => u16::MAX, 2 => (1u32 << len.min(15)) as u16, 3 => ((1u32 << len.min(15)) as u16).wrapping_add(c.rng.below(3) as u16), _ => c.rng.next() as u16 };
        let right = if len < 32 { r::slot(&p, cf, len as u8) } else { r::modulo(&p, (1u64 << 32) - cf as u64) as u32 };
        let pos = match c.rng.below(5) { 0 => c.rng.next() as u32, 1 => 0, 2 => u32::MAX, _ => right };
        let x = Prf { pos, cofactor: cf, path: (0..len).map(|_| if c.rng.below(9) == 0 { [0; 32] } else { c.rng.bytes32() }).collect() };
        let d = || format!("proof {x:?}; protocol {}, message {}", hex(&p), hex(&m));
        let Some(proof) = make_proof(&x) else { continue };
        let a = run(&d, "convolve", || proof.convolve(pid(p), msg(m)))?;
        let b = run(&d, "MerkleBlock::with", || MerkleBlock::with(&proof, pid(p), msg(m)))?;
        check!(a.is_ok() == b.is_ok(), d(), "check and conversion disagree");
        let fw = run(&d, "factored_width", || proof.factored_width())?;
        let width = run(&d, "width_limit", || proof.width_limit())? as u64;
        check!(fw as u64 == width.saturating_sub(proof.cofactor() as u64), d(), "factored width is {fw} for width {width} and cofactor {}", proof.cofactor());
        if i % 4 == 0 {
            let (rt, t, _) = rand_tree(&mut c.rng, 6, 4);
            let mut bl = MerkleBlock::from(&t);
            if c.rng.flip() { let _ = bl.conceal_except(rt.slots.values().map(|x| pid(x.0)).filter(|_| c.rng.flip()).collect::<Vec<_>>()); }
            let before = bl.clone();
            let d2 = || format!("{}; into {}", d(), in_tree(&rt));
            let res = run(&d2, "merge_reveal_path", || bl.merge_reveal_path(&proof, pid(p), msg(m)))?;
            check!(res.is_ok() || bl == before, d2(), "a refused merge changed the block");
            // and into its own block
            if let Ok(mut own) = b {
                let fw = run(&d, "block factored_width", || own.factored_width())?;
                check!(fw as u64 == (1u64 << own.depth().to_u8()).saturating_sub(own.cofactor() as u64), d(), "factored width of the block is {fw}");
                let res = run(&d, "merge_reveal_path", || own.merge_reveal_path(&proof, pid(p), msg(m)))?;
                check!(res.is_ok(), d(), "a proof does not merge into its own block: {res:?}");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18
fn buoy_model(s: &mut Vec<u8>, x: u8) -> bool {
    if x == 0 { return false; }
    let mut x = x;
    loop {
        if *s.last().unwrap() == x {
            if s.len() == 1 { s[0] = x - 1; return true; }
            s.pop();
            x -= 1;
            if x == 0 { return false; }
        } else { s.push(x); return false; }
    }
}
pub fn c18(c: &mut Ctx) -> R {
    fn go(c: &mut Ctx, top: u8, seq: &mut Vec<u8>, max: usize, hi: u8) -> R {
        if seq.len() == max { return Ok(()); }
        for x in 0..=hi {
            seq.push(x);
            c18_seq(c, top, seq)?;
            go(c, top, seq, max, hi)?;
            seq.pop();
        }
        Ok(())
    }
    for top in 0..=5 { go(c, top, &mut vec![], if c.deep { 7 } else { 5 }, 5)?; }
    for _ in 0..c.n(3000, 30000) {
        let top = c.rng.below(32) as u8;
        let mut s = vec![top];
        let mut seq = vec![];
        for _ in 0..c.rng.below(60) {
            let l = *s.last().unwrap();
            let x = match c.rng.below(4) { 0 => c.rng.below(32) as u8, 1 => (l + 1).min(31), _ => l };
            buoy_model(&mut s, x);
            seq.push(x);
        }
        c18_seq(c, top, &seq)?;
    }
    Ok(())
}
fn c18_seq(c: &mut Ctx, top: u8, seq: &[u8]) -> R {
    c.cases += 1;
    let mut s = vec![top];
    let d = || format!("base level {top}, pushes {seq:?}");
    let mut b = MerkleBuoy::<u5>::new(u5::with(top));
    for (i, x) in seq.iter().enumerate() {
        let want = buoy_model(&mut s, *x);
        let got = run(&d, "push", || b.push(u5::with(*x)))?;
        let l = run(&d, "level", || b.level())?.to_u8();
        check!(l == *s.last().unwrap(), d(), "after push {i} the level is {l} instead of {}", s.last().unwrap());
        check!(got == want, d(), "push {i} reports {got}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
pub fn c19(c: &mut Ctx) -> R {
    let mut seen: std::collections::HashMap<H, (Vec<u8>, String)> = Default::default();
    let n = c.n(3000, 30000);
    let vals: [u64; 8] = [0, 1, 2, 255, 256, 1 << 16, 1 << 32, u64::MAX];
    for i in 0..n {
        c.cases += 1;
        let d = if i % 2 == 0 { c.rng.below(4) as u8 } else { c.rng.next() as u8 };
        let w = if i % 3 == 0 { c.rng.next() } else { vals[c.rng.below(8) as usize] };
        let small = |r: &mut Rng| -> H { match r.below(4) { 0 => [0; 32], 1 => r::VLEAF, 2 => num(r.below(4) as u128), _ => { let mut b = [0u8; 32]; b[r.below(32) as usize] = 1 << r.below(8); b } } };
        let (a, b) = (small(&mut c.rng), small(&mut c.rng));
        let (k, bytes, id, got): (&str, Vec<u8>, H, Vec<u8>) = match c.rng.below(5) {
            0 => { let n = MerkleNode { branching: NodeBranching::Void, depth: d, width: u256::from(w), node1: a.into(), node2: b.into() }; ("void", r::node_bytes(0, d, w, a, b), raw(&n.commit_id()), enc(&n)) }
            1 => { let n = MerkleNode::single(d, u256::from(w), a.into()); ("single", r::node_bytes(1, d, w, a, r::VLEAF), raw(&n.commit_id()), enc(&n)) }
            2 => { let n = MerkleNode::branches(d, u256::from(w), a.into(), b.into()); ("branch", r::node_bytes(2, d, w, a, b), raw(&n.commit_id()), enc(&n)) }
            3 => { let n = Leaf::inhabited(pid(a), msg(b)); ("inhabited leaf", r::leaf_bytes(a, b), raw(&n.commit_id()), enc(&n)) }
            _ => { let n = Leaf::entropy(w, d as u32 * 0x1010101); ("entropy leaf", r::entropy_bytes(w, d as u32 * 0x1010101), raw(&n.commit_id()), enc(&n)) }
        };
        let inp = format!("{k}: depth/pos {d}, width/entropy {w}, {} {}", hex(&a), hex(&b));
        check!(got == bytes, inp, "serialized as {}", hex(&got));
        check!(id == r::tagged(r::NODE_TAG, &bytes), inp, "the preimage is not {}", hex(&bytes));
        if let Some((o, oi)) = seen.get(&id) { check!(*o == bytes, format!("{inp} and {oi}"), "two different values have one hash"); }
        seen.insert(id, (bytes, inp));
    }
    Ok(())
}

// ---------------------------------------------------------------- C21
pub fn c21(c: &mut Ctx) -> Result<bool, Fail> {
    let mut found = false;
    for _ in 0..c.n(400, 4000) {
        c.cases += 1;
        let (rt, _, _) = rand_tree(&mut c.rng, 8, 5);
        if rt.slots.len() < 2 { continue; }
        let full = GT::of_tree(&rt);
        let s: Vec<u32> = rt.slots.keys().copied().collect();
        let (i, j) = (s[c.rng.below(s.len() as u64) as usize], s[c.rng.below(s.len() as u64) as usize]);
        let mk = |p: u32| make_proof(&Prf { pos: p, cofactor: rt.cofactor, path: full.path(rt.depth, p) }).unwrap();
        let (a, b) = (mk(i), mk(j));
        let d = || format!("{}; proofs for slots {i} and {j}", in_tree(&rt));
        let same_half = rt.depth == 0 || (i >> (rt.depth - 1)) == (j >> (rt.depth - 1));
        let m = run(&d, "matches", || a.matches(&b))?;
        if same_half { check!(m, d(), "proofs of one half of a tree do not match"); } else if !m { found = true; }
        let other = make_proof(&Prf { pos: j, cofactor: rt.cofactor ^ (1 << c.rng.below(16)), path: full.path(rt.depth, j) }).unwrap();
        check!(!run(&d, "matches", || a.matches(&other) || other.matches(&a))?, d(), "proofs with the cofactors {} and {} match", a.cofactor(), other.cofactor());
        if let Some(t) = make_tree(&rt) {
            let b = MerkleBlock::from(&t);
            neighbour(c, &rt, &t, &b)?;
        }
    }
    Ok(found)
}
pub fn _unused(_: Confined<Vec<u8>, 0, 32>) {}
