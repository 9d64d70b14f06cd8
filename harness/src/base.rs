//! C09-C16, C20 with schemes, seals and validators whose behaviour is a table filled from the case number.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

use amplify::confinement::{Confined, SmallOrdMap, SmallOrdSet, SmallVec, TinyVec, TinyOrdMap, MediumVec, LargeOrdSet, LargeVec};
use amplify::{Bytes32, Wrapper};
use commit_verify::*;
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};

use crate::check;
use crate::mpc::{raw, Lf};
use crate::reference as r;
use crate::util::*;

const LIB: &str = "HarnessLib";
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Er(u8);
impl fmt::Display for Er { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "error {}", self.0) } }
impl std::error::Error for Er {}

// ---------------------------------------------------------------- C09 / C20 types
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, amplify::From)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct TestId(
    #[from]
    #[from([u8; 32])]
    Bytes32,
);
const TEST_TAG: &str = "urn:test:harness#2026-11-18";
impl CommitmentId for TestId { const TAG: &'static str = TEST_TAG; }
impl From<Sha256> for TestId { fn from(h: Sha256) -> Self { h.finish().into() } }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Small { a: u16, b: u64 }
impl Conceal for Small { type Concealed = Small; fn conceal(&self) -> Small { self.clone() } }
impl Small { fn bytes(&self) -> Vec<u8> { let mut v = self.a.to_le_bytes().to_vec(); v.extend(self.b.to_le_bytes()); v } }

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = MerkleHash)]
pub struct MLeaf(u32);

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Secret { x: u32, y: u16 }
impl Conceal for Secret { type Concealed = Small; fn conceal(&self) -> Small { Small { a: self.y ^ 0x5555, b: self.x as u64 + 7 } } }

#[derive(Clone, Debug)]
pub enum Op {
    Ser(Small), Opt(Option<Small>), Hash(Small), Merkle(Vec<u32>), Conc(Secret),
    List(Vec<(u16, u64)>), List8(Vec<(u16, u64)>), Set(BTreeSet<u32>), Map(BTreeMap<u32, (u16, u64)>), Map8(BTreeMap<u32, (u16, u64)>), Leafs(Vec<u64>),
    ListB(Vec<(u16, u64)>), ListM(Vec<(u16, u64)>), SetL(BTreeSet<u32>), MapB(BTreeMap<u32, (u16, u64)>),
    /// a list, set or map with the bounds of that number, the keys of a set or map being 0, 1, ...
    Bounded(u8, usize, Vec<(u16, u64)>),
}
fn sm(x: &(u16, u64)) -> Small { Small { a: x.0, b: x.1 } }
macro_rules! bounds { ($($n:literal $min:literal $max:expr;)*) => {
    const BOUNDS: &[(usize, usize)] = &[$(($min, $max)),*];
    fn feed_bounded(e: &mut CommitEngine, kind: u8, at: usize, l: &[(u16, u64)]) { match at { $($n => feed_in::<$min, { $max }>(e, kind, l),)* _ => unreachable!() } }
} }
bounds! {
    0 0 0; 1 0 1; 2 3 3; 3 1 0xFF; 4 0 0x100; 5 250 0xFFFF; 6 1 0x10000; 7 2 0xFFFFFF; 8 0 0x1000000; 9 256 0x1000001; 10 1 0x7FFFFFFF; 11 0 0xFFFFFFFF; 12 0 0x100000000;
    13 4 0x1FFFFFFFF; 14 0 0x200000000; 15 1 0x10000000000; 16 0 0x7FFFFFFFFFFFFFFF; 17 2 0x8000000000000000; 18 0 usize::MAX; 19 300 usize::MAX; 20 255 255; 21 0 1000;
}
fn feed_in<const MIN: usize, const MAX: usize>(e: &mut CommitEngine, kind: u8, l: &[(u16, u64)]) {
    let m = l.iter().enumerate().map(|(i, x)| (MLeaf(i as u32), sm(x)));
    match kind {
        0 => e.commit_to_linear_list(&Confined::<Vec<_>, MIN, MAX>::try_from(l.iter().map(sm).collect::<Vec<_>>()).unwrap()),
        1 => e.commit_to_linear_set(&Confined::<BTreeSet<_>, MIN, MAX>::try_from(m.map(|x| x.0).collect::<BTreeSet<_>>()).unwrap()),
        _ => e.commit_to_linear_map(&Confined::<BTreeMap<_, _>, MIN, MAX>::try_from(m.collect::<BTreeMap<_, _>>()).unwrap()),
    }
}
impl Op {
    fn gen(g: &mut Rng) -> Op {
        let s = |g: &mut Rng| (g.next() as u16, if g.flip() { g.below(3) } else { g.next() });
        let n = match g.below(8) { 0 => 0, 1 => 1, 2 => 200 + g.below(200), _ => g.below(6) } as usize;
        match g.below(17) {
            15 | 16 => { let at = g.below(BOUNDS.len() as u64) as usize; Op::Bounded(g.below(3) as u8, at, (0..(n % 8).saturating_add(BOUNDS[at].0).min(BOUNDS[at].1)).map(|_| s(g)).collect()) }
            0 => Op::Ser(sm(&s(g))),
            1 => Op::Opt(if g.flip() { None } else { Some(sm(&s(g))) }),
            2 => Op::Hash(sm(&s(g))),
            3 => Op::Merkle((0..n).map(|_| g.next() as u32).collect()),
            4 => Op::Conc(Secret { x: g.next() as u32, y: g.next() as u16 }),
            5 => Op::List((0..n).map(|_| s(g)).collect()),
            6 => Op::List8((0..n.min(255)).map(|_| s(g)).collect()),
            7 => Op::Set((0..n).map(|_| g.next() as u32).collect()),
            8 => Op::Map((0..n).map(|_| (g.next() as u32, s(g))).collect()),
            9 => Op::Map8((0..n.min(255)).map(|_| (g.next() as u32, s(g))).collect()),
            10 => Op::ListB((0..n.clamp(1, 7)).map(|_| s(g)).collect()),
            11 => Op::ListM((0..n).map(|_| s(g)).collect()),
            12 => Op::SetL((0..n).map(|_| g.next() as u32).collect()),
            13 => Op::MapB((0..n.clamp(2, 400)).map(|i| (i as u32 ^ g.next() as u32 & 0xFFFF0000, s(g))).collect()),
            _ => Op::Leafs((0..n).map(|_| g.next()).collect()),
        }
    }
    fn feed(&self, e: &mut CommitEngine) {
        match self {
            Op::Ser(s) => e.commit_to_serialized(s),
            Op::Opt(s) => e.commit_to_option(s),
            Op::Hash(s) => e.commit_to_hash(s),
            Op::Merkle(l) => e.commit_to_merkle(&SmallVec::try_from(l.iter().map(|x| MLeaf(*x)).collect::<Vec<_>>()).unwrap()),
            Op::Conc(s) => e.commit_to_concealed(s),
            Op::List(l) => e.commit_to_linear_list(&SmallVec::try_from(l.iter().map(sm).collect::<Vec<_>>()).unwrap()),
            Op::List8(l) => e.commit_to_linear_list(&TinyVec::try_from(l.iter().map(sm).collect::<Vec<_>>()).unwrap()),
            Op::Set(l) => e.commit_to_linear_set(&SmallOrdSet::try_from(l.iter().map(|x| MLeaf(*x)).collect::<BTreeSet<_>>()).unwrap()),
            Op::Map(l) => e.commit_to_linear_map(&SmallOrdMap::try_from(l.iter().map(|(k, v)| (MLeaf(*k), sm(v))).collect::<BTreeMap<_, _>>()).unwrap()),
            Op::Map8(l) => e.commit_to_linear_map(&TinyOrdMap::try_from(l.iter().map(|(k, v)| (MLeaf(*k), sm(v))).collect::<BTreeMap<_, _>>()).unwrap()),
            Op::ListB(l) => e.commit_to_linear_list(&Confined::<Vec<_>, 1, 7>::try_from(l.iter().map(sm).collect::<Vec<_>>()).unwrap()),
            Op::ListM(l) => e.commit_to_linear_list(&MediumVec::try_from(l.iter().map(sm).collect::<Vec<_>>()).unwrap()),
            Op::SetL(l) => e.commit_to_linear_set(&LargeOrdSet::try_from(l.iter().map(|x| MLeaf(*x)).collect::<BTreeSet<_>>()).unwrap()),
            Op::MapB(l) => e.commit_to_linear_map(&Confined::<BTreeMap<_, _>, 2, 1000>::try_from(l.iter().map(|(k, v)| (MLeaf(*k), sm(v))).collect::<BTreeMap<_, _>>()).unwrap()),
            Op::Bounded(k, at, l) => feed_bounded(e, *k, *at, l),
            Op::Leafs(l) => e.commit_to_merkle(&SmallVec::try_from(l.iter().map(|x| WLeaf(Lf2(*x))).collect::<Vec<_>>()).unwrap()),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let pre = |n: usize, w: usize, b: Vec<u8>| { let mut v = n.to_le_bytes()[..w].to_vec(); v.extend(b); v };
        let lf = |x: &u32| x.to_le_bytes().to_vec();
        match self {
            Op::Ser(s) => s.bytes(),
            Op::Opt(None) => vec![0],
            Op::Opt(Some(s)) => pre(1, 1, s.bytes()),
            Op::Hash(s) => r::tagged(r::STRICT_TAG, &s.bytes()).to_vec(),
            Op::Merkle(l) => r::merkle_root(&l.iter().map(|x| r::tagged(r::NODE_TAG, &lf(x))).collect::<Vec<_>>()).to_vec(),
            Op::Conc(s) => s.conceal().bytes(),
            Op::List(l) => pre(l.len(), 2, l.iter().flat_map(|x| sm(x).bytes()).collect()),
            Op::List8(l) => pre(l.len(), 1, l.iter().flat_map(|x| sm(x).bytes()).collect()),
            Op::Set(l) => pre(l.len(), 2, l.iter().flat_map(lf).collect()),
            Op::Map(l) => pre(l.len(), 2, l.iter().flat_map(|(k, v)| { let mut x = lf(k); x.extend(sm(v).bytes()); x }).collect()),
            Op::Map8(l) => pre(l.len(), 1, l.iter().flat_map(|(k, v)| { let mut x = lf(k); x.extend(sm(v).bytes()); x }).collect()),
            Op::ListB(l) => pre(l.len(), 1, l.iter().flat_map(|x| sm(x).bytes()).collect()),
            Op::ListM(l) => pre(l.len(), 3, l.iter().flat_map(|x| sm(x).bytes()).collect()),
            Op::SetL(l) => pre(l.len(), 4, l.iter().flat_map(lf).collect()),
            Op::MapB(l) => pre(l.len(), 2, l.iter().flat_map(|(k, v)| { let mut x = lf(k); x.extend(sm(v).bytes()); x }).collect()),
            Op::Bounded(k, at, l) => {
                let w = match BOUNDS[*at].1 as u64 { 0..=0xFF => 1, 0x100..=0xFFFF => 2, 0x1_0000..=0xFF_FFFF => 3, 0x100_0000..=0xFFFF_FFFF => 4, _ => 8 };
                pre(l.len(), w, l.iter().enumerate().flat_map(|(i, x)| { let i = (i as u32).to_le_bytes().to_vec(); match k { 0 => sm(x).bytes(), 1 => i, _ => [i, sm(x).bytes()].concat() } }).collect())
            }
            Op::Leafs(l) => r::merkle_root(&l.iter().map(|x| r::tagged(r::NODE_TAG, &x.to_le_bytes())).collect::<Vec<_>>()).to_vec(),
        }
    }
    fn layout(&self) -> String {
        let f = |n: &str| format!("{LIB}.{n}");
        match self {
            Op::Ser(_) | Op::Opt(_) => format!("Serialized {}", f("Small")),
            Op::Hash(_) => format!("Hashed {}", f("Small")),
            Op::Merkle(_) => format!("Merklized {}", f("MLeaf")),
            Op::Conc(_) => format!("Concealed {}", f("Secret")),
            Op::List(_) => format!("List 0..65535 {}", f("Small")),
            Op::List8(_) => format!("List 0..255 {}", f("Small")),
            Op::Set(_) => format!("Set 0..65535 {}", f("MLeaf")),
            Op::Map(_) => format!("Map {} 0..65535 {}", f("MLeaf"), f("Small")),
            Op::Map8(_) => format!("Map {} 0..255 {}", f("MLeaf"), f("Small")),
            Op::Bounded(0, at, _) => format!("List {}..{} {}", BOUNDS[*at].0, BOUNDS[*at].1, f("Small")),
            Op::Bounded(1, at, _) => format!("Set {}..{} {}", BOUNDS[*at].0, BOUNDS[*at].1, f("MLeaf")),
            Op::Bounded(_, at, _) => format!("Map {} {}..{} {}", f("MLeaf"), BOUNDS[*at].0, BOUNDS[*at].1, f("Small")),
            Op::Leafs(_) => format!("Merklized {}", f("WLeaf")),
            Op::ListB(_) => format!("List 1..7 {}", f("Small")),
            Op::ListM(_) => format!("List 0..16777215 {}", f("Small")),
            Op::SetL(_) => format!("Set 0..4294967295 {}", f("MLeaf")),
            Op::MapB(_) => format!("Map {} 2..1000 {}", f("MLeaf"), f("Small")),
        }
    }
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Lf2(u64);
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = MerkleHash)]
pub struct WLeaf(Lf2);

fn show(s: &CommitStep) -> String {
    match s {
        CommitStep::Serialized(t) => format!("Serialized {t}"),
        CommitStep::Hashed(t) => format!("Hashed {t}"),
        CommitStep::Merklized(t) => format!("Merklized {t}"),
        CommitStep::Concealed(t) => format!("Concealed {t}"),
        CommitStep::Collection(CommitColType::List, z, t) => format!("List {}..{} {t}", z.min, z.max),
        CommitStep::Collection(CommitColType::Set, z, t) => format!("Set {}..{} {t}", z.min, z.max),
        CommitStep::Collection(CommitColType::Map { key }, z, t) => format!("Map {key} {}..{} {t}", z.min, z.max),
    }
}
thread_local! { static OPS: RefCell<Vec<Op>> = const { RefCell::new(vec![]) }; }
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Script { z: u8 }
impl StrictDumb for Script { fn strict_dumb() -> Self { Script { z: 0 } } }
impl CommitEncode for Script {
    type CommitmentId = TestId;
    fn commit_encode(&self, e: &mut CommitEngine) { OPS.with(|o| for x in o.borrow().iter() { x.feed(e) }) }
}
// a tag is taken as it is
#[derive(Wrapper, Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, amplify::From)]
#[wrapper(Deref)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct OddId(#[from] #[from([u8; 32])] Bytes32);
const ODD_TAG: &str = " \tOdd  Tag: \u{e9}\u{0}\n ";
impl CommitmentId for OddId { const TAG: &'static str = ODD_TAG; }
impl From<Sha256> for OddId { fn from(h: Sha256) -> Self { h.finish().into() } }
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = OddId)]
pub struct Odd { a: u16, b: Small }
/// lists, sets and maps with these length bounds, of some lengths they admit
fn c09_bounds<const MIN: usize, const MAX: usize>(c: &mut Ctx) -> R {
    let w = match MAX as u64 { 0..=0xFF => 1, 0x100..=0xFFFF => 2, 0x1_0000..=0xFF_FFFF => 3, 0x100_0000..=0xFFFF_FFFF => 4, _ => 8 };
    for n in [MIN, MIN + 1, MIN + 3, 255, 256, 300, MAX].into_iter().filter(|n| *n >= MIN && *n <= MAX && *n < 2000) {
        c.cases += 1;
        let d = || format!("collections of {n} items with bounds {MIN}..{MAX}");
        let v: Vec<Small> = (0..n).map(|i| Small { a: i as u16, b: c.rng.next() }).collect();
        let k: Vec<MLeaf> = (0..n as u32).map(MLeaf).collect();
        let m: BTreeMap<MLeaf, Small> = k.iter().copied().zip(v.iter().cloned()).collect();
        let len = n.to_le_bytes()[..w].to_vec();
        let mut data = len.clone();
        for x in &v { data.extend(x.bytes()); }
        data.extend(&len);
        for x in &k { data.extend(x.0.to_le_bytes()); }
        data.extend(&len);
        for (x, y) in &m { data.extend(x.0.to_le_bytes()); data.extend(y.bytes()); }
        let e = run(&d, "commit", || {
            let mut e = CommitEngine::new(TEST_TAG);
            e.commit_to_linear_list(&Confined::<Vec<_>, MIN, MAX>::try_from(v.clone()).unwrap());
            e.commit_to_linear_set(&Confined::<BTreeSet<_>, MIN, MAX>::try_from(k.iter().copied().collect::<BTreeSet<_>>()).unwrap());
            e.commit_to_linear_map(&Confined::<BTreeMap<_, _>, MIN, MAX>::try_from(m.clone()).unwrap());
            e
        })?;
        let (h, l) = e.finish_layout();
        let want = [format!("List {MIN}..{MAX} {LIB}.Small"), format!("Set {MIN}..{MAX} {LIB}.MLeaf"), format!("Map {LIB}.MLeaf {MIN}..{MAX} {LIB}.Small")];
        check!(l.iter().map(show).collect::<Vec<_>>() == want, d(), "layout is {:?} instead of {want:?}", l.iter().map(show).collect::<Vec<_>>());
        check!(<[u8; 32]>::from(h.finalize()) == r::tagged(TEST_TAG, &data), d(), "the hash differs");
    }
    Ok(())
}
pub fn c09(c: &mut Ctx) -> R {
    c09_bounds::<0, 1>(c)?; c09_bounds::<0, 0xFF>(c)?; c09_bounds::<0, 0x100>(c)?; c09_bounds::<0, 0xFFFF>(c)?; c09_bounds::<0, 0x10000>(c)?;
    c09_bounds::<0, 0xFFFFFF>(c)?; c09_bounds::<0, 0x1000000>(c)?; c09_bounds::<0, 0xFFFFFFFF>(c)?; c09_bounds::<0, { usize::MAX }>(c)?;
    c09_bounds::<1, 0xFF>(c)?; c09_bounds::<1, 0xFFFF>(c)?; c09_bounds::<1, 0xFFFFFF>(c)?; c09_bounds::<1, 0xFFFFFFFF>(c)?; c09_bounds::<1, { usize::MAX }>(c)?;
    c09_bounds::<2, 7>(c)?; c09_bounds::<5, 5>(c)?; c09_bounds::<256, 300>(c)?; c09_bounds::<1000, 70000>(c)?; c09_bounds::<3, 0x12345678>(c)?;
    {
        let o = Odd { a: 0x1234, b: Small { a: 5, b: 7 } };
        let mut data = vec![0x34, 0x12];
        data.extend(o.b.bytes());
        check!(<[u8; 32]>::from(o.commit().finish().finalize()) == r::tagged(ODD_TAG, &data) && raw(&o.commit_id()) == r::tagged(ODD_TAG, &data), format!("tag {ODD_TAG:?}"), "commitment differs");
        let l = Odd::commitment_layout();
        check!(l.tag() == ODD_TAG && l.idty().to_string() == format!("{LIB}.OddId") && l.fields().len() == 1, format!("tag {ODD_TAG:?}"), "published layout has type {} and tag {:?}", l.idty(), l.tag());
        for tag in ["", " ", "\n", "a ", "A", "x\u{0}", ODD_TAG, &"long".repeat(100)] {
            let t: &'static str = Box::leak(tag.to_string().into_boxed_str());
            check!(<[u8; 32]>::from(CommitEngine::new(t).finish().finalize()) == r::tagged(tag, &[]), format!("tag {tag:?}"), "a new engine differs");
        }
        for i in 0..c.n(2000, 20000) {
            c.cases += 1;
            let t: &'static str = Box::leak(format!("urn:{}:{i}", c.rng.below(1 << 40)).into_boxed_str());
            let x = Small { a: i as u16, b: i };
            check!(<[u8; 32]>::from({ let mut e = CommitEngine::new(t); e.commit_to_serialized(&x); e.finish() }.finalize()) == r::tagged(t, &x.bytes()), format!("tag {t:?}, item {x:?}"), "the engine with that tag differs");
        }
    }
    // a value of more than 2^24 bytes
    {
        c.cases += 1;
        let v: Vec<Small> = (0..1_700_000u64).map(|i| Small { a: i as u16, b: i }).collect();
        let mut data = (v.len() as u32).to_le_bytes().to_vec();
        for x in &v { data.extend(x.bytes()); }
        let d = || "a list of 1700000 items".to_string();
        let h = run(&d, "commit", || { let mut e = CommitEngine::new(TEST_TAG); e.commit_to_linear_list(&LargeVec::try_from(v).unwrap()); e.finish() })?;
        check!(<[u8; 32]>::from(h.finalize()) == r::tagged(TEST_TAG, &data), d(), "the hash differs");
    }
    for i in 0..c.n(4000, 30000) {
        c.cases += 1;
        let n = if i % 50 == 0 { c.rng.below(256) } else { c.rng.below(6) };
        let ops: Vec<Op> = (0..n).map(|_| Op::gen(&mut c.rng)).collect();
        let d = || { let s = format!("items {ops:?}"); s.chars().take(3000).collect::<String>() };
        OPS.with(|o| *o.borrow_mut() = ops.clone());
        let data: Vec<u8> = ops.iter().flat_map(|o| o.bytes()).collect();
        let want = r::tagged(TEST_TAG, &data);
        let lay: Vec<String> = ops.iter().map(|o| o.layout()).collect();
        let s = Script { z: 0 };
        let id = run(&d, "commit_id", || raw(&s.commit_id()))?;
        check!(id == want, d(), "commitment id is {} instead of {}", hex(&id), hex(&want));
        let e = run(&d, "commit", || s.commit())?;
        let (h, l) = e.clone().finish_layout();
        check!(<[u8; 32]>::from(h.finalize()) == want, d(), "hash engine differs");
        check!(<[u8; 32]>::from(e.clone().finish().finalize()) == want, d(), "hash engine differs");
        check!(l.iter().map(show).collect::<Vec<_>>() == lay, d(), "layout is {:?} instead of {lay:?}", l.iter().map(show).collect::<Vec<_>>());
        let mut e2 = e.clone();
        check!(e2.as_layout().iter().map(show).collect::<Vec<_>>() == lay, d(), "as_layout differs");
        check!(e.into_layout().iter().map(show).collect::<Vec<_>>() == lay, d(), "into_layout differs");
        let p = run(&d, "commitment_layout", || Script::commitment_layout())?;
        check!(p.idty().to_string() == format!("{LIB}.TestId") && p.tag() == TEST_TAG, d(), "published layout has type {} and tag {}", p.idty(), p.tag());
        check!(p.fields().iter().map(show).collect::<Vec<_>>() == lay, d(), "published layout has other fields");
        // the engine by hand with another tag
        let tag = ["", "a", "urn:x", "some much longer tag value which does not fit into one block of the hash function, at all"][(i % 4) as usize];
        let mut e = CommitEngine::new(tag);
        for o in &ops { o.feed(&mut e); }
        // a finished engine takes no more items (debug assertions are on in this build)
        if i % 16 == 0 {
            let o = Op::gen(&mut c.rng);
            for how in 0..3 {
                let mut f = if how == 2 { s.commit() } else { e.clone() };
                match how { 0 => f.set_finished(), 1 => { f.as_layout(); } _ => {} }
                let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.feed(&mut f))).is_err();
                check!(refused || !cfg!(debug_assertions), d(), "a finished engine takes {o:?}");
            }
        }
        e.set_finished();
        check!(<[u8; 32]>::from(e.finish().finalize()) == r::tagged(tag, &data), d(), "engine with tag {tag:?} differs");
    }
    for i in 0..c.n(400, 2000) {
        c.cases += 1;
        let h = c.rng.bytes32();
        check!(raw(&StrictHash::from(h)) == h && raw(&TestId::from(h)) == h && raw(&MerkleHash::from(h)) == h && raw(&mpc::Commitment::from(h)) == h, hex(&h), "id type changes its bytes");
        let x = Small { a: i as u16, b: c.rng.next() };
        check!(raw(&x.commit_id()) == r::tagged(r::STRICT_TAG, &x.bytes()), format!("{x:?}"), "strict hash differs");
    }
    check!(MerkleHash::TAG == r::NODE_TAG && StrictHash::TAG == r::STRICT_TAG && mpc::Commitment::TAG == r::MPC_TAG, "tags", "a published tag changed");
    Ok(())
}

// ---------------------------------------------------------------- C10
pub fn c10(c: &mut Ctx) -> R {
    fn one<const MAX: usize>(w: usize, data: &[u8], tag: &[u8]) -> R {
        let mut pre = data.len().to_le_bytes()[..w].to_vec();
        pre.extend(data);
        let d = || format!("maximum {MAX}, {} bytes {}, tag {}", data.len(), hex(&data[..data.len().min(64)]), hex(tag));
        {
            let t = sha2::Sha256::digest(tag);
            let mut h = sha2::Sha256::new();
            h.update(t); h.update(t); h.update(&pre);
            let got = run(&d, "input_with_len", || { let mut e = <Sha256 as DigestExt>::from_tag(tag); e.input_with_len::<MAX>(data); DigestExt::finish(e) })?;
            check!(got[..] == h.finalize()[..], d(), "Sha256 absorbed something else");
            let got = run(&d, "input_raw", || { let mut e = Sha256::default(); e.input_with_len::<MAX>(data); e.input_raw(tag); DigestExt::finish(e) })?;
            let mut h = sha2::Sha256::new(); h.update(&pre); h.update(tag);
            check!(got[..] == h.finalize()[..], d(), "Sha256 absorbed something else");
        }
        {
            let t = ripemd::Ripemd160::digest(tag);
            let mut h = ripemd::Ripemd160::new();
            h.update(t); h.update(t); h.update(&pre);
            let got = run(&d, "input_with_len", || { let mut e = <Ripemd160 as DigestExt<20>>::from_tag(tag); e.input_with_len::<MAX>(data); DigestExt::<20>::finish(e) })?;
            check!(got[..] == h.finalize()[..], d(), "Ripemd160 absorbed something else");
        }
        Ok(())
    }
    fn refused<const MAX: usize>(data: &[u8]) -> R {
        let ok = guard(|| { let mut e = Sha256::default(); e.input_with_len::<MAX>(data); }).is_err() && guard(|| { let mut e = Ripemd160::default(); DigestExt::<20>::input_with_len::<MAX>(&mut e, data); }).is_err();
        check!(ok, format!("maximum {MAX}"), "a maximum above 2^32-1 is accepted");
        Ok(())
    }
    let lens: Vec<usize> = vec![0, 1, 2, 31, 32, 55, 56, 63, 64, 65, 127, 128, 200, 254, 255];
    let big: Vec<usize> = vec![256, 257, 1000, 65534, 65535];
    let huge: Vec<usize> = vec![65536, 65537, 0x12345, 0xFFFFFE, 0xFFFFFF];
    for round in 0..c.n(3, 20) {
        for n in lens.iter().chain(&big).chain(if round == 0 || c.deep && round < 4 { &huge[..] } else { &huge[..1] }) {
            c.cases += 1;
            let data = c.rng.bytes(*n);
            let tag = { let k = c.rng.below(80) as usize; c.rng.bytes(k) };
            if *n <= 0xFF { one::<0>(1, &data[..0], &tag)?; one::<1>(1, &data[..(*n).min(1)], &tag)?; one::<0x7F>(1, &data[..(*n).min(0x7F)], &tag)?; one::<0xFF>(1, &data, &tag)?; }
            if *n <= 0x100 { one::<0x100>(2, &data, &tag)?; }
            if *n <= 0xFFFF { one::<0xFFFF>(2, &data, &tag)?; }
            if *n <= 0x10000 { one::<0x10000>(3, &data, &tag)?; }
            one::<0xFFFFFF>(3, &data, &tag)?;
            one::<0x1000000>(4, &data, &tag)?;
            one::<0xFFFFFFFF>(4, &data, &tag)?;
        }
    }
    // many tags, as text and as bytes
    for i in 0..c.n(2000, 20000) {
        c.cases += 1;
        let k = c.rng.below(i % 100 + 1) as usize;
        let tag = if i % 2 == 0 { format!("urn:x:{i}").into_bytes() } else { c.rng.bytes(k) };
        let data = c.rng.bytes((i % 4) as usize);
        one::<0xFFFF>(2, &data, &tag)?;
    }
    refused::<0x1_0000_0000>(&[])?;
    refused::<0x1_0000_0000>(&[1, 2])?;
    refused::<{ usize::MAX }>(&[1])?;
    Ok(())
}

// ---------------------------------------------------------------- C11-C13
pub enum Proto {}
impl CommitmentProtocol for Proto {}
#[derive(PartialEq, Eq, Debug, Clone)]
struct Cm(u8);
impl CommitVerify<u8, Proto> for Cm { fn commit(m: &u8) -> Cm { Cm(m / 3) } }
#[derive(PartialEq, Eq, Debug, Clone)]
struct Tc(u8);
impl TryCommitVerify<u8, Proto> for Tc { type Error = Er; fn try_commit(m: &u8) -> Result<Tc, Er> { if m % 5 == 2 { Err(Er(*m)) } else { Ok(Tc(m / 3)) } } }
// an equality which is not structural
#[derive(Debug, Clone)]
struct Lax(u8);
impl PartialEq for Lax { fn eq(&self, o: &Lax) -> bool { self.0 / 2 == o.0 / 2 } }
impl Eq for Lax {}
impl CommitVerify<u8, Proto> for Lax { fn commit(m: &u8) -> Lax { Lax(m / 3) } }
impl TryCommitVerify<u8, UntaggedProtocol> for Lax { type Error = Er; fn try_commit(m: &u8) -> Result<Lax, Er> { if m % 7 == 2 { Err(Er(*m)) } else { Ok(Lax(m / 3)) } } }
thread_local! { static SCRIPT: RefCell<Vec<u8>> = const { RefCell::new(vec![]) }; }
#[derive(PartialEq, Eq, Debug, Clone)]
struct Sc(u8);
impl TryCommitVerify<u16, Proto> for Sc { type Error = Er; fn try_commit(_: &u16) -> Result<Sc, Er> { match SCRIPT.with(|s| s.borrow_mut().pop()) { Some(0) | None => Err(Er(0)), Some(n) => Ok(Sc(n)) } } }
pub fn c11(c: &mut Ctx) -> R {
    let ok = |b: bool| if b { Ok(()) } else { Err(VerifyError::InvalidCommitment) };
    for m in 0..=255u8 { for k in 0..=255u8 {
        c.cases += 1;
        let d = format!("message {m}, commitment {k}");
        check!(CommitVerify::verify(&Cm(k), &m) == ok(k == m / 3), d, "verification of a commitment gives {:?}", CommitVerify::verify(&Cm(k), &m));
        check!(CommitVerify::<u8, Proto>::verify(&Lax(k), &m) == ok(k / 2 == m / 3 / 2), d, "verification with a lax equality gives {:?}", CommitVerify::<u8, Proto>::verify(&Lax(k), &m));
        let want = if m % 5 == 2 { Err(VerifyError::InvalidMessage) } else { ok(k == m / 3) };
        check!(TryCommitVerify::verify(&Tc(k), &m) == want, d, "verification of a fallible commitment gives {:?}", TryCommitVerify::verify(&Tc(k), &m));
        let want = if m % 7 == 2 { Err(VerifyError::InvalidMessage) } else { ok(k / 2 == m / 3 / 2) };
        check!(TryCommitVerify::<u8, UntaggedProtocol>::verify(&Lax(k), &m) == want, d, "fallible verification with a lax equality differs");
    } }
    // a scheme whose outcome changes from call to call (a resource which runs out): the verdict follows from the one creation made
    for first in 0..5u8 { for second in 0..5u8 { for k in 1..5u8 {
        c.cases += 1;
        let d = format!("successive outcomes {first}, {second} (0: failure), commitment {k}");
        SCRIPT.with(|s| *s.borrow_mut() = vec![second, first]);
        let got = TryCommitVerify::<u16, Proto>::verify(&Sc(k), &0u16);
        let want = if first == 0 { Err(VerifyError::InvalidMessage) } else { ok(first == k) };
        check!(got == want, d, "verification of a commitment to be created again gives {got:?} instead of {want:?}");
    } } }
    // the real fallible scheme
    for _ in 0..c.n(60, 600) {
        c.cases += 1;
        let (rt, t, m) = crate::mpc::rand_tree(&mut c.rng, 6, 6);
        let s = crate::mpc::source(rt.depth, &m, Some(rt.entropy));
        let d = format!("tree of {}", crate::mpc::show_msgs(&m));
        let want = match commit_verify::mpc::MerkleTree::try_commit(&s) { Ok(x) => ok(x == t), Err(_) => Err(VerifyError::InvalidMessage) };
        check!(TryCommitVerify::<_, UntaggedProtocol>::verify(&t, &s) == want, d, "verification of a tree differs from recommitting");
    }
    Ok(())
}

thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; static T: RefCell<Tab> = const { RefCell::new(Tab { restore: 0, embed: 0, proof: 0, cont: 0 }) }; }
#[derive(Copy, Clone, Debug)]
struct Tab { restore: u8, embed: u8, proof: u8, cont: u8 }
/// Containers and proofs carry a number; outcomes of the scheme are table driven.
#[derive(Clone, Debug)]
struct Cn(u16);
impl PartialEq for Cn { fn eq(&self, o: &Cn) -> bool { self.0 == o.0 } }
impl Eq for Cn {}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Pr(u16);
impl EmbedCommitProof<u8, Cn, Proto> for Pr {
    fn restore_original_container(&self, c: &Cn) -> Result<Cn, EmbedVerifyError<Er>> {
        LOG.with(|l| l.borrow_mut().push(format!("restore({},{})", self.0, c.0)));
        match T.with(|t| t.borrow().restore) {
            0 => Ok(Cn(c.0.wrapping_sub(self.0))),
            1 => Err(EmbedVerifyError::ProofMismatch),
            2 => Err(EmbedVerifyError::InvalidProof),
            3 => Err(EmbedVerifyError::CommitmentMismatch),
            _ => Err(EmbedVerifyError::InvalidMessage(Er(7))),
        }
    }
}
impl EmbedCommitVerify<u8, Proto> for Cn {
    type Proof = Pr;
    type CommitError = Er;
    fn embed_commit(&mut self, m: &u8) -> Result<Pr, Er> {
        LOG.with(|l| l.borrow_mut().push(format!("embed({},{m})", self.0)));
        let t = T.with(|t| *t.borrow());
        let p = *m as u16 * 256 + 3 + t.proof as u16;
        self.0 = self.0.wrapping_add(*m as u16 * 256 + 3 + t.cont as u16);
        if t.embed == 1 { Err(Er(9)) } else { Ok(Pr(p)) }
    }
}
pub fn c12(c: &mut Ctx) -> R {
    for restore in 0..5u8 { for embed in 0..2u8 { for proof in 0..3u8 { for cont in 0..3u8 { for m in [0u8, 1, 77, 255] { for _ in 0..c.n(20, 200) {
        c.cases += 1;
        T.with(|t| *t.borrow_mut() = Tab { restore, embed, proof, cont });
        LOG.with(|l| l.borrow_mut().clear());
        let p = Pr(if c.rng.flip() { m as u16 * 256 + 3 + proof as u16 } else { m as u16 * 256 + 3 + c.rng.below(3) as u16 });
        let k = Cn(c.rng.next() as u16);
        let d = || format!("scheme table {:?}, message {m}, proof {p:?}, container {k:?}", T.with(|t| *t.borrow()));
        let got = run(&d, "verify", || EmbedCommitVerify::verify(&k, &m, &p))?;
        let p2 = m as u16 * 256 + 3 + proof as u16;
        let k2 = k.0.wrapping_sub(p.0).wrapping_add(m as u16 * 256 + 3 + cont as u16);
        let want = match restore {
            1 => Err(EmbedVerifyError::ProofMismatch),
            2 => Err(EmbedVerifyError::InvalidProof),
            3 => Err(EmbedVerifyError::CommitmentMismatch),
            4 => Err(EmbedVerifyError::InvalidMessage(Er(7))),
            _ if embed == 1 => Err(EmbedVerifyError::InvalidMessage(Er(9))),
            _ if p2 != p.0 => Err(EmbedVerifyError::InvalidProof),
            _ if k2 != k.0 => Err(EmbedVerifyError::CommitmentMismatch),
            _ => Ok(()),
        };
        check!(format!("{got:?}") == format!("{want:?}"), d(), "verification gives {got:?} instead of {want:?}");
    } } } } } }
    Ok(())
}
/// Convolution: source, supplement, proof and commitment are numbers.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Src(u16);
#[derive(Clone, Debug)]
struct Pf { n: u16, suppl: u16 }
impl PartialEq for Pf { fn eq(&self, o: &Pf) -> bool { self.n == o.n } }
impl Eq for Pf {}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Cv(u16);
impl ConvolveCommitProof<u8, Src, Proto> for Pf {
    type Suppl = u16;
    fn restore_original(&self, k: &Cv) -> Src { Src(k.0.wrapping_sub(self.suppl).wrapping_sub(T.with(|t| t.borrow().restore) as u16)) }
    fn extract_supplement(&self) -> &u16 { &self.suppl }
}
impl ConvolveCommit<u8, Pf, Proto> for Src {
    type Commitment = Cv;
    type CommitError = Er;
    fn convolve_commit(&self, s: &u16, m: &u8) -> Result<(Cv, Pf), Er> {
        let t = T.with(|t| *t.borrow());
        if t.embed == 1 { return Err(Er(*m)); }
        Ok((Cv(self.0.wrapping_add(*s).wrapping_add(t.cont as u16)), Pf { n: s.wrapping_mul(3).wrapping_add(*m as u16).wrapping_add(t.proof as u16), suppl: s.wrapping_add(1) }))
    }
}
pub fn c13(c: &mut Ctx) -> R {
    for restore in 0..2u8 { for embed in 0..2u8 { for proof in 0..2u8 { for cont in 0..2u8 { for m in [0u8, 1, 77, 255] { for _ in 0..c.n(40, 400) {
        c.cases += 1;
        T.with(|t| *t.borrow_mut() = Tab { restore, embed, proof, cont });
        let suppl = c.rng.next() as u16;
        let right = suppl.wrapping_mul(3).wrapping_add(m as u16);
        let p = Pf { n: right.wrapping_add(c.rng.below(2) as u16), suppl };
        let k = Cv(c.rng.next() as u16);
        let d = || format!("scheme table {:?}, message {m}, proof {p:?}, commitment {k:?}", T.with(|t| *t.borrow()));
        let got = run(&d, "verify", || ConvolveCommitProof::<u8, Src, Proto>::verify(&p, &m, &k))?;
        let want = if embed == 1 { Err(ConvolveVerifyError::ImpossibleMessage) }
            else if p.n != right.wrapping_add(proof as u16) { Err(ConvolveVerifyError::InvalidProof) }
            else if restore != cont { Err(ConvolveVerifyError::CommitmentMismatch) }
            else { Ok(()) };
        check!(format!("{got:?}") == format!("{want:?}"), d(), "verification gives {got:?} instead of {want:?}");
    } } } } } }
    Ok(())
}

// ---------------------------------------------------------------- C16
/// a serializer that accepts nothing but a unit
struct Unit;
macro_rules! refuse { ($($n:ident $t:ty),*) => { $(fn $n(self, _: $t) -> Result<(), Self::Error> { refused() })* } }
fn refused<T>() -> Result<T, serde::de::value::Error> { Err(serde::de::Error::custom("not a unit")) }
impl serde::Serializer for Unit {
    type Ok = ();
    type Error = serde::de::value::Error;
    type SerializeSeq = serde::ser::Impossible<(), Self::Error>;
    type SerializeTuple = serde::ser::Impossible<(), Self::Error>;
    type SerializeTupleStruct = serde::ser::Impossible<(), Self::Error>;
    type SerializeTupleVariant = serde::ser::Impossible<(), Self::Error>;
    type SerializeMap = serde::ser::Impossible<(), Self::Error>;
    type SerializeStruct = serde::ser::Impossible<(), Self::Error>;
    type SerializeStructVariant = serde::ser::Impossible<(), Self::Error>;
    refuse!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
        serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8]);
    fn serialize_unit(self) -> Result<(), Self::Error> { Ok(()) }
    fn serialize_none(self) -> Result<(), Self::Error> { refused() }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<(), Self::Error> { refused() }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Self::Error> { refused() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Self::Error> { refused() }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<(), Self::Error> { refused() }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Self::Error> { refused() }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> { refused() }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Self::Error> { refused() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Self::Error> { refused() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Self::Error> { refused() }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> { refused() }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Self::Error> { refused() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Self::Error> { refused() }
}
pub fn c16(c: &mut Ctx) -> R {
    fn one<const N: usize, const V: u8>(c: &mut Ctx) -> R {
        let d0 = || format!("ReservedBytes<{N}, {V}>");
        let v = run(&d0, "default", ReservedBytes::<N, V>::default)?;
        check!(enc(&v) == vec![V; N], d0(), "default serializes as {}", hex(&enc(&v)));
        check!(raw(&v.commit_id()) == r::tagged(r::STRICT_TAG, &vec![V; N]), d0(), "commitment of the default");
        check!(v.commit().finish_layout().1.len() == 1, d0(), "more than one item is committed");
        let f = run(&d0, "From", || ReservedBytes::<N, V>::from([V; N]))?;
        check!(f == v, d0(), "conversion gives another value");
        check!(dec::<ReservedBytes<N, V>>(&vec![V; N]) == Some(v), d0(), "the reserved value does not decode");
        for i in 0..c.n(120, 1200) {
            c.cases += 1;
            if N == 0 { break; }
            let mut b = [V; N];
            match i % 3 {
                0 => b[c.rng.below(N as u64) as usize] ^= 1 << c.rng.below(8),
                1 => b[(i as usize / 3) % N] = c.rng.next() as u8,
                _ => for x in b.iter_mut() { *x = if c.rng.flip() { V } else { c.rng.next() as u8 } },
            }
            let d = || format!("ReservedBytes<{N}, {V}> of {}", hex(&b));
            let same = b == [V; N];
            let got = guard(|| ReservedBytes::<N, V>::from(b));
            check!(got.is_ok() == same, d(), "conversion {}", if same { "refuses the reserved value" } else { "accepts it" });
            let got = run(&d, "deserialization", || dec::<ReservedBytes<N, V>>(&b))?;
            check!(got.is_some() == same, d(), "deserialization {}", if same { "refuses the reserved value" } else { "accepts it" });
            let got = run(&d, "deserialization", || dec::<ReservedBytes<N, V>>(&b[1..]))?;
            check!(got.is_none(), d(), "deserialization accepts truncated data");
        }
        // the generic (serde) form: no data at all
        let g = run(&d0, "serialize", || serde::Serialize::serialize(&v, Unit))?;
        check!(g.is_ok(), d0(), "the generic serialization is not a unit");
        use serde::de::{value as dv, value::Error, Deserialize, IntoDeserializer};
        type RB<const N: usize, const V: u8> = ReservedBytes<N, V>;
        let g = run(&d0, "deserialize", || RB::<N, V>::deserialize(IntoDeserializer::<Error>::into_deserializer(())))?;
        check!(g.as_ref().ok() == Some(&v), d0(), "deserializing a unit gives {g:?}");
        let bytes = vec![!V; N];
        let all: [(&str, Box<dyn Fn() -> Result<RB<N, V>, Error>>); 9] = [
            ("a byte", Box::new(|| RB::deserialize(IntoDeserializer::<Error>::into_deserializer(!V)))),
            ("a number", Box::new(|| RB::deserialize(IntoDeserializer::<Error>::into_deserializer(77u64)))),
            ("a negative number", Box::new(|| RB::deserialize(IntoDeserializer::<Error>::into_deserializer(-1i64)))),
            ("a flag", Box::new(|| RB::deserialize(IntoDeserializer::<Error>::into_deserializer(true)))),
            ("a text", Box::new(|| RB::deserialize(IntoDeserializer::<Error>::into_deserializer("reserved")))),
            ("an owned text", Box::new(|| RB::deserialize(IntoDeserializer::<Error>::into_deserializer(String::from("x"))))),
            ("bytes", Box::new({ let b = bytes.clone(); move || RB::deserialize(dv::BytesDeserializer::<Error>::new(&b)) })),
            ("a sequence", Box::new({ let b = bytes.clone(); move || RB::deserialize(dv::SeqDeserializer::<_, Error>::new(b.iter().copied())) })),
            ("a map", Box::new({ let b = bytes.clone(); move || RB::deserialize(dv::MapDeserializer::<_, Error>::new(b.iter().map(|x| (*x, *x)))) })),
        ];
        for (what, f) in all {
            c.cases += 1;
            let g = run(&d0, "deserialize", f)?;
            check!(g.is_err(), d0(), "deserializing {what} gives {g:?}");
        }
        Ok(())
    }
    one::<1, 0>(c)?; one::<2, 0>(c)?; one::<4, 0>(c)?; one::<7, 0>(c)?; one::<8, 0>(c)?; one::<32, 0>(c)?;
    one::<1, 0xFF>(c)?; one::<3, 1>(c)?; one::<5, 0x80>(c)?; one::<16, 0xA5>(c)?; one::<33, 0xFF>(c)?;
    Ok(())
}

// ---------------------------------------------------------------- C20
mod derived {
    use super::*;
    #[derive(Wrapper, Clone, PartialEq, Eq, Debug, amplify::From)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB)]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = transparent, id = TestId)]
    pub struct Transp(pub Small);
    #[derive(Wrapper, Clone, PartialEq, Eq, Debug, amplify::From)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB)]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = transparent, id = TestId)]
    pub struct Transp2(pub Assoc);
    #[derive(Clone, PartialEq, Eq, Debug)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB)]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = strict, id = TestId)]
    pub struct Tup(pub u16, pub Small, pub u8);
    #[derive(Clone, PartialEq, Eq, Debug)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB, tags = order)]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = strict, id = TestId)]
    pub enum Assoc {
        #[strict_type(tag = 8)]
        One { hash: [u8; 32], ord: u8 },
        #[strict_type(tag = 2)]
        Two(u8, u16, u32),
        #[strict_type(dumb, tag = 3)]
        Three,
    }
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB, tags = repr, into_u8, try_from_u8)]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = strict, id = TestId)]
    #[repr(u8)]
    pub enum Prim { #[strict_type(dumb)] A, B = 5, C = 0x80 }
    #[derive(Clone, PartialEq, Eq, Debug)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB)]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = strict, id = TestId)]
    pub struct Gen<T: Clone + PartialEq + Eq + fmt::Debug + StrictDumb + StrictType + StrictEncode + StrictDecode> { pub x: T, pub y: u32 }
    #[derive(Clone, PartialEq, Eq, Debug)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB)]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = conceal, id = TestId)]
    pub struct Cstruct { pub x: u32, pub y: u16 }
    impl Conceal for Cstruct { type Concealed = Small; fn conceal(&self) -> Small { Small { a: self.y, b: !(self.x as u64) } } }
    #[derive(Clone, PartialEq, Eq, Debug)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB, tags = order, dumb = { Self::Concealed(0) })]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = conceal, id = TestId)]
    pub enum Cenum { Revealed(u128), Concealed(u8) }
    impl Conceal for Cenum { type Concealed = Self; fn conceal(&self) -> Self { match self { Cenum::Revealed(x) => Cenum::Concealed(*x as u8 ^ 0x33), Cenum::Concealed(y) => Cenum::Concealed(*y) } } }
    #[derive(Clone, PartialEq, Eq, Debug)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB)]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = merklize, id = TestId)]
    pub struct Mkl { pub v: SmallVec<MLeaf> }
    impl MerkleLeaves for Mkl {
        type Leaf = MLeaf;
        fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &MLeaf> { self.v.iter() }
    }
    #[derive(Clone, PartialEq, Eq, Debug)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB, tags = order, dumb = { Menum::Few { x: MLeaf(0), y: MLeaf(0) } })]
    #[derive(CommitEncode)]
    #[commit_encode(strategy = merklize, id = TestId)]
    pub enum Menum { Many(SmallVec<MLeaf>, Small), Few { x: MLeaf, y: MLeaf } }
    impl MerkleLeaves for Menum {
        type Leaf = MLeaf;
        fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &MLeaf> { match self { Menum::Many(v, _) => v.iter().collect::<Vec<_>>().into_iter(), Menum::Few { x, y } => vec![x, y].into_iter() } }
    }
    /// has a serialization, an inner value, a concealed form and leaves, all different
    macro_rules! all { ($n:ident, $s:ident) => {
        #[derive(Clone, PartialEq, Eq, Debug)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = LIB)]
        #[derive(CommitEncode)]
        #[commit_encode(strategy = $s, id = TestId)]
        pub struct $n<T: Clone + PartialEq + Eq + fmt::Debug + StrictDumb + StrictType + StrictEncode + StrictDecode>(pub T, pub u32);
        impl<T: Clone + PartialEq + Eq + fmt::Debug + StrictDumb + StrictType + StrictEncode + StrictDecode> Wrapper for $n<T> { type Inner = T; fn from_inner(t: T) -> Self { $n(t, 0) } fn as_inner(&self) -> &T { &self.0 } fn into_inner(self) -> T { self.0 } }
        impl<T: Clone + PartialEq + Eq + fmt::Debug + StrictDumb + StrictType + StrictEncode + StrictDecode> Conceal for $n<T> { type Concealed = Small; fn conceal(&self) -> Small { Small { a: self.1 as u16, b: !(self.1 as u64) } } }
        impl<T: Clone + PartialEq + Eq + fmt::Debug + StrictDumb + StrictType + StrictEncode + StrictDecode> MerkleLeaves for $n<T> {
            type Leaf = MLeaf;
            fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &MLeaf> { LEAVES[..(self.1 % 5) as usize].iter() }
        }
    } }
    pub static LEAVES: [MLeaf; 4] = [MLeaf(1), MLeaf(20), MLeaf(300), MLeaf(4000)];
    all!(AllS, strict); all!(AllT, transparent); all!(AllC, conceal); all!(AllM, merklize);
}
pub fn c20(c: &mut Ctx) -> R {
    use derived::*;
    fn one<T: CommitId<CommitmentId = TestId> + fmt::Debug>(c: &mut Ctx, what: &str, v: &T, bytes: Vec<u8>, lay: String) -> R {
        c.cases += 1;
        let d = || format!("{what} strategy, {v:?}");
        let got = run(&d, "commit_id", || raw(&v.commit_id()))?;
        check!(got == r::tagged(TEST_TAG, &bytes), d(), "does not commit to {}", hex(&bytes));
        let l = v.commit().into_layout();
        check!(l.iter().map(show).collect::<Vec<_>>() == vec![lay.clone()], d(), "committed items are {:?} instead of {lay}", l.iter().map(show).collect::<Vec<_>>());
        Ok(())
    }
    for i in 0..c.n(1500, 12000) {
        let s = Small { a: c.rng.next() as u16, b: c.rng.next() };
        let h = c.rng.bytes32();
        one(c, "strict", &Tup(i as u16, s.clone(), 9), { let mut v = (i as u16).to_le_bytes().to_vec(); v.extend(s.bytes()); v.push(9); v }, format!("Serialized {LIB}.Tup"))?;
        let a = match i % 3 { 0 => Assoc::One { hash: h, ord: i as u8 }, 1 => Assoc::Two(h[0], 0x1234 ^ i as u16, i as u32), _ => Assoc::Three };
        let ab = match &a { Assoc::One { hash, ord } => { let mut v = vec![8]; v.extend(hash); v.push(*ord); v } Assoc::Two(x, y, z) => { let mut v = vec![2, *x]; v.extend(y.to_le_bytes()); v.extend(z.to_le_bytes()); v } Assoc::Three => vec![3] };
        one(c, "strict", &a, ab.clone(), format!("Serialized {LIB}.Assoc"))?;
        one(c, "transparent", &Transp2(a), ab, format!("Serialized {LIB}.Assoc"))?;
        one(c, "transparent", &Transp(s.clone()), s.bytes(), format!("Serialized {LIB}.Small"))?;
        let p = [Prim::A, Prim::B, Prim::C][i as usize % 3];
        one(c, "strict", &p, vec![[0, 5, 0x80][i as usize % 3]], format!("Serialized {LIB}.Prim"))?;
        one(c, "strict", &Gen { x: s.clone(), y: 3 }, { let mut v = s.bytes(); v.extend([3, 0, 0, 0]); v }, format!("Serialized {LIB}.GenSmall"))?;
        let cs = Cstruct { x: i as u32, y: h[1] as u16 };
        one(c, "conceal", &cs, cs.conceal().bytes(), format!("Concealed {LIB}.Small"))?;
        let ce = if i % 2 == 0 { Cenum::Revealed(i as u128 * 77) } else { Cenum::Concealed(i as u8) };
        one(c, "conceal", &ce, { let Cenum::Concealed(x) = ce.conceal() else { unreachable!() }; vec![1, x] }, format!("Concealed {LIB}.Cenum"))?;
        let n = match i % 6 { 0 => 0, 1 => 1, _ => c.rng.below(20) };
        let l: Vec<u32> = (0..n).map(|_| c.rng.next() as u32).collect();
        one(c, "merklize", &Mkl { v: Confined::try_from(l.iter().map(|x| MLeaf(*x)).collect::<Vec<_>>()).unwrap() },
            r::merkle_root(&l.iter().map(|x| r::tagged(r::NODE_TAG, &x.to_le_bytes())).collect::<Vec<_>>()).to_vec(), format!("Merklized {LIB}.MLeaf"))?;
    }
    let mroot = |l: &[u32]| r::merkle_root(&l.iter().map(|x| r::tagged(r::NODE_TAG, &x.to_le_bytes())).collect::<Vec<_>>()).to_vec();
    for _ in 0..c.n(300, 3000) {
        let (s, n) = (Small { a: c.rng.next() as u16, b: c.rng.next() }, c.rng.next() as u32);
        one(c, "strict", &AllS(s.clone(), n), { let mut v = s.bytes(); v.extend(n.to_le_bytes()); v }, format!("Serialized {LIB}.AllSSmall"))?;
        one(c, "transparent", &AllT(s.clone(), n), s.bytes(), format!("Serialized {LIB}.Small"))?;
        one(c, "conceal", &AllC(s.clone(), n), Small { a: n as u16, b: !(n as u64) }.bytes(), format!("Concealed {LIB}.Small"))?;
        one(c, "merklize", &AllM(s.clone(), n), mroot(&[1, 20, 300, 4000][..(n % 5) as usize]), format!("Merklized {LIB}.MLeaf"))?;
        let l: Vec<u32> = (0..n % 9).map(|_| c.rng.next() as u32).collect();
        one(c, "merklize", &Menum::Many(Confined::try_from(l.iter().map(|x| MLeaf(*x)).collect::<Vec<_>>()).unwrap(), s.clone()), mroot(&l), format!("Merklized {LIB}.MLeaf"))?;
        one(c, "merklize", &Menum::Few { x: MLeaf(n), y: MLeaf(!n) }, mroot(&[n, !n]), format!("Merklized {LIB}.MLeaf"))?;
    }
    // derived encodings of the crate's own types
    for _ in 0..c.n(200, 2000) {
        c.cases += 1;
        let (rt, t, _) = crate::mpc::rand_tree(&mut c.rng, 6, 5);
        let k = t.conceal();
        let (h, l) = k.commit().finish_layout();
        check!(<[u8; 32]>::from(h.finalize()) == r::commit_id(rt.depth, rt.cofactor, rt.root()) && l.len() == 1, format!("{rt:?}"), "concealed form commits to something else than its serialization");
        let (h, l) = t.commit().finish_layout();
        check!(<[u8; 32]>::from(h.finalize()) == r::commit_id(rt.depth, rt.cofactor, rt.root()) && l.len() == 1, format!("{rt:?}"), "tree does not commit to its concealed form");
    }
    Ok(())
}
#[allow(dead_code)]
fn _lf(_: Lf) {}

// ---------------------------------------------------------------- C22
fn described(name: &str, tag: &str, items: &[CommitStep]) -> String {
    let range = |z: &strict_encoding::Sizing| {
        let max = match z.max { 255 => "MAX8".into(), 65535 => "MAX16".into(), 16777215 => "MAX24".into(), 4294967295 => "MAX32".into(), u64::MAX => "MAX64".into(), m => m.to_string() };
        format!("{}..{max}", z.min)
    };
    let mut s = format!("commitment {name}, hasher SHA256, tagged {tag}\n");
    for i in items {
        s += &match i {
            CommitStep::Serialized(t) => format!("  serialized {}\n", t.name),
            CommitStep::Hashed(t) => format!("  hashed {}\n", t.name),
            CommitStep::Merklized(t) => format!("  merklized {}\n", t.name),
            CommitStep::Concealed(t) => format!("  concealed {}, concealed {}\n", t.name, t.name),
            CommitStep::Collection(CommitColType::List, z, t) => format!("  list {}, len {}\n    element {}\n", t.name, range(z), t.name),
            CommitStep::Collection(CommitColType::Set, z, t) => format!("  set {}, len {}\n    element {}\n", t.name, range(z), t.name),
            CommitStep::Collection(CommitColType::Map { key }, z, t) => format!("  map {}, len {}\n    mapKey {}\n    mapValue {}\n", t.name, range(z), key.name, t.name),
        };
    }
    s
}
pub fn c22(c: &mut Ctx) -> R {
    let one = |p: &CommitLayout, want: &str, d: &dyn Fn() -> String| -> R {
        let v = run(d, "to_vesper", || p.to_vesper())?;
        let got = run(d, "display", || v.display().to_string())?;
        check!(got == want, d(), "description is\n{got}instead of\n{want}");
        let got = run(d, "display of the layout", || p.to_string())?;
        check!(got == want, d(), "text of the layout is\n{got}instead of\n{want}");
        Ok(())
    };
    for i in 0..c.n(3000, 30000) {
        c.cases += 1;
        let n = if i % 50 == 0 { if c.rng.flip() { 255 } else { c.rng.below(256) } } else { c.rng.below(6) };
        let ops: Vec<Op> = (0..n).map(|_| Op::gen(&mut c.rng)).collect();
        let d = || { let s = format!("items {:?}", ops.iter().map(|o| o.layout()).collect::<Vec<_>>()); s.chars().take(3000).collect::<String>() };
        OPS.with(|o| *o.borrow_mut() = ops.clone());
        let p = run(&d, "commitment_layout", || Script::commitment_layout())?;
        let (_, l) = run(&d, "commit", || Script { z: 0 }.commit())?.finish_layout();
        one(&p, &described("TestId", TEST_TAG, &l), &d)?;
    }
    let d = || "layout of a type of the crate".to_string();
    let ser = |n: &str, lib: &str| format!("commitment {n}, hasher SHA256, tagged {}\n  serialized {lib}\n", match n { "MerkleHash" => r::NODE_TAG, "Commitment" => r::MPC_TAG, _ => r::STRICT_TAG });
    one(&mpc::Leaf::commitment_layout(), &ser("MerkleHash", "Leaf"), &d)?;
    one(&MerkleNode::commitment_layout(), &ser("MerkleHash", "MerkleNode"), &d)?;
    one(&Small::commitment_layout(), &ser("StrictHash", "Small"), &d)?;
    one(&ReservedBytes::<4>::commitment_layout(), &ser("StrictHash", "ReservedBytes4"), &d)?;
    one(&mpc::MerkleTree::commitment_layout(), &format!("commitment Commitment, hasher SHA256, tagged {}\n  concealed MerkleConcealed, concealed MerkleConcealed\n", r::MPC_TAG), &d)?;
    one(&mpc::MerkleBlock::commitment_layout(), &format!("commitment Commitment, hasher SHA256, tagged {}\n  concealed MerkleConcealed, concealed MerkleConcealed\n", r::MPC_TAG), &d)?;
    one(&mpc::MerkleConcealed::commitment_layout(), &ser("Commitment", "MerkleConcealed"), &d)?;
    Ok(())
}
