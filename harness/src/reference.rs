//! Independent reading of LNPBP-4 / LNPBP-81, over sha2 only: nothing here calls the crates under test.
use std::collections::BTreeMap;

use sha2::{Digest, Sha256};

pub type H = [u8; 32];
pub const NODE_TAG: &str = "urn:ubideco:merkle:node#2024-01-31";
pub const MPC_TAG: &str = "urn:ubideco:mpc:commitment#2024-01-31";
pub const STRICT_TAG: &str = "urn:ubideco:strict-types:value-hash#2024-02-10";
pub const VLEAF: H = [0xFF; 32];

pub fn tagged(tag: &str, data: &[u8]) -> H {
    let t = Sha256::digest(tag.as_bytes());
    let mut h = Sha256::new();
    h.update(t);
    h.update(t);
    h.update(data);
    h.finalize().into()
}
pub fn node_bytes(kind: u8, depth: u8, width: u64, a: H, b: H) -> Vec<u8> {
    let mut v = vec![kind, depth];
    v.extend(width.to_le_bytes());
    v.extend([0u8; 24]);
    v.extend(a);
    v.extend(b);
    v
}
pub fn node(depth: u8, width: u64, a: H, b: H) -> H { tagged(NODE_TAG, &node_bytes(2, depth, width, a, b)) }
pub fn leaf_bytes(pid: H, msg: H) -> Vec<u8> {
    let mut v = vec![0x10];
    v.extend(pid);
    v.extend(msg);
    v
}
pub fn leaf(pid: H, msg: H) -> H { tagged(NODE_TAG, &leaf_bytes(pid, msg)) }
pub fn entropy_bytes(e: u64, pos: u32) -> Vec<u8> {
    let mut v = vec![0x11];
    v.extend(e.to_le_bytes());
    v.extend(pos.to_le_bytes());
    v
}
pub fn entropy(e: u64, pos: u32) -> H { tagged(NODE_TAG, &entropy_bytes(e, pos)) }
pub fn merkle_root(l: &[H]) -> H { if l.len() == 1 { l[0] } else { mk(l, 0, l.len() as u64) } }
fn mk(l: &[H], d: u8, w: u64) -> H {
    match l.len() {
        0 => tagged(NODE_TAG, &node_bytes(0, d, w, VLEAF, VLEAF)),
        1 => tagged(NODE_TAG, &node_bytes(1, d, w, l[0], VLEAF)),
        2 => node(d, w, l[0], l[1]),
        n => { let h = n.div_ceil(2); node(d, w, mk(&l[..h], d + 1, w), mk(&l[h..], d + 1, w)) }
    }
}
pub fn commit_id(depth: u8, cofactor: u16, root: H) -> H {
    let mut v = vec![depth];
    v.extend(cofactor.to_le_bytes());
    v.extend(root);
    tagged(MPC_TAG, &v)
}
/// little-endian 256-bit integer modulo m
pub fn modulo(pid: &H, m: u64) -> u64 { pid.iter().rev().fold(0u128, |r, b| (r * 256 + *b as u128) % m as u128) as u64 }
pub fn slot(pid: &H, cofactor: u16, depth: u8) -> u32 {
    let m = (1u64 << depth).saturating_sub(cofactor as u64).max(1);
    modulo(pid, m) as u32
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RTree { pub depth: u8, pub cofactor: u16, pub entropy: u64, pub slots: BTreeMap<u32, (H, H)> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RErr { Empty, CantFit(usize) }
/// first fit over (depth, cofactor)
pub fn try_commit(min_depth: u8, msgs: &BTreeMap<H, H>, e: u64) -> Result<RTree, RErr> {
    if min_depth == 0 && msgs.is_empty() { return Err(RErr::Empty); }
    let mut prev = 1u64;
    for depth in min_depth..=31 {
        let width = 1u64 << depth;
        if width >= msgs.len() as u64 {
            'cf: for cofactor in 0..=prev.min(500) as u16 {
                let mut slots = BTreeMap::new();
                for (p, m) in msgs {
                    if slots.insert(slot(p, cofactor, depth), (*p, *m)).is_some() { continue 'cf; }
                }
                return Ok(RTree { depth, cofactor, entropy: e, slots });
            }
        }
        prev = width;
    }
    Err(RErr::CantFit(msgs.len()))
}
impl RTree {
    pub fn leaf_hashes(&self) -> Vec<H> {
        (0..1u32 << self.depth).map(|p| match self.slots.get(&p) { Some((a, m)) => leaf(*a, *m), None => entropy(self.entropy, p) }).collect()
    }
    pub fn root(&self) -> H { merkle_root(&self.leaf_hashes()) }
    pub fn id(&self) -> H { commit_id(self.depth, self.cofactor, self.root()) }
}

/// binary tree with hidden subtrees and known leaves
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum GT { Hidden(H), Leaf(H, H), Node(Box<GT>, Box<GT>) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item { Hidden(u8, H), Leaf(H, H) }
impl GT {
    pub fn hash(&self, d: u8, depth: u8) -> H {
        match self {
            GT::Hidden(h) => *h,
            GT::Leaf(p, m) => leaf(*p, *m),
            GT::Node(a, b) => node(d, 1u64 << depth, a.hash(d + 1, depth), b.hash(d + 1, depth)),
        }
    }
    pub fn flat(&self, d: u8, out: &mut Vec<Item>) {
        match self {
            GT::Hidden(h) => out.push(Item::Hidden(d, *h)),
            GT::Leaf(p, m) => out.push(Item::Leaf(*p, *m)),
            GT::Node(a, b) => { a.flat(d + 1, out); b.flat(d + 1, out); }
        }
    }
    pub fn items(&self) -> Vec<Item> { let mut v = vec![]; self.flat(0, &mut v); v }
    pub fn known(&self) -> BTreeMap<H, H> { self.items().into_iter().filter_map(|i| match i { Item::Leaf(p, m) => Some((p, m)), _ => None }).collect() }
    /// hide every leaf not kept and merge hidden siblings
    pub fn reduce(&self, d: u8, depth: u8, keep: &dyn Fn(&H) -> bool) -> GT {
        match self {
            GT::Hidden(h) => GT::Hidden(*h),
            GT::Leaf(p, m) => if keep(p) { self.clone() } else { GT::Hidden(leaf(*p, *m)) },
            GT::Node(a, b) => match (a.reduce(d + 1, depth, keep), b.reduce(d + 1, depth, keep)) {
                (GT::Hidden(x), GT::Hidden(y)) => GT::Hidden(node(d, 1u64 << depth, x, y)),
                (x, y) => GT::Node(Box::new(x), Box::new(y)),
            },
        }
    }
    /// what two blocks of one tree know together
    pub fn merge(&self, o: &GT) -> GT {
        match (self, o) {
            (GT::Leaf(..), _) | (_, GT::Hidden(_)) => self.clone(),
            (_, GT::Leaf(..)) | (GT::Hidden(_), _) => o.clone(),
            (GT::Node(a, b), GT::Node(x, y)) => GT::Node(Box::new(a.merge(x)), Box::new(b.merge(y))),
        }
    }
    pub fn of_tree(t: &RTree) -> GT { Self::build(t, 0, 0) }
    fn build(t: &RTree, d: u8, pos: u32) -> GT {
        if d == t.depth {
            match t.slots.get(&pos) { Some((p, m)) => GT::Leaf(*p, *m), None => GT::Hidden(entropy(t.entropy, pos)) }
        } else {
            GT::Node(Box::new(Self::build(t, d + 1, pos * 2)), Box::new(Self::build(t, d + 1, pos * 2 + 1)))
        }
    }
    /// sibling hashes of a slot, root-down
    pub fn path(&self, depth: u8, pos: u32) -> Vec<H> {
        let mut v = vec![];
        let mut t = self;
        for d in 0..depth {
            let GT::Node(a, b) = t else { panic!("hidden") };
            if pos >> (depth - 1 - d) & 1 == 0 { v.push(b.hash(d + 1, depth)); t = a; } else { v.push(a.hash(d + 1, depth)); t = b; }
        }
        v
    }
}
/// root committed to by a path
pub fn fold_path(pos: u32, path: &[H], mut h: H) -> H {
    let depth = path.len();
    for d in (0..depth).rev() {
        let right = pos >> (depth - 1 - d) & 1 == 1;
        h = if right { node(d as u8, 1u64 << depth, path[d], h) } else { node(d as u8, 1u64 << depth, h, path[d]) };
    }
    h
}
