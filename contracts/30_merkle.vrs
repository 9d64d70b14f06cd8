// commit_verify/src/merkle.rs
verus! {
//% item commit_verify/src/merkle.rs NodeBranching {
//%   derive Copy Clone PartialEq Eq Structural
//% }
//% item commit_verify/src/merkle.rs MerkleHash {
//%   derive Copy Clone
//% }
//% item commit_verify/src/merkle.rs MerkleNode {
//%   derive Copy Clone
//% }
impl PartialEq for MerkleHash {
//% fn @expanded <MerkleHash as PartialEq>::eq
//% ret r
//% props C07 C21
//% end
}
impl Eq for MerkleHash {}
impl PartialEqSpecImpl for MerkleHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &MerkleHash) -> bool { *self == *o } }

/// bytes hashed for a node: kind, depth, width (32 bytes, little-endian), children
pub open spec fn node_bytes(kind: u8, depth: nat, width: nat, n1: MerkleHash, n2: MerkleHash) -> Seq<u8> {
    seq![kind] + le(depth, 1) + le(width, 32) + n1.0.a@ + n2.0.a@
}
pub open spec fn mtag() -> Seq<char> { "urn:ubideco:merkle:node#2024-01-31"@ }
pub open spec fn vleaf_bytes() -> Seq<u8> { Seq::new(32, |i: int| 0xFFu8) }
pub open spec fn mhash(bytes: Seq<u8>) -> MerkleHash { MerkleHash(Bytes32 { a: tagged(mtag(), bytes) }) }
/// the virtual leaf
pub open spec fn vleaf() -> MerkleHash { MerkleHash(Bytes32 { a: vstd::array::spec_array_fill_for_copy_type::<u8, 32>(0xFFu8) }) }
pub proof fn lemma_vleaf() ensures vleaf().0.a@ == vleaf_bytes() { broadcast use vstd::array::group_array_axioms; assert(vleaf().0.a@ =~= vleaf_bytes()); }
#[verifier::opaque]
pub open spec fn node_hash(d: nat, w: nat, a: MerkleHash, b: MerkleHash) -> MerkleHash { mhash(node_bytes(2, d, w, a, b)) }
pub open spec fn single_hash(d: nat, w: nat, a: MerkleHash) -> MerkleHash { mhash(node_bytes(1, d, w, a, vleaf())) }
pub open spec fn void_hash(d: nat, w: nat) -> MerkleHash { mhash(node_bytes(0, d, w, vleaf(), vleaf())) }

/// LNPBP-81: the root of the tree over `s`, at depth `d`, committing to total width `w`
pub open spec fn mk(s: Seq<MerkleHash>, d: nat, w: nat) -> MerkleHash decreases s.len() {
    if s.len() == 0 { void_hash(d, w) }
    else if s.len() == 1 { single_hash(d, w, s[0]) }
    else if s.len() == 2 { node_hash(d, w, s[0], s[1]) }
    else { let h = ((s.len() + 1) / 2) as int; node_hash(d, w, mk(s.take(h), d + 1, w), mk(s.skip(h), d + 1, w)) }
}
pub open spec fn merkle_root(s: Seq<MerkleHash>) -> MerkleHash { if s.len() == 1 { s[0] } else { mk(s, 0, s.len()) } }
pub open spec fn leaf_hashes<T: CommitEncode<CommitmentId = MerkleHash>>(s: Seq<T>) -> Seq<MerkleHash> { s.map_values(|x: T| cid(&x)) }
pub open spec fn leaves_ok<T: CommitEncode>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ce_ok() && s[i].ce_steps().len() <= 255 }

impl StrictType for MerkleHash {
//% implconst @expanded <MerkleHash as strict_encoding::StrictType>::STRICT_LIB_NAME
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
//% strict commit_verify/src/merkle.rs MerkleHash
impl StrictEncode for MerkleHash {
    #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() }
}
impl StrictType for MerkleNode {
//% implconst @expanded <MerkleNode as strict_encoding::StrictType>::STRICT_LIB_NAME
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
//% strict commit_verify/src/merkle.rs MerkleNode
impl StrictEncode for MerkleNode {
    #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() }
}
//% strict commit_verify/src/merkle.rs NodeBranching
impl FromSpecImpl<[u8; 32]> for MerkleHash { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; 32]) -> Self { MerkleHash(Bytes32 { a: v }) } }
impl From<[u8; 32]> for MerkleHash {
//% fn @expanded <MerkleHash as From<[u8;32]>>::from
//% ret r
//% props C01 C03
//% end
}
impl FromSpecImpl<Sha256> for MerkleHash { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Sha256) -> Self { MerkleHash(Bytes32 { a: sha256(v@) }) } }
impl From<Sha256> for MerkleHash {
//% fn commit_verify/src/merkle.rs <MerkleHash as From<Sha256>>::from
//% ret r
//% props C01 C09
//% tail bind
        assert(r.0.a =~= sha256(hash@));
//% end
}
impl CommitmentId for MerkleHash {
//% implconst commit_verify/src/merkle.rs <MerkleHash as CommitmentId>::TAG
    open spec fn of_hash(h: [u8; 32]) -> Self { MerkleHash(Bytes32 { a: h }) }
    proof fn law_from(e: Sha256) {}
}

/// the tag of merkle nodes is the published one
proof fn merkle_tag() ensures <MerkleHash as CommitmentId>::TAG@ == mtag() // @C01,C09
{}
impl CommitEncode for MerkleNode {
    type CommitmentId = MerkleHash;
    open spec fn ce_ok(&self) -> bool { mnode_named() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() }
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<MerkleNode>())] }
//% gsub crate::CommitEngine => CommitEngine
//% fn @expanded <MerkleNode as CommitEncode>::commit_encode
//% props C20 C01 C09
//% end
}
/// the type names involved are distinct (names are unique in a strict type library)
pub open spec fn mnode_named() -> bool { named::<MerkleNode>() && fqn_of::<MerkleNode>() != fqn_of::<MerkleHash>() && fqn_of::<MerkleNode>() != fqn_of::<StrictHash>() }
pub axiom fn axiom_mnode_named() ensures mnode_named();

pub open spec fn mnode(k: NodeBranching, d: nat, w: nat, a: MerkleHash, b: MerkleHash) -> MerkleNode { MerkleNode { branching: k, depth: d as u8, width: u256 { hi: 0, lo: w as u128 }, node1: a, node2: b } }
pub proof fn lemma_mnode(k: NodeBranching, d: nat, w: nat, a: MerkleHash, b: MerkleHash)
    requires d < 256, w < 0x1_0000_0000_0000_0000
    ensures mnode(k, d, w, a, b).sb() =~= node_bytes(k.sb()[0], d, w, a, b), k.sb().len() == 1, // @C01,C09,C19
        k == NodeBranching::Branch ==> k.sb()[0] == 2, // @C01,C19
        k == NodeBranching::Single ==> k.sb()[0] == 1, // @C01,C19
        k == NodeBranching::Void ==> k.sb()[0] == 0, // @C01,C19
{
    assert(mnode(k, d, w, a, b).width.n() == w);
}
//% gsub impl Into<u8> => u5
//% gsub impl Into<u256> => u32
impl MerkleNode {
//% fn commit_verify/src/merkle.rs MerkleNode::void
//% ret r
//% props C01
//% spec
    requires depth.wf() ensures r == mnode(NodeBranching::Void, depth.n(), width as nat, vleaf(), vleaf()),
//% end
//% fn commit_verify/src/merkle.rs MerkleNode::single
//% ret r
//% props C01
//% spec
    requires depth.wf() ensures r == mnode(NodeBranching::Single, depth.n(), width as nat, node, vleaf()),
//% end
//% fn commit_verify/src/merkle.rs MerkleNode::branches
//% ret r
//% props C01
//% spec
    requires depth.wf() ensures r == mnode(NodeBranching::Branch, depth.n(), width as nat, node1, node2),
//% end
//% fn commit_verify/src/merkle.rs MerkleNode::with
//% ret r
//% props C01
//% spec
    requires depth.wf() ensures r == mnode(branching, depth.n(), width as nat, node1, node2),
//% end
}
proof fn lemma_pow_31(d: nat) requires d < 32 ensures d == 31 ==> pow2((32 - d) as nat) == 2, d < 31 ==> pow2((32 - d) as nat) == 2 * pow2((31 - d) as nat)
{ lemma2_to64(); if d < 31 { lemma_pow2_unfold((32 - d) as nat); } }
//% econst commit_verify/src/merkle.rs VIRTUAL_LEAF ensures VIRTUAL_LEAF == vleaf() proof { lemma_vleaf(); assert(r.0.a@ =~= vleaf().0.a@); assert(r.0.a =~= vleaf().0.a); }

impl MerkleHash {
//% fn commit_verify/src/merkle.rs MerkleHash::void
//% ret r
//% props C01
//% spec
    requires depth.wf() ensures r == void_hash(depth.n(), width as nat),
//% start
    proof { axiom_mnode_named(); lemma_mnode(NodeBranching::Void, depth.n(), width as nat, vleaf(), vleaf()); merkle_tag(); }
//% end
//% fn commit_verify/src/merkle.rs MerkleHash::single
//% ret r
//% props C01
//% spec
    requires depth.wf() ensures r == single_hash(depth.n(), width as nat, node),
//% start
    proof { axiom_mnode_named(); lemma_mnode(NodeBranching::Single, depth.n(), width as nat, node, vleaf()); merkle_tag(); }
//% end
//% fn commit_verify/src/merkle.rs MerkleHash::branches
//% ret r
//% props C01
//% spec
    requires depth.wf() ensures r == node_hash(depth.n(), width as nat, node1, node2),
//% start
    proof { axiom_mnode_named(); lemma_mnode(NodeBranching::Branch, depth.n(), width as nat, node1, node2); merkle_tag(); reveal(node_hash); }
//% end
//% clear-gsubs
//% fn commit_verify/src/merkle.rs MerkleHash::merklize
//% ret r
//% props C01
//% spec
    requires leaves.lv_ok(), leaves_ok(leaves.lv())
    ensures r == merkle_root(leaf_hashes(leaves.lv())),
//% loop 1 pipe inv
        invariant it1.seq() == leaves.lv().map_values(|x: Impl0::Leaf| &x), leaves_ok(leaves.lv()),
            __acc1@ =~= leaf_hashes(leaves.lv()).take(it1.index@ as int),
//% loop 1 pipe end
        assert(__acc1@ =~= leaf_hashes(leaves.lv()).take(it1.index@ + 1));
//% let nodes 1 after
        assert(nodes.remaining() =~= leaf_hashes(leaves.lv()));
        proof { lemma2_to64(); }
//% end
//% fn commit_verify/src/merkle.rs MerkleHash::_merklize
//% ret r
//% props C01
//% sub impl ExactSizeIterator<Item = MerkleHash> => std::vec::IntoIter<MerkleHash>
//% spec
    requires iter.remaining().len() == branch_width, depth.wf(), branch_width <= pow2((32 - depth.n()) as nat),
        iter.obeys_prophetic_iter_laws(), iter.decrease() is Some
    ensures r == mk(iter.remaining(), depth.n(), base_width as nat),
    decreases branch_width
//% start
    let ghost s = iter.remaining();
    proof { lemma_pow_31(depth.n()); }
//% loop 1 pipeloop inv
        invariant __left1 <= div, __acc1@ =~= s.take(div - __left1), iter.remaining() == s.skip(div - __left1), iter.obeys_prophetic_iter_laws(), iter.decrease() is Some,
            div <= s.len()
        ensures __left1 == 0
        decreases __left1
//% end
}

//% gsub self.iter() => self.iter_refs()
//% gsub impl ExactSizeIterator<Item = &T> => std::vec::IntoIter<&T>
impl<T, const MIN: usize> MerkleLeaves for Confined<Vec<T>, MIN, 0xFF> where T: CommitId<CommitmentId = MerkleHash> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.c@ }
    open spec fn lv_ok(&self) -> bool { self.c@.len() <= 0xFF }
//% fn commit_verify/src/merkle.rs <Confined<Vec<T>,MIN,{u8::MAXasusize}> as MerkleLeaves>::merkle_leaves
//% ret r
//% props C01
//% end
}
impl<T, const MIN: usize> MerkleLeaves for Confined<Vec<T>, MIN, 0xFFFF> where T: CommitId<CommitmentId = MerkleHash> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.c@ }
    open spec fn lv_ok(&self) -> bool { self.c@.len() <= 0xFFFF }
//% fn commit_verify/src/merkle.rs <Confined<Vec<T>,MIN,{u16::MAXasusize}> as MerkleLeaves>::merkle_leaves
//% ret r
//% props C01
//% end
}
impl<T, const MIN: usize> MerkleLeaves for Confined<Vec<T>, MIN, 0xFFFF_FFFF> where T: CommitId<CommitmentId = MerkleHash> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.c@ }
    open spec fn lv_ok(&self) -> bool { self.c@.len() <= 0xFFFF_FFFF }
//% fn commit_verify/src/merkle.rs <Confined<Vec<T>,MIN,{u32::MAXasusize}> as MerkleLeaves>::merkle_leaves
//% ret r
//% props C01
//% end
}
impl<T: Ord, const MIN: usize> MerkleLeaves for Confined<BTreeSet<T>, MIN, 0xFF> where T: CommitId<CommitmentId = MerkleHash> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.c.seq() }
    open spec fn lv_ok(&self) -> bool { self.c.seq().len() <= 0xFF }
//% fn commit_verify/src/merkle.rs <Confined<BTreeSet<T>,MIN,{u8::MAXasusize}> as MerkleLeaves>::merkle_leaves
//% ret r
//% props C01
//% end
}
impl<T: Ord, const MIN: usize> MerkleLeaves for Confined<BTreeSet<T>, MIN, 0xFFFF> where T: CommitId<CommitmentId = MerkleHash> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.c.seq() }
    open spec fn lv_ok(&self) -> bool { self.c.seq().len() <= 0xFFFF }
//% fn commit_verify/src/merkle.rs <Confined<BTreeSet<T>,MIN,{u16::MAXasusize}> as MerkleLeaves>::merkle_leaves
//% ret r
//% props C01
//% end
}
impl<T: Ord, const MIN: usize> MerkleLeaves for Confined<BTreeSet<T>, MIN, 0xFFFF_FFFF> where T: CommitId<CommitmentId = MerkleHash> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.c.seq() }
    open spec fn lv_ok(&self) -> bool { self.c.seq().len() <= 0xFFFF_FFFF }
//% fn commit_verify/src/merkle.rs <Confined<BTreeSet<T>,MIN,{u32::MAXasusize}> as MerkleLeaves>::merkle_leaves
//% ret r
//% props C01
//% end
}
//% clear-gsubs

// ------------------------------------------------- "every leaf counts at its own place" (C01)
/// hypothesis used where a statement is "short of a hash collision": no two of the given (finitely many) byte strings collide
pub open spec fn collision_free(S: Set<Seq<u8>>) -> bool { forall|a: Seq<u8>, b: Seq<u8>| S.contains(a) && S.contains(b) && #[trigger] mhash(a) == #[trigger] mhash(b) ==> a == b }
/// S has every byte string hashed to compute mk(s, d, w)
pub open spec fn mkcov(s: Seq<MerkleHash>, d: nat, w: nat, S: Set<Seq<u8>>) -> bool decreases s.len() {
    if s.len() == 0 { S.contains(node_bytes(0, d, w, vleaf(), vleaf())) }
    else if s.len() == 1 { S.contains(node_bytes(1, d, w, s[0], vleaf())) }
    else if s.len() == 2 { S.contains(node_bytes(2, d, w, s[0], s[1])) }
    else { let h = ((s.len() + 1) / 2) as int; S.contains(node_bytes(2, d, w, mk(s.take(h), d + 1, w), mk(s.skip(h), d + 1, w))) && mkcov(s.take(h), d + 1, w, S) && mkcov(s.skip(h), d + 1, w, S) }
}

pub proof fn lemma_le_len(n: nat, k: nat) ensures le(n, k).len() == k decreases k { if k > 0 { lemma_le_len(n / 256, (k - 1) as nat); } }
pub proof fn lemma_le_inj(a: nat, b: nat, k: nat)
    requires a < pow2(8 * k), b < pow2(8 * k), le(a, k) == le(b, k)
    ensures a == b
    decreases k
{
    if k == 0 { lemma2_to64(); } else {
        lemma_le_len(a / 256, (k - 1) as nat); lemma_le_len(b / 256, (k - 1) as nat);
        let (x, y) = (le(a / 256, (k - 1) as nat), le(b / 256, (k - 1) as nat));
        assert((seq![(a % 256) as u8] + x)[0] == (a % 256) as u8); assert((seq![(b % 256) as u8] + y)[0] == (b % 256) as u8);
        assert((seq![(a % 256) as u8] + x).skip(1) =~= x); assert((seq![(b % 256) as u8] + y).skip(1) =~= y);
        lemma_pow2_adds(8, (8 * (k - 1)) as nat); lemma2_to64();
        let m = pow2((8 * (k - 1)) as nat);
        assert(pow2(8 * k) == 256 * m);
        assert(a / 256 < m && b / 256 < m) by (nonlinear_arith) requires a < 256 * m, b < 256 * m;
        lemma_le_inj(a / 256, b / 256, (k - 1) as nat);
        lemma_fundamental_div_mod(a as int, 256); lemma_fundamental_div_mod(b as int, 256);
        assert(a % 256 == b % 256);
    }
}
pub proof fn lemma_bytes32(a: Bytes32, b: Bytes32) requires a.a@ == b.a@ ensures a == b { assert(a.a =~= b.a); }
pub proof fn lemma_node_bytes_parts(k: u8, d: nat, w: nat, a: MerkleHash, b: MerkleHash)
    ensures ({ let s = node_bytes(k, d, w, a, b);
        s.len() == 98 && s[0] == k && s.subrange(1, 2) =~= le(d, 1) && s.subrange(2, 34) =~= le(w, 32) && s.subrange(34, 66) =~= a.0.a@ && s.subrange(66, 98) =~= b.0.a@ })
{ lemma_le_len(d, 1); lemma_le_len(w, 32); }
/// C19: node preimages are equal only if every committed value is
pub proof fn lemma_node_bytes_inj(k: u8, d: nat, w: nat, a: MerkleHash, b: MerkleHash, k2: u8, d2: nat, w2: nat, a2: MerkleHash, b2: MerkleHash)
    requires d < 256, d2 < 256, w < pow2(256), w2 < pow2(256), node_bytes(k, d, w, a, b) == node_bytes(k2, d2, w2, a2, b2)
    ensures k == k2, d == d2, w == w2, a == a2, b == b2 // @C19,C01
{
    lemma_node_bytes_parts(k, d, w, a, b); lemma_node_bytes_parts(k2, d2, w2, a2, b2);
    lemma2_to64(); lemma_le_inj(d, d2, 1); lemma_le_inj(w, w2, 32);
    lemma_bytes32(a.0, a2.0); lemma_bytes32(b.0, b2.0);
}
/// C01: without a collision the root determines every leaf hash at its position
pub proof fn lemma_mk_inj(s: Seq<MerkleHash>, t: Seq<MerkleHash>, d: nat, w: nat, S: Set<Seq<u8>>)
    requires collision_free(S), mkcov(s, d, w, S), mkcov(t, d, w, S), s.len() == t.len(), d + 64 < 256, s.len() <= pow2((64 - d) as nat), d <= 63, w < pow2(256), mk(s, d, w) == mk(t, d, w)
    ensures s =~= t // @C01
    decreases s.len()
{
    reveal(node_hash);
    let n = s.len();
    if n == 0 {} else if n == 1 {
        lemma_node_bytes_inj(1, d, w, s[0], vleaf(), 1, d, w, t[0], vleaf());
    } else if n == 2 {
        lemma_node_bytes_inj(2, d, w, s[0], s[1], 2, d, w, t[0], t[1]);
    } else {
        let h = ((n + 1) / 2) as int;
        lemma_node_bytes_inj(2, d, w, mk(s.take(h), d + 1, w), mk(s.skip(h), d + 1, w), 2, d, w, mk(t.take(h), d + 1, w), mk(t.skip(h), d + 1, w));
        lemma2_to64();
        lemma_pow2_unfold((64 - d) as nat);
        lemma_mk_inj(s.take(h), t.take(h), d + 1, w, S);
        lemma_mk_inj(s.skip(h), t.skip(h), d + 1, w, S);
        assert(s =~= s.take(h) + s.skip(h)); assert(t =~= t.take(h) + t.skip(h));
    }
}
pub proof fn merkle_root_inj(s: Seq<MerkleHash>, t: Seq<MerkleHash>, S: Set<Seq<u8>>)
    requires collision_free(S), mkcov(s, 0, s.len(), S), mkcov(t, 0, t.len(), S), s.len() == t.len(), s.len() <= u32::MAX, merkle_root(s) == merkle_root(t)
    ensures s =~= t // @C01
{
    if s.len() != 1 { lemma2_to64(); lemma2_to64_rest(); lemma_pow2_strictly_increases(64, 256); lemma_mk_inj(s, t, 0, s.len(), S); }
}

// ------------------------------------------------- MerkleBuoy (C18)
//% gsub MerkleBuoy<D> => MerkleBuoy
//% gsub D::default() => <u5 as Default>::default()
//% item commit_verify/src/merkle.rs MerkleBuoy {
//%   sub <D: Copy + Eq + SubAssign<u8> + Default> =>
//%   sub D => u5
//% }
pub open spec fn bpush(s: Seq<nat>, x: nat) -> Seq<nat> decreases s.len() {
    if x == 0 || s.len() == 0 { s }
    else if s.last() == x { if s.len() == 1 { seq![(x - 1) as nat] } else { bpush(s.drop_last(), (x - 1) as nat) } }
    else { s.push(x) }
}
/// pushing x makes the base level go up
pub open spec fn bsurf(s: Seq<nat>, x: nat) -> bool decreases s.len() {
    x != 0 && s.len() > 0 && s.last() == x && (s.len() == 1 || bsurf(s.drop_last(), (x - 1) as nat))
}
/// the recursive reading of the carry rule, from the base item
pub proof fn lemma_bpush_cons(a: nat, r: Seq<nat>, x: nat)
    requires r.len() > 0
    ensures bsurf(r, x) ==> bpush(r, x) =~= seq![(r[0] - 1) as nat] && r[0] > 0,
        bpush(seq![a] + r, x) =~= (if bsurf(r, x) { bpush(seq![a], (r[0] - 1) as nat) } else { seq![a] + bpush(r, x) }),
        bsurf(seq![a] + r, x) == (bsurf(r, x) && bsurf(seq![a], (r[0] - 1) as nat)),
        bpush(r, x).len() > 0
    decreases r.len()
{
    let s = seq![a] + r;
    if x != 0 && r.last() == x {
        assert(s.last() == x);
        if r.len() == 1 { assert(s.drop_last() =~= seq![a]); assert(r =~= seq![x]); }
        else { assert(s.drop_last() =~= seq![a] + r.drop_last()); lemma_bpush_cons(a, r.drop_last(), (x - 1) as nat); assert(r.drop_last()[0] == r[0]); }
    } else if x != 0 {
        assert(s.last() == r.last());
        assert(s.push(x) =~= seq![a] + r.push(x));
    }
}
impl MerkleBuoy {
    /// the tracked levels, base first
    pub open spec fn lv(&self) -> Seq<nat> decreases self { match self.stack { None => seq![self.buoy.n()], Some(b) => seq![self.buoy.n()] + b.lv() } }
    pub open spec fn ok(&self) -> bool decreases self { self.buoy.wf() && match self.stack { None => true, Some(b) => b.ok() } }
    pub proof fn lemma_nonempty(&self) ensures self.lv().len() > 0, self.lv()[0] == self.buoy.n() decreases self { match &self.stack { Some(b) => b.lemma_nonempty(), None => {} } }
//% fn commit_verify/src/merkle.rs MerkleBuoy::new
//% ret r
//% props C18 C07
//% sub top: D => top: u5
//% spec
    requires top.wf() ensures r.ok(), r.lv() == seq![top.n()],
//% end
//% fn commit_verify/src/merkle.rs MerkleBuoy::level
//% ret r
//% props C18 C07
//% sub D => u5
//% spec
    requires self.ok() ensures r.n() == self.lv().last(), r.wf(),
    decreases self
//% start
    proof { self.lemma_nonempty(); }
    proof { match &self.stack { Some(b) => b.lemma_nonempty(), None => {} } }
//% end
//% fn commit_verify/src/merkle.rs MerkleBuoy::push
//% ret r
//% props C18 C07
//% sub depth: D => depth: u5
//% sub self.buoy -= 1 => self.buoy = self.buoy - 1
//% spec
    requires old(self).ok(), depth.wf()
    ensures final(self).ok(), final(self).lv() == bpush(old(self).lv(), depth.n()), r == bsurf(old(self).lv(), depth.n()),
    decreases old(self).lv().len()
//% start
    let ghost s0 = old(self).lv();
    proof { old(self).lemma_nonempty(); match &old(self).stack { Some(b) => { b.lemma_nonempty(); lemma_bpush_cons(old(self).buoy.n(), b.lv(), depth.n()); assert(s0 == seq![old(self).buoy.n()] + b.lv()); } None => {} } }
//% end
}
//% clear-gsubs
}
