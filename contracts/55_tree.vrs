// commit_verify/src/mpc/tree.rs
verus! {
//% item commit_verify/src/mpc/tree.rs OrderedMap
//% item commit_verify/src/mpc/atoms.rs MessageMap
//% item commit_verify/src/mpc/tree.rs MerkleTree
impl Clone for MerkleTree {
//% fn @expanded <MerkleTree as Clone>::clone
//% ret r
//% props C03 C05
//% spec
    ensures r == *self,
//% end
}
/// the bottom row of a commitment tree: messages at their slots, entropy leaves elsewhere
pub open spec fn tree_slots(map: Map<u32, (ProtocolId, Message)>, entropy: u64, D: u5) -> Seq<TreeNode> {
    Seq::new(pow2(D.n()), |i: int| if map.contains_key(i as u32) { TreeNode::CommitmentLeaf { protocol_id: map[i as u32].0, message: map[i as u32].1 } }
        else { TreeNode::ConcealedNode { depth: D, hash: entropy_hash(entropy, i as u32) } })
}
pub proof fn lemma_tree_slots(map: Map<u32, (ProtocolId, Message)>, entropy: u64, D: u5)
    requires D.wf()
    ensures ({ let s = tree_slots(map, entropy, D); s.len() == pow2(D.n()) && bottom(s, D.n()) && is_tree(full(s, 0, D.n()), s, D.n()) && xsec(s, D.n()) && the_tree(s, D.n()) == full(s, 0, D.n())
        && merkle_root(hashes(s)) == th(full(s, 0, D.n()), 0, D.n()) }) // @C03
{
    let s = tree_slots(map, entropy, D);
    lemma2_to64(); lemma_pow_is(D.n());
    lemma_full(s, 0, D.n()); lemma_the_tree(full(s, 0, D.n()), s, D.n());
    if D.n() > 0 { lemma_pow2_half(D.n(), 0); assert(pow2(D.n()) > 1); } else { assert(hashes(s)[0] == nhash(s[0])); }
}
pub open spec fn slot_leaf(map: Map<u32, (ProtocolId, Message)>, entropy: u64, i: u32) -> Leaf { if map.contains_key(i) { Leaf::Inhabited { protocol: map[i].0, message: map[i].1 } } else { Leaf::Entropy { entropy, pos: i } } }
pub proof fn lemma_slot_leaves(map: Map<u32, (ProtocolId, Message)>, entropy: u64, D: u5)
    requires D.wf()
    ensures leaf_hashes(Seq::new(pow2(D.n()), |i: int| slot_leaf(map, entropy, i as u32))) =~= hashes(tree_slots(map, entropy, D)), // @C03
        leaves_ok(Seq::new(pow2(D.n()), |i: int| slot_leaf(map, entropy, i as u32)))
{
    axiom_leaf_named(); lemma_pow_is(D.n());
    assert forall|i: int| 0 <= i < pow2(D.n()) implies cid(&slot_leaf(map, entropy, i as u32)) == nhash(tree_slots(map, entropy, D)[i]) && slot_leaf(map, entropy, i as u32).ce_ok() by { lemma_leaf_cid(slot_leaf(map, entropy, i as u32)); }
}
impl MerkleTree {
    pub open spec fn D(&self) -> nat { self.depth.n() }
    pub open spec fn slots(&self) -> Seq<TreeNode> { tree_slots(self.map.c@, self.entropy, self.depth) }
    pub open spec fn root_spec(&self) -> MerkleHash { merkle_root(hashes(self.slots())) }
//% fn commit_verify/src/mpc/tree.rs MerkleTree::width_limit
//% ret r
//% props C02
//% spec
    requires self.depth.wf() ensures r == pow2(self.D()),
//% start
    proof { lemma_pow_is(self.D()); }
//% end
//% fn commit_verify/src/mpc/tree.rs MerkleTree::factored_width
//% ret r
//% props C02 C08
//% spec
    requires self.depth.wf() ensures r == (if pow2(self.D()) >= self.cofactor { pow2(self.D()) - self.cofactor } else { 0 }),
//% end
//% fn commit_verify/src/mpc/tree.rs MerkleTree::protocol_id_pos
//% ret r
//% props C02
//% spec
    requires self.depth.wf() ensures r == slot(protocol_id, self.cofactor, self.D()),
//% end
//% fn commit_verify/src/mpc/tree.rs MerkleTree::depth
//% ret r
//% props C02
//% spec
    ensures r == self.depth,
//% end
//% fn commit_verify/src/mpc/tree.rs MerkleTree::cofactor
//% ret r
//% props C02
//% spec
    ensures r == self.cofactor,
//% end
//% fn commit_verify/src/mpc/tree.rs MerkleTree::entropy
//% ret r
//% props C02
//% spec
    ensures r == self.entropy,
//% end
//% fn commit_verify/src/mpc/tree.rs MerkleTree::root
//% ret r
//% props C03
//% spec
    requires self.depth.wf() ensures r == self.root_spec(),
//% loop 1 pipe inv
        invariant self.depth.wf(), it1.seq().len() == pow2(self.D()), __acc1@ =~= Seq::new(it1.index@ as nat, |i: int| slot_leaf(self.map.c@, self.entropy, i as u32)),
//% let leaves 1 after
        proof { lemma_slot_leaves(self.map.c@, self.entropy, self.depth); }
//% end
}
impl MerkleBlock {
//% fn commit_verify/src/mpc/block.rs <MerkleBlock as From<&MerkleTree>>::from
//% as from_tree_ref
//% ret r
//% props C03
//% spec
    requires tree.depth.wf()
    ensures r.ok(), r.cs() == tree.slots(), r.method == tree.method, r.depth == tree.depth, r.cofactor == tree.cofactor, r.entropy == Some(tree.entropy), // @C03
//% start
    proof { lemma_pow_is(tree.D()); }
//% loop 1 pipe inv
        invariant tree.depth.wf(), it1.seq().len() == pow2(tree.D()), __acc1@ =~= tree.slots().take(it1.index@ as int), *map == tree.map,
//% loop 1 pipe start
        proof { lemma_leaf_cid(Leaf::Entropy { entropy: tree.entropy, pos: it1.index@ as u32 }); }
//% tail bind
        proof { lemma_tree_slots(tree.map.c@, tree.entropy, tree.depth); lemma_pow_is(tree.D()); assert(r.cs() =~= tree.slots()); }
//% end
}
impl MerkleBlock {
//% fn commit_verify/src/mpc/block.rs <MerkleBlock as From<MerkleTree>>::from
//% as from_tree
//% ret r
//% props C03
//% sub MerkleBlock::from => MerkleBlock::from_tree_ref
//% spec
    requires tree.depth.wf()
    ensures r.ok(), r.cs() == tree.slots(), r.method == tree.method, r.depth == tree.depth, r.cofactor == tree.cofactor, r.entropy == Some(tree.entropy), // @C03
//% end
}
pub open spec fn conc(depth: u5, cofactor: u16, root: MerkleHash) -> MerkleConcealed { MerkleConcealed { depth, cofactor, merkle_root: root } }
/// the commitment id of a tree with the given depth, cofactor and root
pub open spec fn commitment_of(depth: u5, cofactor: u16, root: MerkleHash) -> Commitment { Commitment(Bytes32 { a: tagged(ctag(), concealed_bytes(depth, cofactor, root)) }) }
pub open spec fn ctag() -> Seq<char> { "urn:ubideco:mpc:commitment#2024-01-31"@ }
pub open spec fn concealed_bytes(depth: u5, cofactor: u16, root: MerkleHash) -> Seq<u8> { le(depth.n(), 1) + le(cofactor as nat, 2) + root.0.a@ }
pub proof fn lemma_commitment_of(c: MerkleConcealed)
    ensures c.sb() == concealed_bytes(c.depth, c.cofactor, c.merkle_root), // @C03,C09
        Commitment::of_hash(tagged(<Commitment as CommitmentId>::TAG@, c.sb())) == commitment_of(c.depth, c.cofactor, c.merkle_root), // @C03,C09
{ commitment_tag(); assert(c.sb() =~= concealed_bytes(c.depth, c.cofactor, c.merkle_root)); }

//% strict commit_verify/src/mpc/block.rs MerkleConcealed
impl StrictType for MerkleConcealed {
//% implconst @expanded <MerkleConcealed as strict_encoding::StrictType>::STRICT_LIB_NAME
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl StrictEncode for MerkleConcealed {
    #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() }
}
pub open spec fn conc_named() -> bool { named::<MerkleConcealed>() && fqn_of::<MerkleConcealed>() != fqn_of::<MerkleHash>() && fqn_of::<MerkleConcealed>() != fqn_of::<StrictHash>() }
pub axiom fn axiom_conc_named() ensures conc_named();
impl Conceal for MerkleConcealed {
    type Concealed = MerkleConcealed;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: MerkleConcealed) -> bool { c == *self }
    proof fn law_conceal(&self, a: MerkleConcealed, b: MerkleConcealed) {}
//% fn commit_verify/src/mpc/block.rs <MerkleConcealed as Conceal>::conceal
//% ret r
//% props C03
//% end
}
impl Conceal for MerkleBlock {
    type Concealed = MerkleConcealed;
    open spec fn conceal_ok(&self) -> bool { self.ok() }
    open spec fn conceal_spec(&self, c: MerkleConcealed) -> bool { c == self.conc() }
    proof fn law_conceal(&self, a: MerkleConcealed, b: MerkleConcealed) {}
//% fn commit_verify/src/mpc/block.rs <MerkleBlock as Conceal>::conceal
//% ret r
//% props C03 C04
//% sub concealed.cross_section.first() => concealed.cross_section.first().copied()
//% sub *hash => hash
//% start
    broadcast use axiom_array_as_ref;
    proof { lemma_conceal_all(self.tree(), 0, self.D()); }
//% end
}
impl MerkleBlock {
    pub open spec fn root_spec(&self) -> MerkleHash { th(self.tree(), 0, self.D()) }
    pub open spec fn conc(&self) -> MerkleConcealed { conc(self.depth, self.cofactor, self.root_spec()) }
    pub open spec fn cid_spec(&self) -> Commitment { commitment_of(self.depth, self.cofactor, self.root_spec()) }
}
impl Conceal for MerkleTree {
    type Concealed = MerkleConcealed;
    open spec fn conceal_ok(&self) -> bool { self.depth.wf() }
    open spec fn conceal_spec(&self, c: MerkleConcealed) -> bool { c == conc(self.depth, self.cofactor, self.root_spec()) }
    proof fn law_conceal(&self, a: MerkleConcealed, b: MerkleConcealed) {}
//% fn commit_verify/src/mpc/tree.rs <MerkleTree as Conceal>::conceal
//% ret r
//% props C03
//% sub MerkleBlock::from => MerkleBlock::from_tree
//% start
    proof { lemma_tree_slots(self.map.c@, self.entropy, self.depth); }
//% end
}
//% gsub crate::CommitEngine => CommitEngine
//% gsub use crate::Conceal; =>
impl CommitEncode for MerkleConcealed {
    type CommitmentId = Commitment;
    open spec fn ce_ok(&self) -> bool { conc_named() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() }
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<MerkleConcealed>())] }
//% fn @expanded <MerkleConcealed as CommitEncode>::commit_encode
//% props C20 C03 C09
//% end
}
impl CommitEncode for MerkleBlock {
    type CommitmentId = Commitment;
    open spec fn ce_ok(&self) -> bool { self.ok() && conc_named() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.conc().sb() }
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Concealed(fqn_of::<MerkleConcealed>())] }
//% fn @expanded <MerkleBlock as CommitEncode>::commit_encode
//% props C20 C03 C09
//% start
    proof { let c = self.conc(); assert(c.conceal_spec(c)); assert(the_concealed(&c) == c); }
//% end
}
impl CommitEncode for MerkleTree {
    type CommitmentId = Commitment;
    open spec fn ce_ok(&self) -> bool { self.depth.wf() && conc_named() }
    open spec fn ce_bytes(&self) -> Seq<u8> { conc(self.depth, self.cofactor, self.root_spec()).sb() }
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Concealed(fqn_of::<MerkleConcealed>())] }
//% fn @expanded <MerkleTree as CommitEncode>::commit_encode
//% props C20 C03 C09
//% start
    proof { let c = conc(self.depth, self.cofactor, self.root_spec()); assert(c.conceal_spec(c)); assert(the_concealed(&c) == c); }
//% end
}
//% clear-gsubs
pub trait Proof: Sized {
    spec fn match_ok(&self) -> bool;
    spec fn match_spec(&self, other: &Self, r: bool) -> bool;
    fn matches(&self, other: &Self) -> (r: bool) requires self.match_ok(), other.match_ok() ensures self.match_spec(other, r); // @C03,C21
}
impl Proof for MerkleTree {
    open spec fn match_ok(&self) -> bool { self.depth.wf() }
    open spec fn match_spec(&self, o: &Self, r: bool) -> bool { r == (cid(self) == cid(o)) }
//% fn commit_verify/src/mpc/tree.rs <MerkleTree as Proof>::matches
//% ret r
//% props C03,C21
//% start
    proof { axiom_conc_named(); }
//% end
}
impl Proof for MerkleBlock {
    open spec fn match_ok(&self) -> bool { self.ok() }
    open spec fn match_spec(&self, o: &Self, r: bool) -> bool { r == (cid(self) == cid(o)) }
//% fn commit_verify/src/mpc/block.rs <MerkleBlock as Proof>::matches
//% ret r
//% props C03,C21
//% start
    proof { axiom_conc_named(); }
//% end
}
/// C03: tree, block made from it, and its concealed form carry one commitment id, the tagged hash over depth, cofactor and root
pub proof fn theorem_one_commitment(tree: &MerkleTree, block: &MerkleBlock, c: &MerkleConcealed)
    requires tree.depth.wf(), block.ok(), block.cs() == tree.slots(), block.depth == tree.depth, block.cofactor == tree.cofactor, block.conceal_spec(*c)
    ensures cid(tree) == commitment_of(tree.depth, tree.cofactor, merkle_root(hashes(tree.slots()))), // @C03
        cid(block) == cid(tree), cid(c) == cid(tree), tree.conceal_spec(*c), block.cid_spec() == cid(block), // @C03
{
    lemma_tree_slots(tree.map.c@, tree.entropy, tree.depth);
    lemma_commitment_of(conc(tree.depth, tree.cofactor, tree.root_spec()));
}
}
