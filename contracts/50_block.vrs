// commit_verify/src/mpc/block.rs
verus! {
//% item commit_verify/src/mpc/block.rs LeafNotKnown {
//%   derive Debug
//% }
//% item commit_verify/src/mpc/block.rs InvalidProof {
//%   derive Debug
//% }
//% item commit_verify/src/mpc/block.rs MergeError
//% item commit_verify/src/mpc/block.rs MerkleConcealed {
//%   derive Copy Clone
//% }
//% item commit_verify/src/mpc/block.rs MerkleBlock
impl MerkleBlock {
//% fn @expanded MerkleBlock::method
//% ret r
//% props C03
//% spec
    ensures r == self.method,
//% end
//% fn @expanded MerkleBlock::depth
//% ret r
//% props C03
//% spec
    ensures r == self.depth,
//% end
//% fn @expanded MerkleBlock::cofactor
//% ret r
//% props C03
//% spec
    ensures r == self.cofactor,
//% end
//% fn @expanded MerkleBlock::entropy
//% ret r
//% props C03 C04
//% spec
    ensures r == self.entropy,
//% end
}
impl MerkleProof {
//% fn @expanded MerkleProof::method
//% ret r
//% props C05
//% spec
    ensures r == self.method,
//% end
//% fn @expanded MerkleProof::pos
//% ret r
//% props C05
//% spec
    ensures r == self.pos,
//% end
//% fn @expanded MerkleProof::cofactor
//% ret r
//% props C05
//% spec
    ensures r == self.cofactor,
//% end
}
impl Clone for MerkleBlock {
//% fn @expanded <MerkleBlock as Clone>::clone
//% ret r
//% props C03 C04 C05 C07
//% spec
    ensures r == *self,
//% end
}
//% item commit_verify/src/mpc/block.rs MerkleProof
impl Discr for TreeNode { open spec fn discr(&self) -> int { match self { TreeNode::ConcealedNode { .. } => 0, TreeNode::CommitmentLeaf { .. } => 1 } } }
//% gsub :: core :: intrinsics :: discriminant_value => discriminant_value
//% gsub unsafe { :: core :: intrinsics :: unreachable() } => unreached()
impl PartialEq for TreeNode {
//% fn @expanded <TreeNode as PartialEq>::eq
//% ret r
//% props C04 C07
//% end
}
//% clear-gsubs
impl Eq for TreeNode {}
impl PartialEqSpecImpl for TreeNode { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &TreeNode) -> bool { *self == *o } }

impl TreeNode {
//% fn commit_verify/src/mpc/block.rs TreeNode::with
//% ret r
//% props C04
//% spec
    requires depth.wf() ensures r == cnode(depth.n(), node_hash(depth.n(), width as nat, hash1, hash2)),
//% end
//% fn commit_verify/src/mpc/block.rs TreeNode::depth
//% ret r
//% props C07
//% spec
    ensures r == (match *self { TreeNode::ConcealedNode { depth, .. } => Some(depth), _ => None }),
//% end
//% fn commit_verify/src/mpc/block.rs TreeNode::depth_or
//% ret r
//% props C07
//% spec
    ensures tree_depth.wf() ==> r.n() == ndepth(*self, tree_depth.n()), self is CommitmentLeaf ==> r == tree_depth, self matches TreeNode::ConcealedNode { depth, .. } ==> r == depth,
//% end
//% fn commit_verify/src/mpc/block.rs TreeNode::is_leaf
//% ret r
//% props C07
//% spec
    ensures r == (self is CommitmentLeaf),
//% end
//% fn commit_verify/src/mpc/block.rs TreeNode::to_merkle_node
//% ret r
//% props C04 C03
//% spec
    ensures r == nhash(self),
//% start
    proof { match self { TreeNode::CommitmentLeaf { protocol_id, message } => { lemma_leaf_cid(Leaf::Inhabited { protocol: protocol_id, message }); } _ => {} } }
//% end
}
impl MerkleBlock {
    pub open spec fn D(&self) -> nat { self.depth.n() }
    pub open spec fn cs(&self) -> Seq<TreeNode> { self.cross_section.c@ }
    pub open spec fn tree(&self) -> GT { the_tree(self.cs(), self.D()) }
    /// well-formed: the cross-section is the leaf sequence of a binary tree of the declared depth
    pub open spec fn ok(&self) -> bool { self.depth.wf() && self.cross_section.wfc() && xsec(self.cs(), self.D()) }

//% fn commit_verify/src/mpc/block.rs MerkleBlock::width_limit
//% ret r
//% props C04
//% spec
    requires self.depth.wf() ensures r == pow2(self.D()),
//% start
    proof { lemma_pow_le(self.D()); }
//% end

//% fn commit_verify/src/mpc/block.rs MerkleBlock::conceal_except
//% ret res
//% props C04
//% spec
      requires old(self).ok()
      ensures final(self).ok(), // @C04
         res is Ok ==> final(self).entropy is None, // @C04
         res is Err ==> final(self).entropy is None || final(self).entropy == old(self).entropy, // @C04
         final(self).depth == old(self).depth, final(self).cofactor == old(self).cofactor, final(self).method == old(self).method, // @C04
         res is Ok <==> (forall|p: ProtocolId| protocols.as_ref_spec()@.contains(p) ==> known(old(self).cs(), p)), // @C04
         res matches Err(e) ==> protocols.as_ref_spec()@.contains(e.0) && !known(old(self).cs(), e.0), // @C04
         res is Err ==> final(self).cs() == hs(old(self).cs(), protocols.as_ref_spec()@, old(self).D()) || final(self).cs() == old(self).cs(), // @C04
         res is Ok ==> final(self).cs() == flat(reduce(old(self).tree(), 0, old(self).D(), protocols.as_ref_spec()@)), // @C04
//% start
        let ghost D = self.D();
        let ghost keep = protocols.as_ref_spec()@;
        let ghost s0 = self.cs();
        let ghost t0 = self.tree();
//% loop 1 pipe inv
        invariant it1.seq() == keep.map_values(|x: ProtocolId| &x),
            forall|p: ProtocolId| #[trigger] __acc1@.contains(p) <==> exists|i: int| 0 <= i < it1.index@ && keep[i] == p,
//% loop 1 pipe end
        assert forall|p: ProtocolId| #[trigger] __acc1@.contains(p) <==> exists|i: int| 0 <= i < it1.index@ + 1 && keep[i] == p by {
            if p == keep[it1.index@ as int] { assert(keep[it1.index@ as int] == p); }
        }
//% loop 2 for inv
          invariant it2.seq().len() == s0.len(), forall|i: int| 0 <= i < s0.len() ==> *(#[trigger] it2.seq()[i]) == s0[i],
             forall|i: int| 0 <= i < it2.index@ ==> *final(#[trigger] it2.seq()[i]) == hide(s0[i], keep, D),
             count <= it2.index@, D == self.depth.n(), keep == protocols@, s0.len() <= U32MAX,
             forall|p: ProtocolId| #[trigger] not_found@.contains(p) <==> keep.contains(p) && !known(s0.take(it2.index@ as int), p),
//% loop 2 for start
            proof {
               assert(s0.take(it2.index@ + 1) =~= s0.take(it2.index@ as int).push(s0[it2.index@ as int]));
               lemma_known_push(s0.take(it2.index@ as int), s0[it2.index@ as int]);
               lemma_eq_pid();
            }
//% loop 2 for after
        proof { assert(self.cs() =~= hs(s0, keep, D)); assert(s0.take(s0.len() as int) =~= s0); }
        let ghost mut t = ht(t0, keep, D);
        proof { lemma_ht(t0, 0, D, keep); assert(is_tree(t, self.cs(), D)); }
//% if 1 then start
            proof { assert(not_found@.contains(protocol_id)); }
//% if 1 after
        proof { lemma_reduce(t0, 0, D, keep); assert forall|p: ProtocolId| keep.contains(p) implies known(s0, p) by { assert(!not_found@.contains(p)); } }
//% loop 3 loop inv
           invariant_except_break
             count + self.cs().len() <= 2 * s0.len(),
           invariant
             self.cs().len() >= 1,
             D == self.depth.n(), D < 32, wf(t, 0, D), flat(t) == self.cs(), reduce(t, 0, D, keep) == reduce(t0, 0, D, keep),
             all_kept(self.cs(), keep), self.cross_section.wfc(), s0.len() <= U32MAX,
             self.depth == old(self).depth, self.cofactor == old(self).cofactor, self.method == old(self).method, self.entropy is None,
           ensures reduce(t, 0, D, keep) == t
           decreases self.cs().len()
//% let len 1 after
            let ghost l0 = self.cs().len();
//% loop 4 while inv
             invariant
             count + self.cs().len() <= 2 * s0.len(), self.cs().len() >= 1,
             D == self.depth.n(), D < 32, wf(t, 0, D), flat(t) == self.cs(), reduce(t, 0, D, keep) == reduce(t0, 0, D, keep),
             all_kept(self.cs(), keep), self.cross_section.wfc(), s0.len() <= U32MAX,
             self.depth == old(self).depth, self.cofactor == old(self).cofactor, self.method == old(self).method, self.entropy is None,
             len == self.cs().len(), pos <= len, offset == off(self.cs(), pos as nat, D),
             count >= prev_count, count > prev_count ==> len < l0, count == prev_count ==> len == l0 && no_pair_to(self.cs(), pos as int, D),
               decreases len - pos
//% loop 4 while start
                let ghost s = self.cs();
                proof { lemma_flat_width(t, 0, D); lemma_off_step(s, pos as nat, D); lemma_p31(D); lemma_pow2_all(); lemma_pow_all();
                  if pos + 1 < len { lemma_off_step(s, pos as nat + 1, D); }  }
//% match 2 arm 1 start
                        proof { if depth1.n() == 0 { lemma_top(t, 0, D, pos as int); } else { lemma_pow2_unfold((D - depth1.n() + 1) as nat); } }
//% match 2 arm 1 post
                            proof { if self.cs().len() < s.len() {
                               assert(pair(s, pos as int, D, 0));
                               lemma_mod_0(pow2(D));
                               lemma_merge(t, 0, D, pos as int, 0, keep);
                               let s2 = merged(s, pos as int, D);
                               assert(self.cs() =~= s2);
                               t = mtree(t, 0, D, pos as int);
                               lemma_off_prefix(s, s2, pos as nat, D);
                               lemma_flat_width(t, 0, D);
                               lemma_off_step(s2, pos as nat, D);
                               assert(s2[pos as int] == cnode(depth.n(), node_hash(depth.n(), pow2(D), hash1, hash2)));
                               assert forall|i: int| 0 <= i < s2.len() implies is_conc(#[trigger] s2[i]) || kept(s2[i], keep) by { if i < pos { assert(s2[i] == s[i]); } else if i > pos { assert(s2[i] == s[i+1]); } }
                            } }
//% loop 4 while after
            proof { lemma_flat_width(t, 0, D); }
//% if 3 then start
                proof { lemma_pow2_pos(D); lemma_mod_0(pow2(D)); lemma_reduced(t, 0, D, 0, keep); }
//% loop 3 loop after
        proof { assert(is_tree(t, self.cs(), D)); }
//% end
}
}
