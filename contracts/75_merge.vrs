// commit_verify/src/mpc/block.rs: merge-reveal
verus! {
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
// derive(From) of amplify (assumed): `#[from]` variant
impl FromSpecImpl<InvalidProof> for MergeError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: InvalidProof) -> MergeError { MergeError::InvalidProof(x) } }
pub broadcast axiom fn axiom_merge_error_from(v: InvalidProof, r: MergeError) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<MergeError, InvalidProof>(v, r) ==> r == MergeError::InvalidProof(v);
impl From<InvalidProof> for MergeError { fn from(x: InvalidProof) -> MergeError { MergeError::InvalidProof(x) } }
/// the front of one sequence: its next node is taken, the others are still in the iterator
pub proof fn lemma_head(k: int, last: Option<TreeNode>, r: Seq<TreeNode>, bl: Seq<(GT, GT, nat)>, D: nat)
    requires bl.len() > 0, cuts_ok(bl, D), k == 0 || k == 1, opt_seq(last) + r =~= cat(k, bl), last is None ==> r.len() == 0
    ensures last == Some(side(k, bl[0])[0]), r == side(k, bl[0]).skip(1) + cat(k, bl.skip(1)), (if k == 0 { bl[0].0 } else { bl[0].1 }) is Node ==> r == cat(k, bl.skip(1)), // @C07
        r == (side(k, bl[0]) + cat(k, bl.skip(1))).skip(1)
{
    lemma_front(bl, D);
    assert((opt_seq(last) + r)[0] == side(k, bl[0])[0]);
    assert(r =~= (opt_seq(last) + r).skip(1));
    assert(r =~= side(k, bl[0]).skip(1) + cat(k, bl.skip(1)));
    assert(r =~= (side(k, bl[0]) + cat(k, bl.skip(1))).skip(1));
    if (if k == 0 { bl[0].0 } else { bl[0].1 }) is Node { assert(r =~= cat(k, bl.skip(1))); }
}
impl MerkleBlock {
    /// hypothesis: no hash collision among the strings hashed for the two blocks
    pub open spec fn no_collision_with(&self, o: &MerkleBlock) -> bool {
        no_commitment_collision(self.conc(), o.conc()) && exists|S: Set<Seq<u8>>| #[trigger] collision_free(S) && tcov(self.tree(), 0, self.D(), S) && tcov(o.tree(), 0, o.D(), S)
    }
//% gsub MerkleBuoy::<u5> => MerkleBuoy
//% fn commit_verify/src/mpc/block.rs MerkleBlock::merge_reveal
//% ret r
//% props C07
//% spec
    requires old(self).ok(), other.ok(), cid(old(self)) == cid(&other) ==> old(self).no_collision_with(&other)
    ensures r is Ok <==> cid(old(self)) == cid(&other), // @C07,C08
        r matches Err(e) ==> e == (MergeError::UnrelatedBlocks { base_root: cid(old(self)), merged_root: cid(&other) }), // @C07
        r is Err ==> *final(self) == *old(self), // @C07
        r is Ok ==> final(self).ok() && final(self).depth == old(self).depth && final(self).cofactor == old(self).cofactor && final(self).method == old(self).method && final(self).entropy == old(self).entropy, // @C07,C08
        r is Ok ==> final(self).tree() == mg(old(self).tree(), other.tree()) && final(self).cs() == flat(final(self).tree()) && agree(old(self).tree(), other.tree()), // @C07
        r is Ok ==> cid(final(self)) == cid(old(self)), // @C07
        r is Ok ==> forall|n: TreeNode| n is CommitmentLeaf ==> (#[trigger] final(self).cs().contains(n) <==> old(self).cs().contains(n) || other.cs().contains(n)), // @C07
        r is Ok && old(self).placed() && other.placed() ==> final(self).placed(), // @C07
        r matches Ok(n) ==> n == final(self).cs().len() as u16, // @C07
//% start
    let ghost D = self.D(); let ghost (ta, tb) = (self.tree(), other.tree()); let ghost s2 = flat(mg(ta, tb));
    proof { axiom_conc_named(); lemma_commitment_of(self.conc()); lemma_commitment_of(other.conc()); lemma_flat_nonempty(ta); lemma_flat_nonempty(tb); }
//% let cross_section 1 before
    let ghost mut bl = prs(ta, tb, 0);
    proof {
        lemma_commitment_inj(self.depth, self.cofactor, self.root_spec(), other.depth, other.cofactor, other.root_spec());
        let S = choose|S: Set<Seq<u8>>| #[trigger] collision_free(S) && tcov(self.tree(), 0, self.D(), S) && tcov(other.tree(), 0, other.D(), S);
        lemma_agree(ta, tb, 0, D, S); lemma_prs(ta, tb, 0, D); lemma_the_tree(mg(ta, tb), s2, D); assert(is_tree(mg(ta, tb), s2, D));
    }
//% loop 1 whilelet inv
        invariant a.obeys_prophetic_iter_laws(), a.decrease() is Some, b.obeys_prophetic_iter_laws(), b.decrease() is Some,
            self.depth == old(self).depth, self.depth.wf(), D == self.depth.n(), cuts_ok(bl, D),
            opt_seq(last_a) + a.remaining() =~= cat(0, bl), opt_seq(last_b) + b.remaining() =~= cat(1, bl), last_a is None ==> a.remaining().len() == 0, last_b is None ==> b.remaining().len() == 0,
            cross_section@ + cat(2, bl) =~= s2,
        ensures bl.len() == 0
        decreases bl.len()
//% loop 1 whilelet start
            let ghost (r1, r2) = (a.remaining(), b.remaining()); let ghost c0 = cross_section@;
            proof { if bl.len() > 0 { lemma_front(bl, D); lemma_head(0, last_a, r1, bl, D); lemma_head(1, last_b, r2, bl, D); } }
//% loop 1 whilelet end
            proof { if bl[0].0 is Node { assert(opt_seq(last_a) + a.remaining() =~= r1); } if bl[0].1 is Node { assert(opt_seq(last_b) + b.remaining() =~= r2); } bl = bl.skip(1); }
//% loop 1 whilelet after
        ;
//% let stop 1 after
                    let ghost s = side(1, bl[0]); let ghost rest = cat(1, bl.skip(1)); let ghost cs0 = cross_section@.drop_last(); let ghost mut m: int = 1;
                    proof { lemma_flat_width(if 1 == 0 { bl[0].0 } else { bl[0].1 }, bl[0].2, D); lemma_lvl(if 1 == 0 { bl[0].0 } else { bl[0].1 }, bl[0].2, D); assert(cross_section@ =~= cs0 + s.take(1)); assert((s + rest).skip(1) == b.remaining()); assert(s.subrange(1, 1) =~= Seq::empty()); }
//% loop 2 pipeloop inv
                        invariant_except_break
                            1 <= m <= s.len(), last_b is None, b.remaining() =~= (s + rest).skip(m), cross_section@ =~= cs0 + s.take(m), stop == (m == s.len()), buoy.lv() == lvl(s, m, D),
                        invariant
                            b.obeys_prophetic_iter_laws(), b.decrease() is Some, buoy.ok(), self.depth == old(self).depth, self.depth.wf(), D == self.depth.n(),
                            s == side(1, bl[0]), rest == cat(1, bl.skip(1)), bl.len() > 0, cuts_ok(bl, D), s.len() >= 2, n1_depth.wf(), n1_depth.n() == bl[0].2,
                            lvl(s, s.len() as int, D) == seq![bl[0].2], forall|j: int| 1 <= j < s.len() ==> (#[trigger] lvl(s, j, D)).last() > bl[0].2, forall|j: int| 0 <= j < s.len() ==> ndepth(#[trigger] s[j], D) <= D,
                        ensures cross_section@ =~= cs0 + s, opt_seq(last_b) + b.remaining() =~= rest, last_b is None ==> b.remaining().len() == 0,
                        decreases b.decrease()->0
//% loop 2 pipeloop start
                        let ghost r0 = b.remaining();
                        proof { if m < s.len() { lemma_lvl_step(s, m, D); assert(r0[0] == s[m]); assert(s.take(m + 1) =~= s.take(m).push(s[m])); } else if rest.len() > 0 { assert(r0[0] == rest[0]); } assert(s.take(s.len() as int) =~= s); }
//% loop 2 pipeloop end
                        proof { m = m + 1; }
//% let stop 2 after
                    let ghost s = side(0, bl[0]); let ghost rest = cat(0, bl.skip(1)); let ghost cs0 = cross_section@.drop_last(); let ghost mut m: int = 1;
                    proof { lemma_flat_width(if 0 == 0 { bl[0].0 } else { bl[0].1 }, bl[0].2, D); lemma_lvl(if 0 == 0 { bl[0].0 } else { bl[0].1 }, bl[0].2, D); assert(cross_section@ =~= cs0 + s.take(1)); assert((s + rest).skip(1) == a.remaining()); assert(s.subrange(1, 1) =~= Seq::empty()); }
//% loop 3 pipeloop inv
                        invariant_except_break
                            1 <= m <= s.len(), last_a is None, a.remaining() =~= (s + rest).skip(m), cross_section@ =~= cs0 + s.take(m), stop == (m == s.len()), buoy.lv() == lvl(s, m, D),
                        invariant
                            a.obeys_prophetic_iter_laws(), a.decrease() is Some, buoy.ok(), self.depth == old(self).depth, self.depth.wf(), D == self.depth.n(),
                            s == side(0, bl[0]), rest == cat(0, bl.skip(1)), bl.len() > 0, cuts_ok(bl, D), s.len() >= 2, n2_depth.wf(), n2_depth.n() == bl[0].2,
                            lvl(s, s.len() as int, D) == seq![bl[0].2], forall|j: int| 1 <= j < s.len() ==> (#[trigger] lvl(s, j, D)).last() > bl[0].2, forall|j: int| 0 <= j < s.len() ==> ndepth(#[trigger] s[j], D) <= D,
                        ensures cross_section@ =~= cs0 + s, opt_seq(last_a) + a.remaining() =~= rest, last_a is None ==> a.remaining().len() == 0,
                        decreases a.decrease()->0
//% loop 3 pipeloop start
                        let ghost r0 = a.remaining();
                        proof { if m < s.len() { lemma_lvl_step(s, m, D); assert(r0[0] == s[m]); assert(s.take(m + 1) =~= s.take(m).push(s[m])); } else if rest.len() > 0 { assert(r0[0] == rest[0]); } assert(s.take(s.len() as int) =~= s); }
//% loop 3 pipeloop end
                        proof { m = m + 1; }
//% loop 4 pipe inv
            invariant cross_section@ == s2, it4.seq().len() == 0
//% loop 5 pipe inv
            invariant cross_section@ == s2, it5.seq().len() == 0
//% loop 5 pipe after
        ;
        proof { lemma_flat_len(mg(ta, tb), 0, D); lemma_flat_width(mg(ta, tb), 0, D); lemma_p31(D); assert(cross_section@ == s2); }
//% loop 6 pipe inv
            invariant self.depth == old(self).depth, self.depth.wf(), D == self.depth.n(), it6.seq() =~= s2.map_values(|x: TreeNode| &x), __sum1 == off(s2, it6.index@ as nat, D), off(s2, s2.len(), D) == pow2(D), depths_ok(s2, D),
//% loop 6 pipe start
            proof { lemma_off_step(s2, it6.index@ as nat, D); lemma_pow2_all(); lemma_pow_all(); }
//% tail before
        proof {
            assert forall|n: TreeNode| n is CommitmentLeaf implies (#[trigger] self.cs().contains(n) <==> old(self).cs().contains(n) || other.cs().contains(n)) by { lemma_mg_leaves(ta, tb, n); }
            if old(self).placed() && other.placed() { lemma_mg_placed(ta, tb, 0, D, 0, self.cofactor); }
        }
//% end
    /// hypothesis: no hash collision among the strings hashed for the block and for the proof
    pub open spec fn no_collision_with_path(&self, o: &MerkleProof, p: ProtocolId, m: Message) -> bool {
        no_commitment_collision(self.conc(), o.conc(p, m)) && exists|S: Set<Seq<u8>>| #[trigger] collision_free(S) && tcov(self.tree(), 0, self.D(), S) && tcov(o.ptree(p, m), 0, o.ph().len(), S)
    }
//% fn commit_verify/src/mpc/block.rs MerkleBlock::merge_reveal_path
//% ret r
//% props C07 C08
//% spec
    requires old(self).ok(), proof.inv(), proof.fits(protocol_id) && cid(old(self)) == proof.cid_spec(protocol_id, message) ==> old(self).no_collision_with_path(proof, protocol_id, message)
    ensures r is Ok <==> proof.fits(protocol_id) && cid(old(self)) == proof.cid_spec(protocol_id, message), // @C07,C08
        !proof.fits(protocol_id) ==> r matches Err(MergeError::InvalidProof(_)), // @C07,C08
        r matches Err(MergeError::UnrelatedBlocks { base_root, merged_root }) ==> base_root == cid(old(self)) && merged_root == proof.cid_spec(protocol_id, message), // @C07
        r is Err ==> *final(self) == *old(self), // @C07
        r is Ok ==> final(self).ok() && cid(final(self)) == cid(old(self)) && final(self).depth == old(self).depth && final(self).cofactor == old(self).cofactor && final(self).method == old(self).method && final(self).entropy == old(self).entropy, // @C07
        r is Ok ==> forall|n: TreeNode| n is CommitmentLeaf ==> (#[trigger] final(self).cs().contains(n) <==> old(self).cs().contains(n) || n == cleaf(protocol_id, message)), // @C07
        r is Ok && old(self).placed() ==> final(self).placed(), // @C07
        r matches Ok(n) ==> n == final(self).cs().len() as u16, // @C07
//% start
    broadcast use axiom_merge_error_from;
    proof { axiom_conc_named(); }
//% let block 1 after
    proof { lemma_commitment_of(block.conc()); lemma_slot(protocol_id, proof.cofactor, proof.D()); assert(cid(&block) == proof.cid_spec(protocol_id, message)); lemma_placed_ptree(proof.ph(), 0, proof.ph().len(), proof.pos as nat, 0, proof.cofactor, protocol_id, message);
        assert forall|n: TreeNode| n is CommitmentLeaf implies (block.cs().contains(n) <==> n == cleaf(protocol_id, message)) by { lemma_ptree_known(proof.ph(), 0, proof.ph().len(), proof.pos as nat, cleaf(protocol_id, message), n); } }
//% end
//% clear-gsubs
}
}
