// commit_verify/src/mpc/block.rs: inclusion proofs
verus! {
impl MerkleProof {
    pub open spec fn ph(&self) -> Seq<MerkleHash> { self.path.c@ }
    /// holds for every value of the type (bounds of the confined path)
    pub open spec fn inv(&self) -> bool { self.path.wfc() }
    pub open spec fn D(&self) -> nat { if self.ph().len() <= 31 { self.ph().len() } else { 31 } }
//% fn commit_verify/src/mpc/block.rs MerkleProof::depth
//% ret r
//% props C08 C06
//% spec
    requires self.inv() ensures r.n() == self.D(), r.wf(),
//% end
//% fn commit_verify/src/mpc/block.rs MerkleProof::width_limit
//% ret r
//% props C08 C06
//% spec
    requires self.inv() ensures r == pow2(self.D()),
//% start
    proof { lemma_pow_is(self.D()); }
//% end
//% fn commit_verify/src/mpc/block.rs MerkleProof::factored_width
//% ret r
//% props C08
//% spec
    requires self.inv() ensures r == (if pow2(self.D()) >= self.cofactor { pow2(self.D()) - self.cofactor } else { 0 }),
//% end
//% fn commit_verify/src/mpc/block.rs MerkleProof::into_path
//% ret r
//% props C05
//% spec
    ensures r == self.path,
//% end
//% fn commit_verify/src/mpc/block.rs MerkleProof::to_path
//% ret r
//% props C05
//% spec
    ensures r == self.path,
//% end
//% fn commit_verify/src/mpc/block.rs MerkleProof::as_path
//% ret r
//% props C05 C06
//% sub & self.path => self.path.as_slice()
//% spec
    ensures r@ == self.ph(),
//% end
//% fn commit_verify/src/mpc/block.rs MerkleProof::merkle_root
//% ret r
//% props C21
//% sub self.path.first() => self.path.first()
//% spec
    ensures r == (if self.ph().len() > 0 { Some(self.ph()[0]) } else { None }),
//% end
}
impl MerkleBlock {
//% fn commit_verify/src/mpc/block.rs MerkleBlock::factored_width
//% ret r
//% props C08
//% spec
    requires self.depth.wf() ensures r == (if pow2(self.D()) >= self.cofactor { pow2(self.D()) - self.cofactor } else { 0 }),
//% end
//% fn commit_verify/src/mpc/block.rs MerkleBlock::protocol_id_pos
//% ret r
//% props C02 C05
//% spec
    requires self.depth.wf() ensures r == slot(protocol_id, self.cofactor, self.D()),
//% end
//% fn commit_verify/src/mpc/block.rs MerkleBlock::with
//% ret r
//% props C06 C08
//% spec
    requires proof.inv()
    ensures r is Ok <==> proof.fits(protocol_id), // @C06,C08,C05
        r matches Err(e) ==> e.protocol_id == protocol_id && e.expected == slot(protocol_id, proof.cofactor, proof.D()) && e.actual == proof.pos && e.width == pow2(proof.D()), // @C06
        r matches Ok(b) ==> b.ok() && b.depth.n() == proof.ph().len() && b.cofactor == proof.cofactor && b.method == proof.method && b.entropy is None, // @C05,C06,C08
        r matches Ok(b) ==> b.cs() == flat(proof.ptree(protocol_id, message)) && b.tree() == proof.ptree(protocol_id, message), // @C05,C06
//% start
    let ghost D = proof.ph().len();
    let ghost leaf = TreeNode::CommitmentLeaf { protocol_id, message };
    let ghost p0 = proof.pos as nat;
    let ghost s0 = flat(proof.ptree(protocol_id, message));
    proof { lemma_slot(protocol_id, proof.cofactor, proof.D()); lemma_pow_is(proof.D()); lemma2_to64(); }
//% loop 1 for before
    proof { assert(s0 =~= wsec(path@, 0, D, p0, leaf, Seq::empty(), Seq::empty())); }
//% loop 1 for inv
        invariant D == path@.len(), D <= 31, it1.seq() == path@.map_values(|x: MerkleHash| &x), __idx1 == it1.index@, path@ == proof.ph(),
            width_limit == pow2((D - it1.index@) as nat), pos < width_limit, leaf == (TreeNode::CommitmentLeaf { protocol_id, message }),
            dir@.len() + rev@.len() == it1.index@,
            s0 == wsec(path@, it1.index@ as nat, D, pos as nat, leaf, dir@, rev@),
//% loop 1 for start
        let ghost k = it1.index@ as nat;
        let ghost (dir0, rev0, pos0) = (dir@, rev@, pos as nat);
        proof { lemma_pow2_half(D, k); lemma2_to64(); lemma_p31((D - k) as nat); }
//% loop 1 for end
        proof { let n = cnode(k + 1, path@[k as int]); lemma_wstep(path@, k, D, pos0, leaf, dir0, rev0);
            if pos0 >= pow2((D - k - 1) as nat) { assert(dir@ == dir0.push(n)); } else { assert(rev@ == rev0.push(n)); } }
//% let cross_section 1 before
        let ghost (dir1, rev1) = (dir@, rev@);
        proof { assert(flat(ptree(path@, D, D, pos as nat, leaf)) =~= seq![leaf]); assert(s0 =~= dir1 + seq![leaf] + rev1.reverse()); }
//% loop 2 pipe inv
        invariant it2.seq() == dir1, cross_section@ =~= dir1.take(it2.index@ as int),
//% loop 3 pipe inv
        invariant it3.seq() =~= rev1.reverse(), cross_section@ =~= (dir1 + seq![leaf]) + rev1.reverse().take(it3.index@ as int),
//% let cross_section 2 after
        proof { assert(cross_section.c@ =~= s0); lemma_ptree(proof.ph(), 0, D, p0, leaf); lemma_the_tree(proof.ptree(protocol_id, message), s0, D); }
//% end
}
impl MerkleProof {
    /// the proof can be checked for the protocol: its position is the protocol's slot, and the path is not too long for a tree
    pub open spec fn fits(&self, p: ProtocolId) -> bool { self.pos == slot(p, self.cofactor, self.D()) && self.ph().len() <= 31 }
    /// the tree the proof describes
    pub open spec fn ptree(&self, p: ProtocolId, m: Message) -> GT { ptree(self.ph(), 0, self.ph().len(), self.pos as nat, TreeNode::CommitmentLeaf { protocol_id: p, message: m }) }
    pub open spec fn conc(&self, p: ProtocolId, m: Message) -> MerkleConcealed { conc(u5 { v: self.ph().len() as u8 }, self.cofactor, th(self.ptree(p, m), 0, self.ph().len())) }
    pub open spec fn cid_spec(&self, p: ProtocolId, m: Message) -> Commitment { commitment_of(u5 { v: self.ph().len() as u8 }, self.cofactor, th(self.ptree(p, m), 0, self.ph().len())) }
//% fn commit_verify/src/mpc/block.rs MerkleProof::convolve
//% ret r
//% props C05 C06 C08
//% spec
    requires self.inv()
    ensures r is Ok <==> self.fits(protocol_id), // @C05,C06,C08
        r matches Err(e) ==> e.protocol_id == protocol_id && e.expected == slot(protocol_id, self.cofactor, self.D()) && e.actual == self.pos && e.width == pow2(self.D()), // @C06
        r matches Ok(c) ==> c == self.cid_spec(protocol_id, message), // @C05,C06
//% start
    proof { axiom_conc_named(); }
//% let block 1 after
    proof { lemma_commitment_of(block.conc()); }
//% end
}
}
