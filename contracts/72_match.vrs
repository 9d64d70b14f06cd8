// commit_verify/src/mpc/block.rs: matching of inclusion proofs
verus! {
/// the proofs are made from one block, for protocols standing in the same half of the tree
/// (proofs from different halves: known finding C21 other-half, decided by the conformance harness)
pub open spec fn same_half(a: &MerkleProof, b: &MerkleProof, blk: &MerkleBlock, p: ProtocolId, q: ProtocolId) -> bool {
    blk.ok() && blk.placed() && blk.proof_for(p, *a) && blk.proof_for(q, *b) && (blk.D() > 0 ==> (a.pos >= pow2((blk.D() - 1) as nat)) == (b.pos >= pow2((blk.D() - 1) as nat)))
}
impl Proof for MerkleProof {
    open spec fn match_ok(&self) -> bool { self.inv() }
    open spec fn match_spec(&self, o: &Self, r: bool) -> bool { ((exists|blk: MerkleBlock, p: ProtocolId, q: ProtocolId| #[trigger] same_half(self, o, &blk, p, q)) ==> r) && (r ==> self.cofactor == o.cofactor) }
//% fn commit_verify/src/mpc/block.rs <MerkleProof as Proof>::matches
//% ret r
//% props C21
//% start
    proof {
        assert forall|blk: MerkleBlock, p: ProtocolId, q: ProtocolId| #[trigger] same_half(self, other, &blk, p, q) implies self.ph().len() == other.ph().len() && (self.ph().len() > 0 ==> self.ph()[0] == other.ph()[0]) by {
            match blk.tree() { GT::Br(l, r) => {
                let h = pow2((blk.D() - 1) as nat); let D = blk.D();
                if self.pos >= h { assert(self.ph()[0] == th(*l, 1, D)); assert(other.ph()[0] == th(*l, 1, D)); } else { assert(self.ph()[0] == th(*r, 1, D)); assert(other.ph()[0] == th(*r, 1, D)); }
            } _ => {} }
        }
    }
//% end
}
}
