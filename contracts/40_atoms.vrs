// commit_verify/src/mpc/atoms.rs
verus! {
//% item commit_verify/src/mpc/atoms.rs Method {
//%   derive Copy Clone PartialEq Eq Structural
//% }
//% item commit_verify/src/mpc/atoms.rs ProtocolId {
//%   derive Copy Clone Debug
//% }
//% item commit_verify/src/mpc/atoms.rs Message {
//%   derive Copy Clone Debug
//% }
//% item commit_verify/src/mpc/atoms.rs Commitment {
//%   derive Copy Clone Debug
//% }
//% item commit_verify/src/mpc/atoms.rs Leaf {
//%   derive Copy Clone
//% }
impl PartialEq for ProtocolId {
//% fn @expanded <ProtocolId as PartialEq>::eq
//% ret r
//% props C04 C05 C06
//% end
}
impl Eq for ProtocolId {}
// the keys of the message map: their order agrees with equality
impl PartialOrdSpecImpl for ProtocolId { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &ProtocolId) -> Option<Ordering> { Some(bytes_order(self.0, o.0)) } }
impl OrdSpecImpl for ProtocolId { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &ProtocolId) -> Ordering { bytes_order(self.0, o.0) } }
impl PartialOrd for ProtocolId {
//% fn @expanded <ProtocolId as PartialOrd>::partial_cmp
//% ret r
//% props C02 C05
//% end
}
impl Ord for ProtocolId {
//% fn @expanded <ProtocolId as Ord>::cmp
//% ret r
//% props C02 C05
//% spec
    ensures r is Equal <==> *self == *other,
//% start
    proof { axiom_bytes_order(self.0, other.0); }
//% end
}
impl PartialEqSpecImpl for ProtocolId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ProtocolId) -> bool { *self == *o } }
impl PartialEq for Message {
//% fn @expanded <Message as PartialEq>::eq
//% ret r
//% props C06 C07
//% end
}
impl Eq for Message {}
impl PartialEqSpecImpl for Message { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Message) -> bool { *self == *o } }
impl PartialEq for Commitment {
//% fn @expanded <Commitment as PartialEq>::eq
//% ret r
//% props C03 C07
//% end
}
impl Eq for Commitment {}
impl PartialEqSpecImpl for Commitment { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Commitment) -> bool { *self == *o } }
impl Deref for ProtocolId { type Target = Bytes32;
//% fn @expanded <ProtocolId as Deref>::deref
//% ret r
//% props C02 C05 C06
//% spec
    ensures *r == self.0,
//% end
}

impl ProtocolId {
//% fn commit_verify/src/mpc/atoms.rs ProtocolId::copy_from_slice
//% ret r
//% props C02 C05 C17
//% result-map
//% spec
    ensures r is Ok <==> slice@.len() == 32, r matches Ok(x) ==> x.0.a@ == slice@,
//% end
}
impl Message {
//% fn commit_verify/src/mpc/atoms.rs Message::copy_from_slice
//% ret r
//% props C02 C05 C17
//% result-map
//% spec
    ensures r is Ok <==> slice@.len() == 32, r matches Ok(x) ==> x.0.a@ == slice@,
//% end
}
impl Commitment {
//% fn commit_verify/src/mpc/atoms.rs Commitment::copy_from_slice
//% ret r
//% props C03 C17
//% result-map
//% spec
    ensures r is Ok <==> slice@.len() == 32, r matches Ok(x) ==> x.0.a@ == slice@,
//% end
}
impl FromSpecImpl<[u8; 32]> for ProtocolId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; 32]) -> Self { ProtocolId(Bytes32 { a: v }) } }
impl From<[u8; 32]> for ProtocolId {
//% fn @expanded <ProtocolId as From<[u8;32]>>::from
//% ret r
//% props C02 C05
//% end
}
impl FromSpecImpl<[u8; 32]> for Message { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; 32]) -> Self { Message(Bytes32 { a: v }) } }
impl From<[u8; 32]> for Message {
//% fn @expanded <Message as From<[u8;32]>>::from
//% ret r
//% props C02 C05
//% end
}
//% strict commit_verify/src/mpc/atoms.rs ProtocolId
//% strict commit_verify/src/mpc/atoms.rs Message
//% strict commit_verify/src/mpc/atoms.rs Commitment
//% strict commit_verify/src/mpc/atoms.rs Leaf
impl StrictType for Leaf {
//% implconst @expanded <Leaf as strict_encoding::StrictType>::STRICT_LIB_NAME
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl StrictEncode for Leaf {
    #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() }
}
impl StrictType for Commitment {
//% implconst @expanded <Commitment as strict_encoding::StrictType>::STRICT_LIB_NAME
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
/// the type names involved are distinct (names are unique in a strict type library)
pub open spec fn leaf_named() -> bool { named::<Leaf>() && fqn_of::<Leaf>() != fqn_of::<MerkleHash>() && fqn_of::<Leaf>() != fqn_of::<StrictHash>() }
pub axiom fn axiom_leaf_named() ensures leaf_named();
impl CommitEncode for Leaf {
    type CommitmentId = MerkleHash;
    open spec fn ce_ok(&self) -> bool { leaf_named() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() }
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<Leaf>())] }
//% gsub crate::CommitEngine => CommitEngine
//% fn @expanded <Leaf as CommitEncode>::commit_encode
//% props C20 C01 C09 C19
//% end
//% clear-gsubs
}
impl Leaf {
//% fn commit_verify/src/mpc/atoms.rs Leaf::entropy
//% ret r
//% props C03 C01 C02
//% spec
    ensures r == (Leaf::Entropy { entropy, pos }),
//% end
//% fn commit_verify/src/mpc/atoms.rs Leaf::inhabited
//% ret r
//% props C03 C01 C02
//% spec
    ensures r == (Leaf::Inhabited { protocol, message }),
//% end
}
/// LNPBP-4 leaf hashes
pub open spec fn inhabited_bytes(p: ProtocolId, m: Message) -> Seq<u8> { seq![0x10u8] + p.0.a@ + m.0.a@ }
pub open spec fn entropy_bytes(e: u64, pos: u32) -> Seq<u8> { seq![0x11u8] + le(e as nat, 8) + le(pos as nat, 4) }
#[verifier::opaque]
pub open spec fn leaf_hash(p: ProtocolId, m: Message) -> MerkleHash { mhash(inhabited_bytes(p, m)) }
#[verifier::opaque]
pub open spec fn entropy_hash(e: u64, pos: u32) -> MerkleHash { mhash(entropy_bytes(e, pos)) }
pub proof fn lemma_leaf_cid(l: Leaf)
    ensures l matches Leaf::Inhabited { protocol, message } ==> cid(&l) == leaf_hash(protocol, message) && l.sb() == inhabited_bytes(protocol, message), // @C01,C02,C03,C19
        l matches Leaf::Entropy { entropy, pos } ==> cid(&l) == entropy_hash(entropy, pos) && l.sb() == entropy_bytes(entropy, pos), // @C01,C02,C03,C19
        l.ce_ok(), l.ce_steps().len() == 1
{
    axiom_leaf_named(); merkle_tag(); reveal(leaf_hash); reveal(entropy_hash);
    match l {
        Leaf::Inhabited { protocol, message } => { assert(l.sb() =~= inhabited_bytes(protocol, message)); }
        Leaf::Entropy { entropy, pos } => { assert(l.sb() =~= entropy_bytes(entropy, pos)); }
    }
}
/// C19: an inhabited leaf, an entropy leaf and a merkle node never share a preimage
pub proof fn lemma_preimages_disjoint(p: ProtocolId, m: Message, e: u64, pos: u32, k: NodeBranching, d: nat, w: nat, a: MerkleHash, b: MerkleHash)
    ensures inhabited_bytes(p, m) != entropy_bytes(e, pos), // @C19
        inhabited_bytes(p, m) != node_bytes(k.sb()[0], d, w, a, b), // @C19
        entropy_bytes(e, pos) != node_bytes(k.sb()[0], d, w, a, b), // @C19
{
    assert(inhabited_bytes(p, m)[0] == 0x10); assert(entropy_bytes(e, pos)[0] == 0x11);
    assert(node_bytes(k.sb()[0], d, w, a, b)[0] == k.sb()[0]);
    lemma2_to64();
    match k { NodeBranching::Void => { lemma_mnode(k, 0, 0, a, b); } NodeBranching::Single => { lemma_mnode(k, 0, 0, a, b); } NodeBranching::Branch => { lemma_mnode(k, 0, 0, a, b); } }
}
/// C19: leaf preimages are equal only for equal leaves
pub proof fn lemma_inhabited_inj(p: ProtocolId, m: Message, p2: ProtocolId, m2: Message)
    requires inhabited_bytes(p, m) == inhabited_bytes(p2, m2)
    ensures p == p2, m == m2 // @C19
{
    let (s, t) = (inhabited_bytes(p, m), inhabited_bytes(p2, m2));
    assert(s.subrange(1, 33) =~= p.0.a@); assert(t.subrange(1, 33) =~= p2.0.a@);
    assert(s.subrange(33, 65) =~= m.0.a@); assert(t.subrange(33, 65) =~= m2.0.a@);
    lemma_bytes32(p.0, p2.0); lemma_bytes32(m.0, m2.0);
}
pub proof fn lemma_entropy_inj(e: u64, pos: u32, e2: u64, pos2: u32)
    requires entropy_bytes(e, pos) == entropy_bytes(e2, pos2)
    ensures e == e2, pos == pos2 // @C19
{
    let (s, t) = (entropy_bytes(e, pos), entropy_bytes(e2, pos2));
    lemma_le_len(e as nat, 8); lemma_le_len(pos as nat, 4); lemma_le_len(e2 as nat, 8); lemma_le_len(pos2 as nat, 4);
    assert(s.subrange(1, 9) =~= le(e as nat, 8)); assert(t.subrange(1, 9) =~= le(e2 as nat, 8));
    assert(s.subrange(9, 13) =~= le(pos as nat, 4)); assert(t.subrange(9, 13) =~= le(pos2 as nat, 4));
    lemma2_to64(); lemma2_to64_rest();
    lemma_le_inj(e as nat, e2 as nat, 8); lemma_le_inj(pos as nat, pos2 as nat, 4);
}

impl FromSpecImpl<[u8; 32]> for Commitment { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; 32]) -> Self { Commitment(Bytes32 { a: v }) } }
impl From<[u8; 32]> for Commitment {
//% fn @expanded <Commitment as From<[u8;32]>>::from
//% ret r
//% props C03 C09
//% end
}
impl FromSpecImpl<Sha256> for Commitment { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Sha256) -> Self { Commitment(Bytes32 { a: sha256(v@) }) } }
impl From<Sha256> for Commitment {
//% fn commit_verify/src/mpc/atoms.rs <Commitment as From<Sha256>>::from
//% ret r
//% props C03 C09
//% tail bind
        assert(r.0.a =~= sha256(hasher@));
//% end
}
impl CommitmentId for Commitment {
//% implconst commit_verify/src/mpc/atoms.rs <Commitment as CommitmentId>::TAG
    open spec fn of_hash(h: [u8; 32]) -> Self { Commitment(Bytes32 { a: h }) }
    proof fn law_from(e: Sha256) {}
}
/// the tag of multi-protocol commitments is the published one
proof fn commitment_tag() ensures <Commitment as CommitmentId>::TAG@ == "urn:ubideco:mpc:commitment#2024-01-31"@ // @C03,C09
{}
}
