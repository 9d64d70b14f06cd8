// C20: the derive macro applied to types of every shape (crate /verif/fixture, expanded on every run)
verus! {
/// the declared id
#[derive(Copy, Clone)]
pub struct FxId(pub [u8; 32]);
impl StrictType for FxId {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl FromSpecImpl<Sha256> for FxId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Sha256) -> Self { FxId(sha256(v@)) } }
impl From<Sha256> for FxId { fn from(h: Sha256) -> Self { let ghost b = h@; let r = h.finish(); proof { assert(r =~= sha256(b)); } FxId(r) } }
impl CommitmentId for FxId {
    const TAG: &'static str = "fixture";
    open spec fn of_hash(h: [u8; 32]) -> Self { FxId(h) }
    proof fn law_from(e: Sha256) {}
}
// amplify (assumed): a wrapper gives its inner value
pub trait Wrapper {
    type Inner;
    spec fn inner(&self) -> Self::Inner;
    fn as_inner(&self) -> (r: &Self::Inner) ensures *r == self.inner();
}
/// a type whose commitments are not hashes already made
pub open spec fn fx_named<T: StrictType>() -> bool { named::<T>() && fqn_of::<T>() != fqn_of::<MerkleHash>() && fqn_of::<T>() != fqn_of::<StrictHash>() }
/// a type as concealed forms have it, with any concealment of its own
pub struct Hidden { pub x: u64 }
impl StrictType for Hidden {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl SB for Hidden { uninterp spec fn sb(&self) -> Seq<u8>; }
impl StrictEncode for Hidden { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl Hidden { pub uninterp spec fn hidden(&self) -> Hidden; }
impl Conceal for Hidden {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
//% gsub commit_verify::CommitEngine => CommitEngine
//% gsub use commit_verify::Conceal; =>
//% gsub use amplify::Wrapper; =>
//% item @fixture SNamed
impl<T> StrictType for SNamed<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for SNamed<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for SNamed<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> SNamed<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for SNamed<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> SNamed<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for SNamed<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for SNamed<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for SNamed<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<SNamed<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<SNamed<T>>())] } // @C20
//% fn @fixture <SNamed<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture STuple
impl<T> StrictType for STuple<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for STuple<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for STuple<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> STuple<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for STuple<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> STuple<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for STuple<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for STuple<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for STuple<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<STuple<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<STuple<T>>())] } // @C20
//% fn @fixture <STuple<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture SWrap
impl<T> StrictType for SWrap<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for SWrap<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for SWrap<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> SWrap<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for SWrap<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> SWrap<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for SWrap<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for SWrap<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for SWrap<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<SWrap<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<SWrap<T>>())] } // @C20
//% fn @fixture <SWrap<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture SArray
impl<T, const N: usize> StrictType for SArray<T, N> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T, const N: usize> SB for SArray<T, N> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T, const N: usize> StrictEncode for SArray<T, N> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T, const N: usize> SArray<T, N> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T, const N: usize> Conceal for SArray<T, N> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> SArray<T, N> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> MerkleLeaves for SArray<T, N> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> Wrapper for SArray<T, N> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> CommitEncode for SArray<T, N> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<SArray<T, N>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<SArray<T, N>>())] } // @C20
//% fn @fixture <SArray<T,N> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture SEnum
impl<T> StrictType for SEnum<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for SEnum<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for SEnum<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> SEnum<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for SEnum<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> SEnum<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for SEnum<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for SEnum<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for SEnum<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<SEnum<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<SEnum<T>>())] } // @C20
//% fn @fixture <SEnum<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture SPlain
impl StrictType for SPlain {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl SB for SPlain { uninterp spec fn sb(&self) -> Seq<u8>; }
impl StrictEncode for SPlain { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl SPlain { pub uninterp spec fn hidden(&self) -> Hidden; }
impl Conceal for SPlain {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl SPlain { pub uninterp spec fn leaves(&self) -> Seq<MerkleNode>; pub uninterp spec fn within(&self) -> u64; }
impl MerkleLeaves for SPlain {
    type Leaf = MerkleNode;
    open spec fn lv(&self) -> Seq<MerkleNode> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ MerkleNode> { unimplemented!() }
}
impl Wrapper for SPlain {
    type Inner = u64;
    open spec fn inner(&self) -> u64 { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &u64 { unimplemented!() }
}
impl CommitEncode for SPlain {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<SPlain>() && fx_named::<Hidden>() && named::<MerkleNode>() && leaves_ok(self.leaves()) }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<SPlain>())] } // @C20
//% fn @fixture <SPlain as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture CNamed
impl<T> StrictType for CNamed<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for CNamed<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for CNamed<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> CNamed<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for CNamed<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CNamed<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for CNamed<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for CNamed<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for CNamed<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<CNamed<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { the_concealed(&self.hidden()).sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Concealed(fqn_of::<Hidden>())] } // @C20
//% fn @fixture <CNamed<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture CTuple
impl<T> StrictType for CTuple<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for CTuple<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for CTuple<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> CTuple<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for CTuple<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CTuple<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for CTuple<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for CTuple<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for CTuple<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<CTuple<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { the_concealed(&self.hidden()).sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Concealed(fqn_of::<Hidden>())] } // @C20
//% fn @fixture <CTuple<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture CEnum
impl<T> StrictType for CEnum<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for CEnum<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for CEnum<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> CEnum<T> { pub uninterp spec fn hidden(&self) -> CEnum<T>; }
impl<T> Conceal for CEnum<T> {
    type Concealed = CEnum<T>;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: CEnum<T>) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> CEnum<T> { unimplemented!() }
    proof fn law_conceal(&self, a: CEnum<T>, b: CEnum<T>) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CEnum<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for CEnum<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for CEnum<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for CEnum<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<CEnum<T>>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { the_concealed(&self.hidden()).sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Concealed(fqn_of::<CEnum<T>>())] } // @C20
//% fn @fixture <CEnum<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture TTuple
impl<T> StrictType for TTuple<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for TTuple<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for TTuple<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> TTuple<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for TTuple<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> TTuple<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for TTuple<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for TTuple<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.0 }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for TTuple<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<TTuple<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.0.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<T>())] } // @C20
//% fn @fixture <TTuple<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture TNamed
impl<T> StrictType for TNamed<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for TNamed<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for TNamed<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> TNamed<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for TNamed<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> TNamed<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for TNamed<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for TNamed<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.a }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for TNamed<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<TNamed<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.a.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<T>())] } // @C20
//% fn @fixture <TNamed<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture MNamed
impl<T> StrictType for MNamed<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for MNamed<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for MNamed<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> MNamed<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for MNamed<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MNamed<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for MNamed<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for MNamed<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for MNamed<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<MNamed<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { merkle_root(leaf_hashes(self.leaves())).0.a@ } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Merklized(fqn_of::<T>())] } // @C20
//% fn @fixture <MNamed<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture MTuple
impl<T> StrictType for MTuple<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for MTuple<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for MTuple<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> MTuple<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for MTuple<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MTuple<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for MTuple<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for MTuple<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for MTuple<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<MTuple<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { merkle_root(leaf_hashes(self.leaves())).0.a@ } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Merklized(fqn_of::<T>())] } // @C20
//% fn @fixture <MTuple<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture MEnum
impl<T> StrictType for MEnum<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for MEnum<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for MEnum<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> MEnum<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for MEnum<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MEnum<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for MEnum<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for MEnum<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for MEnum<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<MEnum<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { merkle_root(leaf_hashes(self.leaves())).0.a@ } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Merklized(fqn_of::<T>())] } // @C20
//% fn @fixture <MEnum<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture SUnit
impl StrictType for SUnit {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl SB for SUnit { uninterp spec fn sb(&self) -> Seq<u8>; }
impl StrictEncode for SUnit { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl SUnit { pub uninterp spec fn hidden(&self) -> Hidden; }
impl Conceal for SUnit {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl SUnit { pub uninterp spec fn leaves(&self) -> Seq<MerkleNode>; pub uninterp spec fn within(&self) -> u64; }
impl MerkleLeaves for SUnit {
    type Leaf = MerkleNode;
    open spec fn lv(&self) -> Seq<MerkleNode> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ MerkleNode> { unimplemented!() }
}
impl Wrapper for SUnit {
    type Inner = u64;
    open spec fn inner(&self) -> u64 { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &u64 { unimplemented!() }
}
impl CommitEncode for SUnit {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<SUnit>() && fx_named::<Hidden>() && named::<MerkleNode>() && leaves_ok(self.leaves()) }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<SUnit>())] } // @C20
//% fn @fixture <SUnit as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture SWide
impl<T> StrictType for SWide<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for SWide<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for SWide<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> SWide<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for SWide<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> SWide<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for SWide<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for SWide<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for SWide<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<SWide<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<SWide<T>>())] } // @C20
//% fn @fixture <SWide<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture CWrap
impl<T> StrictType for CWrap<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for CWrap<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for CWrap<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> CWrap<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for CWrap<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CWrap<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for CWrap<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for CWrap<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for CWrap<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<CWrap<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { the_concealed(&self.hidden()).sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Concealed(fqn_of::<Hidden>())] } // @C20
//% fn @fixture <CWrap<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture CArray
impl<T, const N: usize> StrictType for CArray<T, N> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T, const N: usize> SB for CArray<T, N> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T, const N: usize> StrictEncode for CArray<T, N> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T, const N: usize> CArray<T, N> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T, const N: usize> Conceal for CArray<T, N> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> CArray<T, N> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> MerkleLeaves for CArray<T, N> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> Wrapper for CArray<T, N> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> CommitEncode for CArray<T, N> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<CArray<T, N>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { the_concealed(&self.hidden()).sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Concealed(fqn_of::<Hidden>())] } // @C20
//% fn @fixture <CArray<T,N> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture CPlain
impl StrictType for CPlain {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl SB for CPlain { uninterp spec fn sb(&self) -> Seq<u8>; }
impl StrictEncode for CPlain { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl CPlain { pub uninterp spec fn hidden(&self) -> Hidden; }
impl Conceal for CPlain {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl CPlain { pub uninterp spec fn leaves(&self) -> Seq<MerkleNode>; pub uninterp spec fn within(&self) -> u64; }
impl MerkleLeaves for CPlain {
    type Leaf = MerkleNode;
    open spec fn lv(&self) -> Seq<MerkleNode> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ MerkleNode> { unimplemented!() }
}
impl Wrapper for CPlain {
    type Inner = u64;
    open spec fn inner(&self) -> u64 { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &u64 { unimplemented!() }
}
impl CommitEncode for CPlain {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<CPlain>() && fx_named::<Hidden>() && named::<MerkleNode>() && leaves_ok(self.leaves()) }
    open spec fn ce_bytes(&self) -> Seq<u8> { the_concealed(&self.hidden()).sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Concealed(fqn_of::<Hidden>())] } // @C20
//% fn @fixture <CPlain as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture TWide
impl<T> StrictType for TWide<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for TWide<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for TWide<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> TWide<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for TWide<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> TWide<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for TWide<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for TWide<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.a }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for TWide<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<TWide<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.a.sb() } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<T>())] } // @C20
//% fn @fixture <TWide<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture MWrap
impl<T> StrictType for MWrap<T> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T> SB for MWrap<T> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T> StrictEncode for MWrap<T> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T> MWrap<T> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T> Conceal for MWrap<T> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MWrap<T> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> MerkleLeaves for MWrap<T> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> Wrapper for MWrap<T> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode> CommitEncode for MWrap<T> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<MWrap<T>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { merkle_root(leaf_hashes(self.leaves())).0.a@ } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Merklized(fqn_of::<T>())] } // @C20
//% fn @fixture <MWrap<T> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture MArray
impl<T, const N: usize> StrictType for MArray<T, N> {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T, const N: usize> SB for MArray<T, N> { uninterp spec fn sb(&self) -> Seq<u8>; }
impl<T, const N: usize> StrictEncode for MArray<T, N> { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl<T, const N: usize> MArray<T, N> { pub uninterp spec fn hidden(&self) -> Hidden; }
impl<T, const N: usize> Conceal for MArray<T, N> {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> MArray<T, N> { pub uninterp spec fn leaves(&self) -> Seq<T>; pub uninterp spec fn within(&self) -> T; }
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> MerkleLeaves for MArray<T, N> {
    type Leaf = T;
    open spec fn lv(&self) -> Seq<T> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ T> { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> Wrapper for MArray<T, N> {
    type Inner = T;
    open spec fn inner(&self) -> T { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &T { unimplemented!() }
}
impl<T: CommitId<CommitmentId = MerkleHash> + StrictEncode, const N: usize> CommitEncode for MArray<T, N> {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<MArray<T, N>>() && fx_named::<Hidden>() && named::<T>() && leaves_ok(self.leaves()) && fx_named::<T>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { merkle_root(leaf_hashes(self.leaves())).0.a@ } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Merklized(fqn_of::<T>())] } // @C20
//% fn @fixture <MArray<T,N> as CommitEncode>::commit_encode
//% props C20
//% end
}
//% item @fixture MUnit
impl StrictType for MUnit {
    const STRICT_LIB_NAME: &'static str = "Fixture";
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl SB for MUnit { uninterp spec fn sb(&self) -> Seq<u8>; }
impl StrictEncode for MUnit { #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() } }
impl MUnit { pub uninterp spec fn hidden(&self) -> Hidden; }
impl Conceal for MUnit {
    type Concealed = Hidden;
    open spec fn conceal_ok(&self) -> bool { true }
    open spec fn conceal_spec(&self, c: Hidden) -> bool { c == self.hidden() }
    #[verifier::external_body] fn conceal(&self) -> Hidden { unimplemented!() }
    proof fn law_conceal(&self, a: Hidden, b: Hidden) {}
}
impl MUnit { pub uninterp spec fn leaves(&self) -> Seq<MerkleNode>; pub uninterp spec fn within(&self) -> u64; }
impl MerkleLeaves for MUnit {
    type Leaf = MerkleNode;
    open spec fn lv(&self) -> Seq<MerkleNode> { self.leaves() }
    open spec fn lv_ok(&self) -> bool { true }
    #[verifier::external_body] fn merkle_leaves(&self) -> std::vec::IntoIter<&'_ MerkleNode> { unimplemented!() }
}
impl Wrapper for MUnit {
    type Inner = u64;
    open spec fn inner(&self) -> u64 { self.within() }
    #[verifier::external_body] fn as_inner(&self) -> &u64 { unimplemented!() }
}
impl CommitEncode for MUnit {
    type CommitmentId = FxId;
    open spec fn ce_ok(&self) -> bool { fx_named::<MUnit>() && fx_named::<Hidden>() && named::<MerkleNode>() && leaves_ok(self.leaves()) }
    open spec fn ce_bytes(&self) -> Seq<u8> { merkle_root(leaf_hashes(self.leaves())).0.a@ } // @C20
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Merklized(fqn_of::<MerkleNode>())] } // @C20
//% fn @fixture <MUnit as CommitEncode>::commit_encode
//% props C20
//% end
}
//% clear-gsubs
}
