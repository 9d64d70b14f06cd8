// commit_verify/src/id.rs, conceal.rs
verus! {
//% const commit_verify/src/lib.rs LIB_NAME_COMMIT_VERIFY {
//%   sub &str => &'static str
//% }
// ------------------------------------------------- strict_encoding / strict_types (assumed)
#[derive(Copy, Clone, PartialEq, Eq, Structural, Debug)]
pub struct LibName { pub id: u64 }
#[derive(Copy, Clone, PartialEq, Eq, Structural, Debug)]
pub struct TypeName { pub id: u64 }
#[derive(Copy, Clone, PartialEq, Eq, Structural, Debug)]
pub struct TypeFqn { pub lib: LibName, pub name: TypeName }
pub uninterp spec fn lib_of(s: Seq<char>) -> LibName;
#[verifier::external_body]
pub fn libname(s: &'static str) -> (r: LibName) ensures r == lib_of(s@) { unimplemented!() }
impl TypeFqn { pub fn with(lib: LibName, name: TypeName) -> (r: Self) ensures r == (TypeFqn { lib, name }) { TypeFqn { lib, name } } }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct Sizing { pub min: u64, pub max: u64 }
impl Sizing { pub fn new(min: u64, max: u64) -> (r: Self) ensures r == (Sizing { min, max }) { Sizing { min, max } } }
pub trait StrictType {
    const STRICT_LIB_NAME: &'static str;
    spec fn name_spec() -> Option<TypeName>;
    fn strict_name() -> (r: Option<TypeName>) ensures r == Self::name_spec();
}
pub open spec fn fqn_of<T: StrictType>() -> TypeFqn { TypeFqn { lib: lib_of(T::STRICT_LIB_NAME@), name: T::name_spec().unwrap() } }
pub open spec fn named<T: StrictType>() -> bool { T::name_spec() is Some }
pub struct StreamWriter<'a> { pub w: &'a mut Sha256, pub max: usize }
impl<'a> StreamWriter<'a> {
    pub fn new<const MAX: usize>(w: &'a mut Sha256) -> (r: Self) ensures *r.w == *old(w), *final(w) == *final(r.w), r.max == MAX { StreamWriter { w, max: MAX } }
}
#[derive(Debug)]
pub struct IoError;
/// strict serialization of a value
pub trait SB { spec fn sb(&self) -> Seq<u8>; }
pub trait StrictEncode: StrictType + SB {
    fn strict_write(&self, writer: StreamWriter) -> (r: Result<(), IoError>)
        ensures self.sb().len() <= writer.max ==> r is Ok && final(writer.w)@ == old(writer.w)@ + self.sb();
}
pub trait StrictDumb: Sized { spec fn dumb_spec() -> Self; fn strict_dumb() -> (r: Self) ensures r == Self::dumb_spec(); }
impl SB for u8 { open spec fn sb(&self) -> Seq<u8> { le(*self as nat, 1) } }
impl SB for u16 { open spec fn sb(&self) -> Seq<u8> { le(*self as nat, 2) } }
impl SB for u32 { open spec fn sb(&self) -> Seq<u8> { le(*self as nat, 4) } }
impl SB for u64 { open spec fn sb(&self) -> Seq<u8> { le(*self as nat, 8) } }
impl SB for u5 { open spec fn sb(&self) -> Seq<u8> { le(self.v as nat, 1) } }
impl SB for u256 { open spec fn sb(&self) -> Seq<u8> { le(self.n(), 32) } }
impl SB for Bytes32 { open spec fn sb(&self) -> Seq<u8> { self.a@ } }
/// no in-memory value encodes to more than usize::MAX bytes
pub broadcast axiom fn axiom_strict_len<T: StrictEncode>(x: &T) ensures #[trigger] x.sb().len() <= usize::MAX;
impl<T: StrictType> StrictType for &T {
    const STRICT_LIB_NAME: &'static str = T::STRICT_LIB_NAME;
    open spec fn name_spec() -> Option<TypeName> { T::name_spec() }
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T: SB> SB for &T { open spec fn sb(&self) -> Seq<u8> { (*self).sb() } }
impl<T: StrictEncode> StrictEncode for &T {
    #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() }
}
impl<T: StrictType> StrictType for Option<T> {
    const STRICT_LIB_NAME: &'static str = "std";
    open spec fn name_spec() -> Option<TypeName> { None }
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<T: SB> SB for Option<T> { open spec fn sb(&self) -> Seq<u8> { match self { Some(x) => seq![1u8] + x.sb(), None => seq![0u8] } } }
impl<T: StrictEncode> StrictEncode for Option<T> {
    #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() }
}
pub uninterp spec fn coll_bytes<C, const MIN: usize, const MAX: usize>(c: &Confined<C, MIN, MAX>) -> Seq<u8>;
impl<C, const MIN: usize, const MAX: usize> StrictType for Confined<C, MIN, MAX> {
    const STRICT_LIB_NAME: &'static str = "std";
    open spec fn name_spec() -> Option<TypeName> { None }
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<C, const MIN: usize, const MAX: usize> SB for Confined<C, MIN, MAX> { open spec fn sb(&self) -> Seq<u8> { coll_bytes(self) } }
impl<C, const MIN: usize, const MAX: usize> StrictEncode for Confined<C, MIN, MAX> {
    #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() }
}
#[verifier::external_body]
pub fn opt_name_ne(a: &TypeName, b: Option<TypeName>) -> (r: bool) ensures r == (Some(*a) != b) { unimplemented!() }
#[verifier::external_body]
pub fn str_ne(a: LibName, b: &'static str) -> (r: bool) ensures r == (a != lib_of(b@)) { unimplemented!() }

// ------------------------------------------------- types of id.rs
//% item commit_verify/src/id.rs CommitColType
//% item commit_verify/src/id.rs CommitStep
//% const commit_verify/src/id.rs COMMIT_MAX_LEN
//% item commit_verify/src/id.rs CommitEngine
//% item commit_verify/src/id.rs CommitLayout

pub open spec fn col_step<T: StrictType>(c: CommitColType, min: nat, max: nat) -> CommitStep { CommitStep::Collection(c, Sizing { min: min as u64, max: max as u64 }, fqn_of::<T>()) }
impl CommitEngine {
    /// the bytes absorbed by the hasher
    pub open spec fn bytes(&self) -> Seq<u8> { self.hasher@ }
    pub open spec fn steps(&self) -> Seq<CommitStep> { self.layout.c@ }
    pub open spec fn absorbed(&self, old: &CommitEngine, b: Seq<u8>, step: CommitStep) -> bool {
        self.bytes() == old.bytes() + b && self.steps() == old.steps().push(step) && self.finished == old.finished
    }
    pub open spec fn open_for(&self, n: nat) -> bool { !self.finished && self.steps().len() + n <= 255 }
}
pub open spec fn tag_prefix(tag: Seq<char>) -> Seq<u8> { sha256(utf8(tag))@ + sha256(utf8(tag))@ }
/// the tagged hash
pub open spec fn tagged(tag: Seq<char>, bytes: Seq<u8>) -> [u8; 32] { sha256(tag_prefix(tag) + bytes) }

pub trait CommitmentId: Copy + From<Sha256> + StrictType {
    const TAG: &'static str;
    /// the id with the given hash
    spec fn of_hash(h: [u8; 32]) -> Self;
    proof fn law_from(e: Sha256) ensures Self::obeys_from_spec(), Self::from_spec(e) == Self::of_hash(sha256(e@));
}
pub trait CommitEncode {
    type CommitmentId: CommitmentId;
    /// when the value may be committed to
    spec fn ce_ok(&self) -> bool;
    /// bytes the value contributes to the hash
    spec fn ce_bytes(&self) -> Seq<u8>;
    /// layout entries the value contributes
    spec fn ce_steps(&self) -> Seq<CommitStep>;
    fn commit_encode(&self, e: &mut CommitEngine)
        requires self.ce_ok(), old(e).open_for(self.ce_steps().len())
        ensures final(e).bytes() == old(e).bytes() + self.ce_bytes(), final(e).steps() == old(e).steps() + self.ce_steps(), final(e).finished == old(e).finished;
}
pub trait Conceal {
    type Concealed;
    spec fn conceal_ok(&self) -> bool;
    spec fn conceal_spec(&self, c: Self::Concealed) -> bool;
    fn conceal(&self) -> (r: Self::Concealed) requires self.conceal_ok() ensures self.conceal_spec(r);
    /// concealment is a function
    proof fn law_conceal(&self, a: Self::Concealed, b: Self::Concealed) requires self.conceal_ok(), self.conceal_spec(a), self.conceal_spec(b) ensures a == b;
}
pub open spec fn the_concealed<T: Conceal>(x: &T) -> T::Concealed { choose|c: T::Concealed| x.conceal_spec(c) }
/// the commitment id of a value
pub open spec fn cid<T: CommitEncode>(x: &T) -> T::CommitmentId { T::CommitmentId::of_hash(tagged(T::CommitmentId::TAG@, x.ce_bytes())) }

pub trait CommitId: CommitEncode + Sized {
    fn commit(&self) -> (r: CommitEngine)
        requires self.ce_ok(), self.ce_steps().len() <= 255
        ensures r.bytes() == tag_prefix(Self::CommitmentId::TAG@) + self.ce_bytes(), r.steps() == self.ce_steps(); // @C09,C03,C01,C20
    fn commit_id(&self) -> (r: Self::CommitmentId)
        requires self.ce_ok(), self.ce_steps().len() <= 255
        ensures r == cid(self); // @C09,C03,C01,C20
}
impl<T: CommitEncode> CommitId for T {
//% fn commit_verify/src/id.rs <T as CommitId>::commit
//% ret r
//% props C09
//% end
//% fn commit_verify/src/id.rs <T as CommitId>::commit_id
//% ret r
//% props C09
//% sub self.commit().finish().into() => let h = self.commit().finish(); h.into()
//% tail before
        proof { <T::CommitmentId as CommitmentId>::law_from(h); }
//% end
}

//% fn commit_verify/src/id.rs commitment_fqn
//% ret r
//% props C09
//% spec
    requires named::<T>()
    ensures r == fqn_of::<T>(),
//% end

// merklized and strict-hashed values (their hashing is the subject of merkle.rs)
pub trait MerkleLeaves {
    type Leaf: CommitId<CommitmentId = MerkleHash>;
    /// the leaves in order
    spec fn lv(&self) -> Seq<Self::Leaf>;
    spec fn lv_ok(&self) -> bool;
    fn merkle_leaves(&self) -> (r: std::vec::IntoIter<&'_ Self::Leaf>)
        requires self.lv_ok()
        ensures r.remaining() == self.lv().map_values(|x: Self::Leaf| &x), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some, self.lv().len() <= u32::MAX;
}

impl CommitEngine {
//% fn commit_verify/src/id.rs CommitEngine::new
//% ret r
//% props C09
//% sub empty!() => TinyVec::new()
//% spec
        ensures r.bytes() == tag_prefix(tag@), r.steps() == Seq::<CommitStep>::empty(), !r.finished,
//% start
        broadcast use axiom_str_bytes;
//% end
//% fn commit_verify/src/id.rs CommitEngine::inner_commit_to
//% props C09
//% spec
        requires !old(self).finished, value.sb().len() <= MAX_LEN
        ensures final(self).bytes() == old(self).bytes() + value.sb(), final(self).steps() == old(self).steps(), final(self).finished == old(self).finished,
//% end
//% gsub Some(&fqn.name) != MerkleHash::strict_name().as_ref() => opt_name_ne(&fqn.name, MerkleHash::strict_name())
//% gsub fqn.lib.as_str() != MerkleHash::STRICT_LIB_NAME => str_ne(fqn.lib, MerkleHash::STRICT_LIB_NAME)
//% gsub Some(&fqn.name) != StrictHash::strict_name().as_ref() => opt_name_ne(&fqn.name, StrictHash::strict_name())
//% gsub fqn.lib.as_str() != StrictHash::STRICT_LIB_NAME => str_ne(fqn.lib, StrictHash::STRICT_LIB_NAME)
//% fn commit_verify/src/id.rs CommitEngine::commit_to_serialized
//% props C09 C20
//% spec
        requires old(self).open_for(1), named::<T>(), fqn_of::<T>() != fqn_of::<MerkleHash>(), fqn_of::<T>() != fqn_of::<StrictHash>()
        ensures final(self).absorbed(old(self), value.sb(), CommitStep::Serialized(fqn_of::<T>())),
//% start
        broadcast use axiom_strict_len;
//% end
//% fn commit_verify/src/id.rs CommitEngine::commit_to_option
//% props C09
//% spec
        requires old(self).open_for(1), named::<T>()
        ensures final(self).absorbed(old(self), value.sb(), CommitStep::Serialized(fqn_of::<T>())),
//% start
        broadcast use axiom_strict_len;
//% end
//% fn commit_verify/src/id.rs CommitEngine::commit_to_hash
//% props C09
//% spec
        requires old(self).open_for(1), named::<T>(), value.ce_ok(), value.ce_steps().len() <= 255
        ensures final(self).absorbed(old(self), cid(value).0.a@, CommitStep::Hashed(fqn_of::<T>())),
//% end
//% fn commit_verify/src/id.rs CommitEngine::commit_to_merkle
//% props C09 C20 C01
//% spec
        requires old(self).open_for(1), named::<T::Leaf>(), leaves_ok(value.lv()), value.lv_ok()
        ensures final(self).absorbed(old(self), merkle_root(leaf_hashes(value.lv())).0.a@, CommitStep::Merklized(fqn_of::<T::Leaf>())),
//% end
//% fn commit_verify/src/id.rs CommitEngine::commit_to_concealed
//% props C09 C20 C03
//% spec
        requires old(self).open_for(1), named::<T>(), value.conceal_ok()
        ensures final(self).absorbed(old(self), the_concealed(value).sb(), CommitStep::Concealed(fqn_of::<T>())),
//% start
        broadcast use axiom_strict_len;
//% let concealed 1 after
        proof { value.law_conceal(concealed, the_concealed(value)); }
//% end
//% fn commit_verify/src/id.rs CommitEngine::commit_to_linear_list
//% props C09
//% spec
        requires old(self).open_for(1), named::<T>(), MIN <= u64::MAX, MAX <= u64::MAX
        ensures final(self).absorbed(old(self), coll_bytes(collection), col_step::<T>(CommitColType::List, MIN as nat, MAX as nat)),
//% start
        broadcast use axiom_strict_len;
//% end
//% fn commit_verify/src/id.rs CommitEngine::commit_to_linear_set
//% props C09
//% spec
        requires old(self).open_for(1), named::<T>()
        ensures final(self).absorbed(old(self), coll_bytes(collection), col_step::<T>(CommitColType::Set, MIN as nat, MAX as nat)),
//% start
        broadcast use axiom_strict_len;
//% end
//% fn commit_verify/src/id.rs CommitEngine::commit_to_linear_map
//% props C09
//% sub K: Ord + Hash + StrictEncode => K: Ord + StrictEncode
//% spec
        requires old(self).open_for(1), named::<K>(), named::<V>()
        ensures final(self).absorbed(old(self), coll_bytes(collection), col_step::<V>(CommitColType::Map { key: fqn_of::<K>() }, MIN as nat, MAX as nat)),
//% start
        broadcast use axiom_strict_len;
//% end
//% clear-gsubs
//% fn commit_verify/src/id.rs CommitEngine::as_layout
//% props C09
//% sub self.layout.as_ref() => self.layout.as_slice()
//% ret r
//% spec
        ensures r@ == old(self).steps(), final(self).finished, final(self).bytes() == old(self).bytes(), final(self).steps() == old(self).steps(),
//% end
//% fn commit_verify/src/id.rs CommitEngine::into_layout
//% props C09
//% ret r
//% spec
        ensures r.c@ == self.steps(),
//% end
//% fn commit_verify/src/id.rs CommitEngine::set_finished
//% props C09
//% spec
        ensures final(self).finished, final(self).bytes() == old(self).bytes(), final(self).steps() == old(self).steps(),
//% end
//% fn commit_verify/src/id.rs CommitEngine::finish
//% props C09
//% ret r
//% spec
        ensures r@ == self.bytes(),
//% end
//% fn commit_verify/src/id.rs CommitEngine::finish_layout
//% props C09
//% ret r
//% spec
        ensures r.0@ == self.bytes(), r.1.c@ == self.steps(),
//% end
}

pub trait CommitmentLayout: CommitEncode + StrictDumb {
    fn commitment_layout() -> (r: CommitLayout)
        requires Self::dumb_spec().ce_ok(), Self::dumb_spec().ce_steps().len() <= 255, named::<Self::CommitmentId>()
        ensures r.idty == fqn_of::<Self::CommitmentId>(), r.tag@ == Self::CommitmentId::TAG@, r.fields.c@ == Self::dumb_spec().ce_steps(); // @C09
}
impl<T> CommitmentLayout for T
where T: CommitEncode + StrictDumb
{
//% fn commit_verify/src/id.rs <T as CommitmentLayout>::commitment_layout
//% props C09
//% ret r
//% end
}

//% item commit_verify/src/id.rs StrictHash {
//%   derive Copy Clone
//% }
//% strict commit_verify/src/id.rs StrictHash
impl StrictType for StrictHash {
//% implconst @expanded <StrictHash as strict_encoding::StrictType>::STRICT_LIB_NAME
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl StrictEncode for StrictHash {
    #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() }
}
impl FromSpecImpl<[u8; 32]> for StrictHash { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; 32]) -> Self { StrictHash(Bytes32 { a: v }) } }
impl From<[u8; 32]> for StrictHash {
//% fn @expanded <StrictHash as From<[u8;32]>>::from
//% ret r
//% props C09
//% end
}
impl FromSpecImpl<Sha256> for StrictHash { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Sha256) -> Self { StrictHash(Bytes32 { a: sha256(v@) }) } }
impl From<Sha256> for StrictHash {
//% fn commit_verify/src/id.rs <StrictHash as From<Sha256>>::from
//% ret r
//% props C09
//% tail bind
        assert(r.0.a =~= sha256(hash@));
//% end
}
impl CommitmentId for StrictHash {
//% implconst commit_verify/src/id.rs <StrictHash as CommitmentId>::TAG
    open spec fn of_hash(h: [u8; 32]) -> Self { StrictHash(Bytes32 { a: h }) }
    proof fn law_from(e: Sha256) {}
}
/// the tag of strict hashes is the published one
proof fn strict_hash_tag() ensures <StrictHash as CommitmentId>::TAG@ == "urn:ubideco:strict-types:value-hash#2024-02-10"@ // @C09
{}
}
