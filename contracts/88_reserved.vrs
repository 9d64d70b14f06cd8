// commit_verify/src/lib.rs: reserved bytes
verus! {
//% item commit_verify/src/lib.rs ReservedBytes {
//%   sub const VAL: u8 = 0 => const VAL: u8
//% }
/// a panic which refuses a value: it has to be one that may be refused, and nothing is returned
#[verifier::external_body]
pub fn refuse<A>(c: Ghost<bool>) -> (r: A) requires c@ ensures false { unimplemented!() }
impl<const N: usize> SB for [u8; N] { open spec fn sb(&self) -> Seq<u8> { self@ } }
//% strict commit_verify/src/lib.rs ReservedBytes
// strict_encoding (assumed): a tuple field is read as the bytes of the stream, whatever they are
pub enum DecodeError { DataIntegrityError(Msg), Other(Msg) }
pub broadcast axiom fn axiom_decode_error_from(v: DecodeError, r: DecodeError) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<DecodeError, DecodeError>(v, r) ==> r == v;
pub trait TypedRead: Sized {
    /// the outcomes reading a byte array may have
    spec fn reads<const N: usize>(&self, r: Result<[u8; N], DecodeError>) -> bool;
    fn tuple_reader(&mut self) -> (r: TupleReader<Self>) ensures r.from == *old(self);
}
pub struct TupleReader<R: TypedRead> { pub from: R }
impl<R: TypedRead> TupleReader<R> {
    #[verifier::external_body]
    pub fn read_field<const N: usize>(&mut self) -> (r: Result<[u8; N], DecodeError>) ensures old(self).from.reads(r) { unimplemented!() }
}
// serde (assumed): the formats' readers and writers; nothing is said of what they give back but that a unit was read or written
pub trait Serializer: Sized {
    type Ok;
    type Error;
    /// the outcomes writing a unit may have
    spec fn unit_written(&self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_unit(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.unit_written(r);
    fn serialize_none(self) -> (r: Result<Self::Ok, Self::Error>);
    fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>);
}
pub trait Deserializer: Sized {
    type Error;
    /// the outcomes reading a unit may have
    spec fn unit_read(&self, r: Result<(), Self::Error>) -> bool;
    fn deserialize_unit(self, v: UntaggedUnitVisitor) -> (r: Result<(), Self::Error>) ensures self.unit_read(r);
    fn deserialize_bytes<const N: usize>(self, v: UntaggedUnitVisitor) -> (r: Result<[u8; N], Self::Error>);
}
pub struct UntaggedUnitVisitor;
/// the one content
pub open spec fn reserved<const LEN: usize, const VAL: u8>(a: [u8; LEN]) -> bool { forall|i: int| 0 <= i < LEN ==> #[trigger] a@[i] == VAL }
impl<const LEN: usize, const VAL: u8> PartialEq for ReservedBytes<LEN, VAL> {
//% fn @expanded <ReservedBytes<LEN,VAL> as PartialEq>::eq
//% ret r
//% props C16
//% end
}
impl<const LEN: usize, const VAL: u8> PartialEqSpecImpl for ReservedBytes<LEN, VAL> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ =~= o.0@ } }
impl<const LEN: usize, const VAL: u8> ReservedBytes<LEN, VAL> {
//% fn commit_verify/src/lib.rs <ReservedBytes<LEN,VAL> as Default>::default
//% ret r
//% props C16
//% spec
    ensures reserved::<LEN, VAL>(r.0), // @C16
//% end
//% fn commit_verify/src/lib.rs <ReservedBytes<LEN,VAL> as From<[u8;LEN]>>::from
//% ret r
//% props C16
//% refuse !reserved::<LEN, VAL>(value)
//% spec
    ensures reserved::<LEN, VAL>(value), r.0 == value, // @C16
//% end
//% gsub Deserializer<'de> => Deserializer
//% gsub default!() => ReservedBytes::default()
//% fn commit_verify/src/lib.rs <ReservedBytes<LEN,VAL> as Deserialize<'de>>::deserialize
//% ret r
//% props C16
//% spec
    ensures r matches Ok(v) ==> reserved::<LEN, VAL>(v.0), // @C16
        exists|x: Result<(), D::Error>| #[trigger] deserializer.unit_read(x) && (x is Ok <==> r is Ok), // @C16
//% end
//% clear-gsubs
//% fn commit_verify/src/lib.rs <ReservedBytes<LEN,VAL> as Serialize>::serialize
//% ret r
//% props C16
//% spec
    ensures serializer.unit_written(r), // @C16
//% end
//% fn commit_verify/src/lib.rs <ReservedBytes<LEN,VAL> as StrictDecode>::strict_decode
//% ret r
//% props C16
//% result-map
//% spec
    ensures exists|x: Result<[u8; LEN], DecodeError>| #[trigger] old(reader).reads(x) && match x {
            Ok(a) => if reserved::<LEN, VAL>(a) { r matches Ok(v) && v.0 == a } else { r is Err }, // @C16
            Err(e) => r == Err::<Self, DecodeError>(e),
        }, // @C16
//% start
    broadcast use axiom_decode_error_from;
//% end
}
impl<const LEN: usize, const VAL: u8> StrictType for ReservedBytes<LEN, VAL> {
//% implconst @expanded <ReservedBytes<LEN,VAL> as strict_encoding::StrictType>::STRICT_LIB_NAME
    uninterp spec fn name_spec() -> Option<TypeName>;
    #[verifier::external_body] fn strict_name() -> Option<TypeName> { unimplemented!() }
}
impl<const LEN: usize, const VAL: u8> StrictEncode for ReservedBytes<LEN, VAL> {
    #[verifier::external_body] fn strict_write(&self, writer: StreamWriter) -> Result<(), IoError> { unimplemented!() }
}
pub open spec fn reserved_named<const LEN: usize, const VAL: u8>() -> bool { named::<ReservedBytes<LEN, VAL>>() && fqn_of::<ReservedBytes<LEN, VAL>>() != fqn_of::<MerkleHash>() && fqn_of::<ReservedBytes<LEN, VAL>>() != fqn_of::<StrictHash>() }
impl<const LEN: usize, const VAL: u8> CommitEncode for ReservedBytes<LEN, VAL> {
    type CommitmentId = StrictHash;
    open spec fn ce_ok(&self) -> bool { reserved_named::<LEN, VAL>() }
    open spec fn ce_bytes(&self) -> Seq<u8> { self.0@ } // @C16
    open spec fn ce_steps(&self) -> Seq<CommitStep> { seq![CommitStep::Serialized(fqn_of::<ReservedBytes<LEN, VAL>>())] }
//% fn commit_verify/src/lib.rs <ReservedBytes<LEN,VAL> as CommitEncode>::commit_encode
//% props C16
//% end
}
}
