// Strict encoding of the types of commit_verify: what the encoders write, what the decoders accept.
verus! {
pub mod wire {
use super::*;
// ---------------------------------------------------------------- strict_encoding (assumed framework)
#[derive(Debug)]
pub struct IoError;
pub enum DecodeError { DataIntegrityError(Msg), ConstructorFail(Msg), Other }
pub struct VariantError;
impl VariantError { pub fn with(t: u8) -> (r: VariantError) { VariantError } }
pub struct ConstError;

/// A value with a byte string. `ok`: the type's own invariant. `same`: equality of values
/// (collections are compared by content).
pub trait SB: Sized {
    spec fn ok(&self) -> bool;
    spec fn sb(&self) -> Seq<u8>;
    spec fn same(&self, o: &Self) -> bool;
    /// no byte string can be read in two ways
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>)
        requires self.ok(), o.ok(), self.sb() + t == o.sb() + u,
        ensures self.same(o), t == u;
    proof fn same_self(&self) ensures self.same(self);
}
/// types on which `same` is identity
pub trait Exact: SB { proof fn exact(&self, o: &Self) requires self.same(o) ensures *self == *o; }

pub trait TypedWrite: Sized {
    /// what has been written
    spec fn out(&self) -> Seq<u8>;
    /// writing does not fail
    spec fn reliable(&self) -> bool;
    /// the writer's own bookkeeping
    spec fn frame(&self) -> Frame;
}
pub enum Frame { Base(int), Union(bool, Box<Frame>) }
pub open spec fn enc<T: SB, W: TypedWrite>(v: T, w: W, r: Result<W, IoError>) -> bool {
    match r {
        Ok(x) => x.out() == w.out() + v.sb() && x.reliable() == w.reliable() && x.frame() == w.frame(),
        Err(_) => !w.reliable(),
    }
}
pub trait StrictEncode: SB {
    fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>)
        ensures enc(*self, writer, r); // @C17
}
pub trait TypedRead: Sized {
    /// what is left to read
    spec fn rest(&self) -> Seq<u8>;
}
/// reading gives a value exactly when one is there, and takes its bytes and no others
pub open spec fn dec<T: SB>(s: Seq<u8>, r: Result<T, DecodeError>, s2: Seq<u8>) -> bool {
    match r {
        Ok(v) => v.ok() && s == v.sb() + s2,
        Err(_) => forall|v: T, t: Seq<u8>| v.ok() ==> s != #[trigger] (v.sb() + t),
    }
}
pub trait StrictDecode: SB {
    fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>)
        ensures dec(old(reader).rest(), r, final(reader).rest()); // @C17
}
/// `read_field`
pub fn wire_read<T: StrictDecode, R: TypedRead>(reader: &mut R) -> (r: Result<T, DecodeError>)
    ensures dec(old(reader).rest(), r, final(reader).rest()),
        forall|v: T, t: Seq<u8>| v.ok() && old(reader).rest() == #[trigger] (v.sb() + t) ==> (r matches Ok(x) && x.same(&v) && final(reader).rest() == t),
{
    let r = T::strict_decode(reader);
    proof {
        assert forall|v: T, t: Seq<u8>| v.ok() && old(reader).rest() == #[trigger] (v.sb() + t) implies (r matches Ok(x) && x.same(&v) && final(reader).rest() == t) by {
            if let Ok(x) = r { x.unique(final(reader).rest(), &v, t); }
        }
    }
    r
}
pub trait StrictStruct { spec fn fields() -> Seq<u64>; }
pub trait StrictTuple { spec fn count() -> int; }
pub trait StrictSum: SB {
    spec fn tag(n: u64) -> Option<u8>;
    spec fn named(t: u8) -> Option<u64>;
    /// tags and names are told apart
    spec fn distinct() -> bool;
    spec fn declared() -> Set<u64>;
    spec fn variant_name(&self) -> u64;
}
pub open spec fn one(s: Seq<u8>, b: u8) -> bool { s.len() == 1 && s[0] == b }
pub trait StrictEnum: StrictSum {
    fn try_from_tag(value: u8) -> (r: Result<Self, VariantError>)
        ensures match r { Ok(v) => v.ok() && one(v.sb(), value), Err(_) => forall|v: Self| #![trigger v.sb()] v.ok() ==> !one(v.sb(), value) }; // @C17
    proof fn one_byte(&self) ensures self.sb().len() == 1;
}
// a reader checks at the end that the fields read are the declared ones, and panics otherwise
pub fn wire_fields(n: Ghost<Seq<u64>>, all: Ghost<Seq<u64>>) requires n@ =~= all@ || n@.to_multiset() == all@.to_multiset(), n@.len() > 0 {}
pub fn wire_count(n: usize, all: Ghost<int>) requires n == all@, n > 0 {}
#[verifier::external_body]
pub fn wire_byte<R: TypedRead>(reader: &mut R) -> (r: Result<u8, DecodeError>)
    ensures match r { Ok(b) => old(reader).rest() == seq![b] + final(reader).rest(), Err(_) => old(reader).rest().len() == 0 }
{ unimplemented!() }
#[verifier::external_body]
pub fn wire_name<T: StrictSum>(t: u8) -> (r: Option<u64>) ensures r == T::named(t) { unimplemented!() }
/// the head of `read_union`
pub fn wire_read_variant<T: StrictSum, R: TypedRead>(reader: &mut R) -> (r: Result<u64, DecodeError>)
    requires T::distinct(), // @C17
    ensures match r {
        Ok(n) => exists|b: u8| #![trigger T::named(b)] T::named(b) == Some(n) && old(reader).rest() == seq![b] + final(reader).rest()
            && (forall|c: u8, t: Seq<u8>| old(reader).rest() == #[trigger] (seq![c] + t) ==> c == b && t == final(reader).rest()),
        Err(_) => forall|c: u8, t: Seq<u8>| old(reader).rest() == #[trigger] (seq![c] + t) ==> T::named(c) is None,
    }
{
    let b = match wire_byte(reader) { Ok(b) => b, Err(e) => { proof { lib::no_head(old(reader).rest()); } return Err(e); } };
    proof { lib::head_unique(old(reader).rest(), b, reader.rest()); }
    match wire_name::<T>(b) { Some(n) => Ok(n), None => Err(DecodeError::Other) }
}
pub fn wire_read_enum<T: StrictEnum, R: TypedRead>(reader: &mut R) -> (r: Result<T, DecodeError>)
    ensures dec(old(reader).rest(), r, final(reader).rest())
{
    let b = match wire_byte(reader) { Ok(b) => b, Err(e) => { proof { assert forall|v: T, t: Seq<u8>| v.ok() implies old(reader).rest() != #[trigger] (v.sb() + t) by { v.one_byte(); } } return Err(e); } };
    let ghost s2 = reader.rest();
    proof {
        assert forall|v: T, t: Seq<u8>| v.ok() && old(reader).rest() == #[trigger] (v.sb() + t) implies one(v.sb(), b) by { v.one_byte(); assert((v.sb() + t)[0] == v.sb()[0]); assert((seq![b] + s2)[0] == b); }
    }
    match T::try_from_tag(b) { Ok(v) => { proof { assert(v.sb() =~= seq![b]); } Ok(v) } Err(_) => Err(DecodeError::Other) }
}
#[verifier::external_body]
pub fn wire_write_byte<W: TypedWrite>(w: W, b: Ghost<u8>) -> (r: Result<W, IoError>)
    ensures match r { Ok(x) => x.out() == w.out() + seq![b@] && x.reliable() == w.reliable() && x.frame() == w.frame(), Err(_) => !w.reliable() }
{ unimplemented!() }
pub fn wire_write_enum<T: StrictEnum, W: TypedWrite>(w: W, v: T) -> (r: Result<W, IoError>)
    requires T::distinct(), T::tag(v.variant_name()) is Some, // @C17
    ensures match r { Ok(x) => x.out() == w.out() + seq![T::tag(v.variant_name())->0] && x.reliable() == w.reliable() && x.frame() == w.frame(), Err(_) => !w.reliable() }
{ wire_write_byte(w, Ghost(T::tag(v.variant_name())->0)) }

pub struct FieldWriter<P> { pub p: P, pub n: Ghost<nat>, pub tup: Ghost<bool> }
impl<P: TypedWrite> FieldWriter<P> {
    pub fn structure(p: P) -> (r: Self) ensures r.p == p, r.n@ == 0, !r.tup@ { FieldWriter { p, n: Ghost(0), tup: Ghost(false) } }
    pub fn tuple(p: P) -> (r: Self) ensures r.p == p, r.n@ == 0, r.tup@ { FieldWriter { p, n: Ghost(0), tup: Ghost(true) } }
    pub fn write_field<T: StrictEncode>(self, value: &T) -> (r: Result<Self, IoError>)
        ensures match r { Ok(x) => enc(*value, self.p, Ok::<P, IoError>(x.p)) && x.n@ == self.n@ + 1 && x.tup@ == self.tup@, Err(_) => !self.p.reliable() }
    { let n = Ghost((self.n@ + 1) as nat); match value.strict_encode(self.p) { Ok(p) => Ok(FieldWriter { p, n, tup: self.tup }), Err(e) => Err(e) } }
    pub fn complete(self) -> (r: P) requires self.tup@ ==> self.n@ > 0, ensures r == self.p { self.p }
}

pub enum Kind { Unit, Tuple, Struct }
#[verifier::reject_recursive_types(T)]
pub struct UnionDefiner<T, W> { pub w: W, pub defs: Ghost<Map<u64, Kind>>, pub t: Ghost<Option<T>> }
impl<T: StrictSum, W: TypedWrite> UnionDefiner<T, W> {
    pub fn of(w: W) -> (r: Self) requires T::distinct(), ensures r.w == w, r.defs@ == Map::<u64, Kind>::empty() { UnionDefiner { w, defs: Ghost(Map::empty()), t: Ghost(None) } }
    pub fn define_unit(self, n: u64) -> (r: Self) requires T::tag(n) is Some, !self.defs@.contains_key(n), ensures r.w == self.w, r.defs@ == self.defs@.insert(n, Kind::Unit) { UnionDefiner { w: self.w, defs: Ghost(self.defs@.insert(n, Kind::Unit)), t: self.t } }
    pub fn define_tuple(self, n: u64) -> (r: Self) requires T::tag(n) is Some, !self.defs@.contains_key(n), ensures r.w == self.w, r.defs@ == self.defs@.insert(n, Kind::Tuple) { UnionDefiner { w: self.w, defs: Ghost(self.defs@.insert(n, Kind::Tuple)), t: self.t } }
    pub fn define_newtype<F>(self, n: u64) -> (r: Self) requires T::tag(n) is Some, !self.defs@.contains_key(n), ensures r.w == self.w, r.defs@ == self.defs@.insert(n, Kind::Tuple) { UnionDefiner { w: self.w, defs: Ghost(self.defs@.insert(n, Kind::Tuple)), t: self.t } }
    pub fn define_struct(self, n: u64) -> (r: Self) requires T::tag(n) is Some, !self.defs@.contains_key(n), ensures r.w == self.w, r.defs@ == self.defs@.insert(n, Kind::Struct) { UnionDefiner { w: self.w, defs: Ghost(self.defs@.insert(n, Kind::Struct)), t: self.t } }
    pub fn complete(self) -> (r: UnionWriter<T, W>) requires self.defs@.dom() =~= T::declared(),
        ensures r.w == self.w, r.defs@ == self.defs@, !r.written@
    { UnionWriter { w: self.w, defs: self.defs, written: Ghost(false), t: self.t } }
}
#[verifier::reject_recursive_types(T)]
pub struct UnionWriter<T, W> { pub w: W, pub defs: Ghost<Map<u64, Kind>>, pub written: Ghost<bool>, pub t: Ghost<Option<T>> }
impl<T: StrictSum, W: TypedWrite> TypedWrite for UnionWriter<T, W> {
    open spec fn out(&self) -> Seq<u8> { self.w.out() }
    open spec fn reliable(&self) -> bool { self.w.reliable() }
    open spec fn frame(&self) -> Frame { Frame::Union(self.written@, Box::new(self.w.frame())) }
}
pub open spec fn opened<T: StrictSum, W: TypedWrite>(u: UnionWriter<T, W>, n: u64, r: UnionWriter<T, W>) -> bool {
    r.out() == u.out() + seq![T::tag(n)->0] && r.reliable() == u.reliable() && r.frame() == Frame::Union(true, Box::new(u.w.frame()))
}
impl<T: StrictSum, W: TypedWrite> UnionWriter<T, W> {
    fn variant(self, n: u64) -> (r: Result<Self, IoError>)
        requires T::tag(n) is Some, !self.written@
        ensures match r { Ok(x) => opened(self, n, x), Err(_) => !self.reliable() }
    { match wire_write_byte(self.w, Ghost(T::tag(n)->0)) { Ok(w) => Ok(UnionWriter { w, defs: self.defs, written: Ghost(true), t: self.t }), Err(e) => Err(e) } }
    pub fn write_unit(self, n: u64) -> (r: Result<Self, IoError>)
        requires T::tag(n) is Some, !self.written@, self.defs@.contains_pair(n, Kind::Unit)
        ensures match r { Ok(x) => opened(self, n, x), Err(_) => !self.reliable() }
    { self.variant(n) }
    pub fn variant_tuple(self, n: u64) -> (r: Result<FieldWriter<Self>, IoError>)
        requires T::tag(n) is Some, !self.written@, self.defs@.contains_pair(n, Kind::Tuple)
        ensures match r { Ok(x) => opened(self, n, x.p) && x.tup@ && x.n@ == 0, Err(_) => !self.reliable() }
    { match self.variant(n) { Ok(u) => Ok(FieldWriter::tuple(u)), Err(e) => Err(e) } }
    pub fn variant_struct(self, n: u64) -> (r: Result<FieldWriter<Self>, IoError>)
        requires T::tag(n) is Some, !self.written@, self.defs@.contains_pair(n, Kind::Struct)
        ensures match r { Ok(x) => opened(self, n, x.p) && !x.tup@ && x.n@ == 0, Err(_) => !self.reliable() }
    { match self.variant(n) { Ok(u) => Ok(FieldWriter::structure(u)), Err(e) => Err(e) } }
    pub fn write_newtype<F: StrictEncode>(self, n: u64, v: &F) -> (r: Result<Self, IoError>)
        requires T::tag(n) is Some, !self.written@, self.defs@.contains_pair(n, Kind::Tuple)
        ensures match r { Ok(x) => x.out() == self.out() + seq![T::tag(n)->0] + v.sb() && x.reliable() == self.reliable() && x.frame() == Frame::Union(true, Box::new(self.w.frame())), Err(_) => !self.reliable() }
    { match self.variant(n) { Ok(u) => v.strict_encode(u), Err(e) => Err(e) } }
    pub fn complete(self) -> (r: W) requires self.written@, ensures r == self.w { self.w }
}

// ---------------------------------------------------------------- lemmas
pub mod lib {
    use super::*;
    pub broadcast proof fn assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
    pub proof fn no_head(s: Seq<u8>) requires s.len() == 0 ensures forall|c: u8, t: Seq<u8>| s != #[trigger] (seq![c] + t) {}
    pub proof fn head_unique(s: Seq<u8>, b: u8, t: Seq<u8>) requires s == seq![b] + t
        ensures forall|c: u8, u: Seq<u8>| s == #[trigger] (seq![c] + u) ==> c == b && u == t
    {
        assert forall|c: u8, u: Seq<u8>| s == #[trigger] (seq![c] + u) implies c == b && u == t by {
            assert((seq![c] + u)[0] == c); assert((seq![b] + t)[0] == b);
            assert(u =~= (seq![c] + u).skip(1)); assert(t =~= (seq![b] + t).skip(1));
        }
    }
    /// equal prefixes of equal length
    pub proof fn split(a: Seq<u8>, t: Seq<u8>, b: Seq<u8>, u: Seq<u8>) requires a.len() == b.len(), a + t == b + u ensures a == b, t == u
    {
        assert(a =~= (a + t).take(a.len() as int)); assert(b =~= (b + u).take(b.len() as int));
        assert(t =~= (a + t).skip(a.len() as int)); assert(u =~= (b + u).skip(b.len() as int));
    }
    pub proof fn le_len(n: nat, k: nat) ensures le(n, k).len() == k decreases k { if k > 0 { le_len(n / 256, (k - 1) as nat); } }
    pub open spec fn p256(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * p256((k - 1) as nat) } }
    pub proof fn le_inj(m: nat, n: nat, k: nat) requires le(m, k) == le(n, k), m < p256(k), n < p256(k) ensures m == n decreases k
    {
        if k > 0 {
            assert(le(m, k)[0] == (m % 256) as u8); assert(le(n, k)[0] == (n % 256) as u8);
            assert(le(m / 256, (k - 1) as nat) =~= le(m, k).skip(1)); assert(le(n / 256, (k - 1) as nat) =~= le(n, k).skip(1));
            le_inj(m / 256, n / 256, (k - 1) as nat);
        }
    }
    pub proof fn le_unique(m: nat, t: Seq<u8>, n: nat, u: Seq<u8>, k: nat) requires le(m, k) + t == le(n, k) + u, m < p256(k), n < p256(k) ensures m == n, t == u
    { le_len(m, k); le_len(n, k); split(le(m, k), t, le(n, k), u); le_inj(m, n, k); }
    pub proof fn p256s() ensures p256(0) == 1, p256(1) == 0x100, p256(2) == 0x1_0000, p256(3) == 0x100_0000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000
    { reveal_with_fuel(p256, 9); }
    pub proof fn p256_32() ensures p256(32) == pow2(256)
    {
        assert forall|k: nat| p256(k) == pow2(8 * k) by { p256_pow2(k); }
    }
    pub proof fn p256_pow2(k: nat) ensures p256(k) == pow2(8 * k) decreases k
    {
        if k == 0 { lemma2_to64(); } else {
            p256_pow2((k - 1) as nat);
            lemma_pow2_adds(8, (8 * (k - 1)) as nat); lemma2_to64();
        }
    }
    pub proof fn u256_bound(x: u256) ensures x.n() < pow2(256)
    {
        lemma_pow2_adds(128, 128);
        assert(pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by { lemma_pow2_adds(64, 64); lemma2_to64(); }
        assert(x.hi as nat * pow2(128) + x.lo as nat <= (pow2(128) - 1) * pow2(128) + (pow2(128) - 1)) by (nonlinear_arith) requires x.hi as nat <= pow2(128) - 1, x.lo as nat <= pow2(128) - 1;
        assert((pow2(128) - 1) * pow2(128) + (pow2(128) - 1) < pow2(128) * pow2(128)) by (nonlinear_arith) requires pow2(128) > 0;
    }
    pub proof fn u256_inj(x: u256, y: u256) requires x.n() == y.n() ensures x == y
    {
        assert(pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by { lemma_pow2_adds(64, 64); lemma2_to64(); }
        lemma_fundamental_div_mod_converse(x.n() as int, pow2(128) as int, x.hi as int, x.lo as int);
        lemma_fundamental_div_mod_converse(y.n() as int, pow2(128) as int, y.hi as int, y.lo as int);
    }
    pub broadcast group group_wire { assoc, super::errs::axiom_decode_from, super::errs::axiom_io_from }
}

pub mod errs {
    use super::*;
    pub broadcast axiom fn axiom_decode_from(v: DecodeError, r: DecodeError) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<DecodeError, DecodeError>(v, r) ==> r == v;
    pub broadcast axiom fn axiom_io_from(v: IoError, r: IoError) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<IoError, IoError>(v, r) ==> r == v;
}
broadcast use lib::group_wire;


// ---------------------------------------------------------------- the embedded types (codecs assumed, unique reading proved)
impl SB for u8 {
    open spec fn ok(&self) -> bool { true }
    open spec fn sb(&self) -> Seq<u8> { le(*self as nat, 1) }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) { lib::p256s(); lib::le_unique(*self as nat, t, *o as nat, u, 1); }
    proof fn same_self(&self) {}
}
impl Exact for u8 { proof fn exact(&self, o: &Self) {} }
impl StrictEncode for u8 { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl StrictDecode for u8 { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
impl SB for u16 {
    open spec fn ok(&self) -> bool { true }
    open spec fn sb(&self) -> Seq<u8> { le(*self as nat, 2) }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) { lib::p256s(); lib::le_unique(*self as nat, t, *o as nat, u, 2); }
    proof fn same_self(&self) {}
}
impl Exact for u16 { proof fn exact(&self, o: &Self) {} }
impl StrictEncode for u16 { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl StrictDecode for u16 { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
impl SB for u32 {
    open spec fn ok(&self) -> bool { true }
    open spec fn sb(&self) -> Seq<u8> { le(*self as nat, 4) }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) { lib::p256s(); lib::le_unique(*self as nat, t, *o as nat, u, 4); }
    proof fn same_self(&self) {}
}
impl Exact for u32 { proof fn exact(&self, o: &Self) {} }
impl StrictEncode for u32 { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl StrictDecode for u32 { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
impl SB for u64 {
    open spec fn ok(&self) -> bool { true }
    open spec fn sb(&self) -> Seq<u8> { le(*self as nat, 8) }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) { lib::p256s(); lib::le_unique(*self as nat, t, *o as nat, u, 8); }
    proof fn same_self(&self) {}
}
impl Exact for u64 { proof fn exact(&self, o: &Self) {} }
impl StrictEncode for u64 { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl StrictDecode for u64 { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
impl SB for u5 {
    open spec fn ok(&self) -> bool { self.v < 32 }
    open spec fn sb(&self) -> Seq<u8> { le(self.v as nat, 1) }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) { lib::p256s(); lib::le_unique(self.v as nat, t, o.v as nat, u, 1); }
    proof fn same_self(&self) {}
}
impl StrictEncode for u5 { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl StrictDecode for u5 { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
impl SB for u256 {
    open spec fn ok(&self) -> bool { true }
    open spec fn sb(&self) -> Seq<u8> { le(self.n(), 32) }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>)
    {
        lib::p256_32(); lib::u256_bound(*self); lib::u256_bound(*o);
        lib::le_unique(self.n(), t, o.n(), u, 32);
        lib::u256_inj(*self, *o);
    }
    proof fn same_self(&self) {}
}
impl StrictEncode for u256 { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl StrictDecode for u256 { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
impl<const N: usize> SB for [u8; N] {
    open spec fn ok(&self) -> bool { true }
    open spec fn sb(&self) -> Seq<u8> { self@ }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) { lib::split(self@, t, o@, u); assert(*self =~= *o); }
    proof fn same_self(&self) {}
}
impl<const N: usize> Exact for [u8; N] { proof fn exact(&self, o: &Self) {} }
impl<const N: usize> StrictEncode for [u8; N] { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl<const N: usize> StrictDecode for [u8; N] { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
impl SB for Bytes32 {
    open spec fn ok(&self) -> bool { true }
    open spec fn sb(&self) -> Seq<u8> { self.a@ }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) { lib::split(self.a@, t, o.a@, u); assert(self.a =~= o.a); }
    proof fn same_self(&self) {}
}
impl Exact for Bytes32 { proof fn exact(&self, o: &Self) {} }
impl StrictEncode for Bytes32 { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl StrictDecode for Bytes32 { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
impl<A: SB, B: SB> SB for (A, B) {
    open spec fn ok(&self) -> bool { self.0.ok() && self.1.ok() }
    open spec fn sb(&self) -> Seq<u8> { self.0.sb() + self.1.sb() }
    open spec fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) { self.0.unique(self.1.sb() + t, &o.0, o.1.sb() + u); self.1.unique(t, &o.1, u); }
    proof fn same_self(&self) { self.0.same_self(); self.1.same_self(); }
}
impl<A: StrictEncode, B: StrictEncode> StrictEncode for (A, B) { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl<A: StrictDecode, B: StrictDecode> StrictDecode for (A, B) { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
impl<T: SB> SB for Option<T> {
    open spec fn ok(&self) -> bool { match self { Some(x) => x.ok(), None => true } }
    open spec fn sb(&self) -> Seq<u8> { match self { Some(x) => seq![1u8] + x.sb(), None => seq![0u8] } }
    open spec fn same(&self, o: &Self) -> bool { match (self, o) { (Some(x), Some(y)) => x.same(y), (None, None) => true, _ => false } }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>)
    {
        match (self, o) {
            (Some(x), Some(y)) => { lib::split(seq![1u8], x.sb() + t, seq![1u8], y.sb() + u); x.unique(t, y, u); }
            (None, None) => { lib::split(seq![0u8], t, seq![0u8], u); }
            _ => { assert((self.sb() + t)[0] == self.sb()[0]); assert((o.sb() + u)[0] == o.sb()[0]); }
        }
    }
    proof fn same_self(&self) { if let Some(x) = self { x.same_self(); } }
}
impl<T: StrictEncode> StrictEncode for Option<T> { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl<T: StrictDecode> StrictDecode for Option<T> { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
/// width of the length prefix
pub open spec fn prefix(max: nat) -> nat { if max <= 0xFF { 1 } else if max <= 0xFFFF { 2 } else if max <= 0xFF_FFFF { 3 } else if max <= 0xFFFF_FFFF { 4 } else { 8 } }
pub open spec fn cat<T: SB>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0].sb() + cat(s.skip(1)) } }
pub open spec fn all_ok<T: SB>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }
pub open spec fn all_same<T: SB>(s: Seq<T>, o: Seq<T>) -> bool { s.len() == o.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).same(&o[i]) }
pub proof fn cat_unique<T: SB>(s: Seq<T>, t: Seq<u8>, o: Seq<T>, u: Seq<u8>)
    requires s.len() == o.len(), all_ok(s), all_ok(o), cat(s) + t == cat(o) + u
    ensures all_same(s, o), t == u
    decreases s.len()
{
    if s.len() > 0 {
        let (a, b) = (s.skip(1), o.skip(1));
        assert(s[0].sb() + (cat(a) + t) == o[0].sb() + (cat(b) + u));
        s[0].unique(cat(a) + t, &o[0], cat(b) + u);
        cat_unique(a, t, b, u);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).same(&o[i]) by { if i > 0 { assert(s[i] == a[i - 1] && o[i] == b[i - 1]); } }
    } else {
        assert(cat(s) + t =~= t); assert(cat(o) + u =~= u);
    }
}
impl<T: SB, const MIN: usize, const MAX: usize> SB for Confined<Vec<T>, MIN, MAX> {
    open spec fn ok(&self) -> bool { MIN <= self.c@.len() <= MAX && all_ok(self.c@) }
    open spec fn sb(&self) -> Seq<u8> { le(self.c@.len(), prefix(MAX as nat)) + cat(self.c@) }
    open spec fn same(&self, o: &Self) -> bool { all_same(self.c@, o.c@) }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>)
    {
        lib::p256s();
        lib::le_unique(self.c@.len(), cat(self.c@) + t, o.c@.len(), cat(o.c@) + u, prefix(MAX as nat));
        cat_unique(self.c@, t, o.c@, u);
    }
    proof fn same_self(&self) { assert forall|i: int| 0 <= i < self.c@.len() implies (#[trigger] self.c@[i]).same(&self.c@[i]) by { self.c@[i].same_self(); } }
}
impl<T: StrictEncode, const MIN: usize, const MAX: usize> StrictEncode for Confined<Vec<T>, MIN, MAX> { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl<T: StrictDecode, const MIN: usize, const MAX: usize> StrictDecode for Confined<Vec<T>, MIN, MAX> { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }
/// the entries of a map in the order of their keys
pub open spec fn entries<K, V>(m: BTreeMap<K, V>) -> Seq<(K, V)> { m.keys_seq().map_values(|k: K| (k, m@[k])) }
impl<K: Exact, V: SB, const MIN: usize, const MAX: usize> SB for Confined<BTreeMap<K, V>, MIN, MAX> {
    open spec fn ok(&self) -> bool { self.c@.dom().finite() && MIN <= self.c@.dom().len() <= MAX && all_ok(entries(self.c)) }
    open spec fn sb(&self) -> Seq<u8> { le(self.c@.dom().len(), prefix(MAX as nat)) + cat(entries(self.c)) }
    open spec fn same(&self, o: &Self) -> bool { self.c@.dom() =~= o.c@.dom() && forall|k: K| self.c@.contains_key(k) ==> (#[trigger] self.c@[k]).same(&o.c@[k]) }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>)
    {
        broadcast use axiom_sorted_keys;
        lib::p256s();
        let (a, b) = (entries(self.c), entries(o.c));
        let (ka, kb) = (self.c.keys_seq(), o.c.keys_seq());
        lib::le_unique(self.c@.dom().len(), cat(a) + t, o.c@.dom().len(), cat(b) + u, prefix(MAX as nat));
        cat_unique(a, t, b, u);
        assert forall|i: int| 0 <= i < ka.len() implies ka[i] == kb[i] && self.c@[ka[i]].same(&o.c@[ka[i]]) by { assert(a[i].same(&b[i])); ka[i].exact(&kb[i]); }
        assert(ka =~= kb);
        assert forall|k: K| self.c@.contains_key(k) implies (#[trigger] self.c@[k]).same(&o.c@[k]) by { assert(self.c@.dom().contains(k)); let i = choose|i: int| 0 <= i < ka.len() && ka[i] == k; }
        assert forall|k: K| self.c@.dom().contains(k) <==> o.c@.dom().contains(k) by { assert(self.c@.dom().contains(k) <==> ka.contains(k)); assert(o.c@.dom().contains(k) <==> kb.contains(k)); }
    }
    proof fn same_self(&self) { assert forall|k: K| self.c@.contains_key(k) implies (#[trigger] self.c@[k]).same(&self.c@[k]) by { self.c@[k].same_self(); } }
}
impl<K: StrictEncode + Exact, V: StrictEncode, const MIN: usize, const MAX: usize> StrictEncode for Confined<BTreeMap<K, V>, MIN, MAX> { #[verifier::external_body] fn strict_encode<W: TypedWrite>(&self, writer: W) -> (r: Result<W, IoError>) { unimplemented!() } }
impl<K: StrictDecode + Exact, V: StrictDecode, const MIN: usize, const MAX: usize> StrictDecode for Confined<BTreeMap<K, V>, MIN, MAX> { #[verifier::external_body] fn strict_decode<Impl0: TypedRead>(reader: &mut Impl0) -> (r: Result<Self, DecodeError>) { unimplemented!() } }

// ---------------------------------------------------------------- what follows for every type
pub struct MemWriter { pub b: Ghost<Seq<u8>> }
impl TypedWrite for MemWriter { open spec fn out(&self) -> Seq<u8> { self.b@ } open spec fn reliable(&self) -> bool { true } open spec fn frame(&self) -> Frame { Frame::Base(0) } }
pub struct MemReader { pub b: Ghost<Seq<u8>> }
impl TypedRead for MemReader { open spec fn rest(&self) -> Seq<u8> { self.b@ } }
/// serialization to memory succeeds and decoding gives the same value back
fn round_trip<T: StrictEncode + StrictDecode>(v: &T) -> (r: T)
    requires v.ok()
    ensures r.same(v) // @C17
{
    let w = MemWriter { b: Ghost(Seq::empty()) };
    match v.strict_encode(w) {
        Ok(w) => {
            let mut rd = MemReader { b: w.b };
            proof { assert(w.b@ =~= v.sb() + Seq::empty()); assert(w.b@ =~= v.sb()); }
            let x = wire_read::<T, MemReader>(&mut rd);
            match x { Ok(x) => x, Err(_) => unreached() }
        }
        Err(_) => unreached(),
    }
}
/// `from_strict_serialized`: nothing but the bytes of a value is accepted
fn deserialize<T: StrictDecode>(b: Ghost<Seq<u8>>) -> (r: Option<T>)
    ensures match r { Some(v) => v.ok() && b@ == v.sb(), None => forall|v: T| v.ok() ==> b@ != #[trigger] v.sb() } // @C17
{
    let mut rd = MemReader { b };
    let x = wire_read::<T, MemReader>(&mut rd);
    proof {
        assert forall|v: T| v.ok() && b@ == #[trigger] v.sb() implies (x is Ok && rd.b@ == Seq::<u8>::empty()) by { assert(b@ =~= v.sb() + Seq::empty()); }
    }
    match x { Ok(v) => if wire_at_end(&rd) { proof { assert(v.sb() + rd.b@ =~= v.sb()); } Some(v) } else { None }, Err(_) => None }
}
#[verifier::external_body]
fn wire_at_end(r: &MemReader) -> (e: bool) ensures e == (r.b@.len() == 0) { unimplemented!() }

// ---------------------------------------------------------------- the types of commit_verify
//% gsub strict_encoding::TypedWrite => TypedWrite
//% gsub strict_encoding::TypedRead => TypedRead
//% gsub strict_encoding::DecodeError => DecodeError
//% gsub ::std::io::Result<W> => Result<W, IoError>
//% gsub Self::Error => VariantError
//% gsub strict_encoding::VariantError::with::<Self>(wrong) => VariantError::with(wrong)
//% item commit_verify/src/id.rs StrictHash
//% item commit_verify/src/merkle.rs NodeBranching {
//%   derive Copy Clone
//% }
//% item commit_verify/src/merkle.rs MerkleHash
//% item commit_verify/src/merkle.rs MerkleNode
//% item commit_verify/src/mpc/atoms.rs Method {
//%   derive Copy Clone
//% }
//% item commit_verify/src/mpc/atoms.rs ProtocolId
//% item commit_verify/src/mpc/atoms.rs Message
//% item commit_verify/src/mpc/atoms.rs Commitment
//% item commit_verify/src/mpc/atoms.rs Leaf
//% item commit_verify/src/mpc/block.rs TreeNode
//% item commit_verify/src/mpc/block.rs MerkleConcealed
//% item commit_verify/src/mpc/block.rs MerkleBlock
//% item commit_verify/src/mpc/block.rs MerkleProof
//% item commit_verify/src/mpc/tree.rs MerkleTree
//% item commit_verify/src/mpc/atoms.rs MessageMap
//% item commit_verify/src/mpc/tree.rs OrderedMap
//% wire commit_verify/src/id.rs StrictHash
//% wire commit_verify/src/merkle.rs NodeBranching
//% wire commit_verify/src/merkle.rs MerkleHash
//% wire commit_verify/src/merkle.rs MerkleNode
//% wire commit_verify/src/mpc/atoms.rs Method
//% wire commit_verify/src/mpc/atoms.rs ProtocolId exact
//% wire commit_verify/src/mpc/atoms.rs Message
//% wire commit_verify/src/mpc/atoms.rs Commitment
//% wire commit_verify/src/mpc/atoms.rs Leaf
//% wire commit_verify/src/mpc/block.rs TreeNode
//% wire commit_verify/src/mpc/block.rs MerkleConcealed
//% wire commit_verify/src/mpc/block.rs MerkleBlock
//% wire commit_verify/src/mpc/block.rs MerkleProof
//% wire commit_verify/src/mpc/tree.rs MerkleTree
// reserved bytes: only one value is read
//% item commit_verify/src/lib.rs ReservedBytes {
//%   sub const VAL: u8 = 0 => const VAL: u8
//% }
impl<const LEN: usize, const VAL: u8> SB for ReservedBytes<LEN, VAL> {
    open spec fn ok(&self) -> bool { forall|i: int| 0 <= i < LEN ==> #[trigger] self.0@[i] == VAL }
    open spec fn sb(&self) -> Seq<u8> { self.0.sb() }
    open spec fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) { self.0.unique(t, &o.0, u); }
    proof fn same_self(&self) { self.0.same_self(); }
}
impl<const LEN: usize, const VAL: u8> PartialEq for ReservedBytes<LEN, VAL> {
//% fn @expanded <ReservedBytes<LEN,VAL> as PartialEq>::eq
//% ret r
//% props C16
//% end
}
impl<const LEN: usize, const VAL: u8> PartialEqSpecImpl for ReservedBytes<LEN, VAL> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ =~= o.0@ } }
impl<const LEN: usize, const VAL: u8> ReservedBytes<LEN, VAL> {
//% fn commit_verify/src/lib.rs <ReservedBytes<LEN,VAL> as Default>::default
//% ret r
//% props C17
//% spec
    ensures r.ok(),
//% end
}
impl<const LEN: usize, const VAL: u8> StrictTuple for ReservedBytes<LEN, VAL> { open spec fn count() -> int { 1 } }
impl<const LEN: usize, const VAL: u8> StrictEncode for ReservedBytes<LEN, VAL> {
//% fn @expanded <ReservedBytes<LEN,VAL> as StrictEncode>::strict_encode
//% ret r
//% props C17
//% wire
//% end
}
impl<const LEN: usize, const VAL: u8> StrictDecode for ReservedBytes<LEN, VAL> {
//% fn commit_verify/src/lib.rs <ReservedBytes<LEN,VAL> as StrictDecode>::strict_decode
//% ret r
//% props C17
//% wire
//% end
}
}
}
