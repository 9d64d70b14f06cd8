// Contracts of the dependencies (std, amplify, sha2, strict_encoding, strict_types).
// Everything in this file is ASSUMED (trusted base); the conformance harness tests these
// contracts against the real dependency crates.
#![allow(warnings)]
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::ops::{Index, IndexMut, Deref};
use std::cmp::Ordering;
verus! {
global size_of usize == 8;

/// bit operations on machine words are the arithmetic they abbreviate (proved, not assumed)
pub mod words {
    use vstd::prelude::*;
    use vstd::arithmetic::power2::*;
    use vstd::arithmetic::power::*;
    pub broadcast proof fn shl_u32(n: u32) requires n < 32 ensures #[trigger] (1u32 << n) == pow2(n as nat), pow(2, n as nat) == pow2(n as nat)
    { vstd::bits::lemma_u32_pow2_no_overflow(n as nat); assert(1 * pow2(n as nat) == pow2(n as nat)); vstd::bits::lemma_u32_shl_is_mul(1, n); lemma_pow2(n as nat); }
    pub broadcast proof fn shl_u8(n: u8) requires n < 32 ensures #[trigger] (1u32 << n) == pow2(n as nat), pow(2, n as nat) == pow2(n as nat)
    { let m = n as u32; assert(1u32 << n == 1u32 << m) by(bit_vector) requires m == n as u32; shl_u32(m); }
    pub broadcast proof fn shl_usize(n: usize) requires n < 32 ensures #[trigger] (1u32 << n) == pow2(n as nat), pow(2, n as nat) == pow2(n as nat)
    { let m = n as u32; assert(1u32 << n == 1u32 << m) by(bit_vector) requires m == n as u32, n < 32; shl_u32(m); }
    pub broadcast proof fn shr_u32(n: u32) ensures #[trigger] (n >> 1u32) == n / 2 { assert(n >> 1u32 == n / 2) by(bit_vector); }
    pub broadcast proof fn and_u32(n: u32) ensures #[trigger] (n & 1u32) == n % 2 { assert(n & 1u32 == n % 2) by(bit_vector); }
    pub broadcast group word_ops { shl_u32, shl_u8, shl_usize, shr_u32, and_u32 }
}
broadcast use words::word_ops;

// a reachable panic is a failed precondition here
#[verifier::external_body]
fn unreached<A>() -> (r: A) requires false { unimplemented!() }
pub struct Msg;
#[verifier::external_body]
fn format_msg() -> (r: Msg) { unimplemented!() }

// ---------------------------------------------------------------- bytes
/// little-endian byte string of k bytes
pub open spec fn le(n: nat, k: nat) -> Seq<u8> decreases k {
    if k == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le(n / 256, (k - 1) as nat) }
}
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
/// SHA-256 as a function on byte strings
pub uninterp spec fn sha256(s: Seq<u8>) -> [u8; 32];
pub uninterp spec fn ripemd160(s: Seq<u8>) -> [u8; 20];


/// `to_le_bytes` of the primitive integers (renamed by the extraction)
pub trait LeBytes<const N: usize>: Sized { spec fn lv(self) -> nat; fn to_le_bytes_(self) -> (r: [u8; N]) ensures r@ == le(self.lv(), N as nat); }
impl LeBytes<1> for u8 { open spec fn lv(self) -> nat { self as nat } #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 1]) { unimplemented!() } }
impl LeBytes<2> for u16 { open spec fn lv(self) -> nat { self as nat } #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 2]) { unimplemented!() } }
impl LeBytes<4> for u32 { open spec fn lv(self) -> nat { self as nat } #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 4]) { unimplemented!() } }
impl LeBytes<8> for u64 { open spec fn lv(self) -> nat { self as nat } #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 8]) { unimplemented!() } }

pub struct FromSliceError;
#[derive(Copy, Clone, Debug)]
pub struct Bytes32 { pub a: [u8; 32] }
impl PartialEq for Bytes32 { #[verifier::external_body] fn eq(&self, o: &Bytes32) -> bool { unimplemented!() } }
impl Eq for Bytes32 {}
impl PartialEqSpecImpl for Bytes32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Bytes32) -> bool { *self == *o } }
/// the order of 32-byte strings (assumed: a total order, equal exactly for equal strings)
pub uninterp spec fn bytes_order(a: Bytes32, b: Bytes32) -> Ordering;
pub axiom fn axiom_bytes_order(a: Bytes32, b: Bytes32) ensures bytes_order(a, b) is Equal <==> a == b;
impl PartialOrd for Bytes32 { #[verifier::external_body] fn partial_cmp(&self, o: &Bytes32) -> Option<Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl for Bytes32 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Bytes32) -> Option<Ordering> { Some(bytes_order(*self, *o)) } }
impl Ord for Bytes32 { #[verifier::external_body] fn cmp(&self, o: &Bytes32) -> Ordering { unimplemented!() } }
impl OrdSpecImpl for Bytes32 { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Bytes32) -> Ordering { bytes_order(*self, *o) } }
impl Bytes32 {
    pub const fn from_array(a: [u8; 32]) -> (r: Self) ensures r.a == a { Bytes32 { a } }
    pub fn into_inner(self) -> (r: [u8; 32]) ensures r == self.a { self.a }
    #[verifier::external_body]
    pub fn copy_from_slice(slice: &[u8]) -> (r: Result<Bytes32, FromSliceError>) ensures r is Ok <==> slice@.len() == 32, r matches Ok(x) ==> x.a@ == slice@ { unimplemented!() }
}
impl FromSpecImpl<[u8; 32]> for Bytes32 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; 32]) -> Bytes32 { Bytes32 { a: v } } }
impl From<[u8; 32]> for Bytes32 { fn from(a: [u8; 32]) -> Self { Bytes32 { a } } }

/// things that can be read as bytes
pub trait AsBytes { spec fn av(&self) -> Seq<u8>; }
impl AsBytes for &'static str { uninterp spec fn av(&self) -> Seq<u8>; }
pub broadcast axiom fn axiom_str_bytes(s: &'static str) ensures #[trigger] s.av() == utf8(s@);
impl AsBytes for &[u8] { open spec fn av(&self) -> Seq<u8> { self@ } }

// ---------------------------------------------------------------- amplify::num
#[derive(Debug)]
pub struct OverflowError;
#[derive(Copy, Clone, PartialEq, Eq, Structural, Debug)]
pub struct u5 { pub v: u8 }
impl u5 {
    pub open spec fn n(self) -> nat { self.v as nat }
    pub open spec fn wf(self) -> bool { self.v < 32 }
    pub const ZERO: u5 = u5 { v: 0 };
    pub const ONE: u5 = u5 { v: 1 };
    pub const MAX: u5 = u5 { v: 31 };
    pub const fn with(v: u8) -> (r: u5) requires v < 32 ensures r == (u5 { v }) { u5 { v } }
    pub fn try_from(v: u8) -> (r: Result<u5, OverflowError>) ensures v < 32 ==> r == Ok::<u5, OverflowError>(u5 { v }), v >= 32 ==> r is Err { if v < 32 { Ok(u5 { v }) } else { Err(OverflowError) } }
    pub fn to_u8(self) -> (r: u8) ensures r == self.v { self.v }
    #[verifier::external_body]
    pub fn checked_add(self, x: u8) -> (r: Option<u5>)
        ensures r == (if self.v + x < 32 { Some(u5 { v: (self.v + x) as u8 }) } else { None })
    { unimplemented!() }
}
impl PartialEqSpecImpl for u5 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &u5) -> bool { *self == *o } }
impl PartialOrd for u5 { #[verifier::external_body] fn partial_cmp(&self, o: &u5) -> Option<Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl for u5 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &u5) -> Option<Ordering> {
        Some(if self.v < o.v { Ordering::Less } else if self.v == o.v { Ordering::Equal } else { Ordering::Greater }) }
}
impl Ord for u5 { #[verifier::external_body] fn cmp(&self, o: &u5) -> Ordering { unimplemented!() } }
impl OrdSpecImpl for u5 {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &u5) -> Ordering { if self.v < o.v { Ordering::Less } else if self.v == o.v { Ordering::Equal } else { Ordering::Greater } }
}
impl Default for u5 { fn default() -> (r: u5) ensures r == (u5 { v: 0 }) { u5 { v: 0 } } }
impl vstd::std_specs::ops::SubSpecImpl<u8> for u5 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: u8) -> bool { self.v >= rhs }
    open spec fn sub_spec(self, rhs: u8) -> u5 { u5 { v: (self.v - rhs) as u8 } }
}
impl core::ops::Sub<u8> for u5 { type Output = u5; fn sub(self, rhs: u8) -> (r: u5) { u5 { v: self.v - rhs } } }
impl vstd::std_specs::ops::AddSpecImpl<u8> for u5 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: u8) -> bool { self.v + rhs < 32 }
    open spec fn add_spec(self, rhs: u8) -> u5 { u5 { v: (self.v + rhs) as u8 } }
}
impl core::ops::Add<u8> for u5 { type Output = u5; fn add(self, rhs: u8) -> (r: u5) { u5 { v: self.v + rhs } } }
impl FromSpecImpl<u5> for u8 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u5) -> u8 { x.v } }
impl From<u5> for u8 { fn from(x: u5) -> u8 { x.v } }

#[derive(Copy, Clone)]
pub struct u24 { pub v: u32 }
impl u24 {
    pub fn with(v: u32) -> (r: u24) requires v < 0x100_0000 ensures r.v == v { u24 { v } }
}
impl LeBytes<3> for u24 { open spec fn lv(self) -> nat { self.v as nat } #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 3]) { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct u256 { pub hi: u128, pub lo: u128 }
impl u256 {
    pub open spec fn n(self) -> nat { (self.hi as nat) * pow2(128) + self.lo as nat }
}
pub open spec fn u256_of(n: nat) -> u256 { u256 { hi: (n / pow2(128)) as u128, lo: (n % pow2(128)) as u128 } }
/// value of a little-endian byte string
pub open spec fn le_val(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.skip(1)) } }
impl u256 {
    #[verifier::external_body]
    pub fn from_le_bytes(b: [u8; 32]) -> (r: u256) ensures r.n() == le_val(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn low_u64(&self) -> (r: u64) ensures r == self.n() % 0x1_0000_0000_0000_0000 { unimplemented!() }
}
impl FromSpecImpl<u64> for u256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u64) -> u256 { u256 { hi: 0, lo: x as u128 } } }
impl From<u64> for u256 { fn from(x: u64) -> u256 { u256 { hi: 0, lo: x as u128 } } }
impl FromSpecImpl<u32> for u256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u32) -> u256 { u256 { hi: 0, lo: x as u128 } } }
impl From<u32> for u256 { fn from(x: u32) -> u256 { u256 { hi: 0, lo: x as u128 } } }
impl vstd::std_specs::ops::RemSpecImpl<u256> for u256 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, rhs: u256) -> bool { rhs.n() != 0 }
    open spec fn rem_spec(self, rhs: u256) -> u256 { u256_of(self.n() % rhs.n()) }
}
impl core::ops::Rem<u256> for u256 { type Output = u256; #[verifier::external_body] fn rem(self, rhs: u256) -> (r: u256) { unimplemented!() } }

pub assume_specification[u32::pow](b: u32, e: u32) -> (r: u32)
    requires pow(b as int, e as nat) <= u32::MAX
    ensures r == pow(b as int, e as nat);
pub assume_specification[usize::pow](b: usize, e: u32) -> (r: usize)
    requires pow(b as int, e as nat) <= usize::MAX
    ensures r == pow(b as int, e as nat);

// ---------------------------------------------------------------- std
pub assume_specification[u32::div_ceil](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == (a + b - 1) / (b as int);
pub assume_specification[usize::div_ceil](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (a + b - 1) / (b as int);
pub assume_specification[u32::abs_diff](a: u32, b: u32) -> (r: u32) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification[u32::rem_euclid](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a % b;
pub assume_specification[u32::div_euclid](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a / b;
pub assume_specification[u32::is_power_of_two](a: u32) -> (r: bool) ensures r == (exists|k: nat| a == pow2(k));
pub assume_specification[u32::next_power_of_two](a: u32) -> (r: u32)
    requires a <= 0x8000_0000
    ensures a <= r, exists|k: nat| r == #[trigger] pow2(k) && (k > 0 ==> pow2((k - 1) as nat) < a);
pub assume_specification[u32::checked_pow](b: u32, e: u32) -> (r: Option<u32>)
    ensures r == (if pow(b as int, e as nat) <= u32::MAX { Some(pow(b as int, e as nat) as u32) } else { None });
pub assume_specification[u64::pow](b: u64, e: u32) -> (r: u64)
    requires pow(b as int, e as nat) <= u64::MAX
    ensures r == pow(b as int, e as nat);
pub assume_specification<T>[Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: std::marker::Destruct
    ensures r == (match a { Some(x) => Some(x), None => b });
pub assume_specification<T, U>[Option::<T>::and](a: Option<T>, b: Option<U>) -> (r: Option<U>) where T: std::marker::Destruct, U: std::marker::Destruct
    ensures r == (match a { Some(x) => b, None => None });
pub assume_specification<T, U>[Option::<T>::zip](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) where T: std::marker::Destruct, U: std::marker::Destruct
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T>[core::mem::replace](o: &mut T, x: T) -> (r: T)
    ensures r == *old(o), *final(o) == x;
pub assume_specification<T>[core::mem::drop](x: T) where T: std::marker::Destruct;
pub assume_specification<T>[<[T]>::swap](s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len()
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub assume_specification<T>[<[T]>::reverse](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T: Copy>[Option::<&T>::copied](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T, E>[Result::<T, E>::unwrap_or](o: Result<T, E>, d: T) -> (r: T) where E: std::marker::Destruct, T: std::marker::Destruct
    ensures r == (match o { Ok(x) => x, Err(_) => d });
pub open spec fn eq_is_eq<T: PartialEq>() -> bool { <T as PartialEqSpec>::obeys_eq_spec() && forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> a == b }
pub assume_specification<T: PartialEq>[<[T]>::contains](o: &[T], x: &T) -> (r: bool)
    ensures eq_is_eq::<T>() ==> r == o@.contains(*x);

pub trait AsRef<T: ?Sized> { spec fn as_ref_spec(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec(); }

impl<T, const N: usize> AsRef<[T]> for [T; N] { uninterp spec fn as_ref_spec(&self) -> &[T]; #[verifier::external_body] fn as_ref(&self) -> &[T] { unimplemented!() } }
pub broadcast axiom fn axiom_array_as_ref<T, const N: usize>(a: [T; N]) ensures (#[trigger] a.as_ref_spec())@ == a@, N == 0 ==> a.as_ref_spec()@ =~= Seq::<T>::empty();
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { s: std::collections::BTreeSet<T> }
impl<T> View for BTreeSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> BTreeSet<T> {
    /// the elements in ascending order
    pub uninterp spec fn seq(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: std::vec::IntoIter<T>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
            forall|x: T| #[trigger] self@.contains(x) <==> r.remaining().contains(x),
            forall|i: int| 0 <= i < r.remaining().len() ==> self@.contains(#[trigger] r.remaining()[i]),
            r.remaining().no_duplicates() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { s: std::collections::BTreeMap<K, V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
/// the keys in ascending order
pub uninterp spec fn sorted_keys<K>(s: Set<K>) -> Seq<K>;
impl<K, V> BTreeMap<K, V> {
    pub open spec fn keys_seq(&self) -> Seq<K> { sorted_keys(self@.dom()) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_values(self) -> (r: std::vec::IntoIter<V>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
            r.remaining() == self.keys_seq().map_values(|k: K| self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: std::vec::IntoIter<(&K, &V)>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
            r.remaining() == self.keys_seq().map_values(|k: K| (&k, &self@[k])) { unimplemented!() }
}
pub broadcast axiom fn axiom_sorted_keys<K>(s: Set<K>)
    ensures s.finite() ==> (#[trigger] sorted_keys(s)).no_duplicates() && sorted_keys(s).len() == s.len() && (forall|k: K| s.contains(k) <==> sorted_keys(s).contains(k))
        && (forall|i: int| 0 <= i < sorted_keys(s).len() ==> s.contains(#[trigger] sorted_keys(s)[i]));

/// u5 keys ascend numerically
pub broadcast axiom fn axiom_sorted_u5(s: Set<u5>)
    ensures (#[trigger] sorted_keys(s)).no_duplicates() || true, s.finite() ==> forall|i: int, j: int| 0 <= i < j < sorted_keys(s).len() ==> (#[trigger] (sorted_keys(s)[i])).v < (#[trigger] (sorted_keys(s)[j])).v;

// ---------------------------------------------------------------- amplify::confinement
pub const U8MAX: usize = 0xFF;
pub const U16MAX: usize = 0xFFFF;
pub const U24MAX: usize = 0xFF_FFFF;
pub const U32MAX: usize = 0xFFFF_FFFF;
pub const U64MAX: usize = usize::MAX;
#[verifier::reject_recursive_types_in_ground_variants(C)]
pub struct Confined<C, const MIN: usize, const MAX: usize> { pub c: C }
pub type NonEmptyVec<T, const MAX: usize> = Confined<Vec<T>, 1, MAX>;
pub type SmallVec<T> = Confined<Vec<T>, 0, U16MAX>;
pub type TinyVec<T> = Confined<Vec<T>, 0, U8MAX>;
pub type LargeVec<T> = Confined<Vec<T>, 0, U32MAX>;
pub type MediumOrdMap<K, V> = Confined<BTreeMap<K, V>, 0, U24MAX>;
#[derive(Debug)]
pub struct ConfinementError;
pub trait Coll: Sized { spec fn size(&self) -> nat; spec fn law(&self) -> bool; }
impl<T> Coll for Vec<T> { open spec fn size(&self) -> nat { self@.len() } open spec fn law(&self) -> bool { true } }
impl<K, V> Coll for BTreeMap<K, V> { open spec fn size(&self) -> nat { self@.dom().len() } open spec fn law(&self) -> bool { self@.dom().finite() } }
impl<C: Coll, const MIN: usize, const MAX: usize> Confined<C, MIN, MAX> {
    #[verifier::external_body]
    pub fn try_from(v: C) -> (r: Result<Self, ConfinementError>)
      ensures v.law(), MIN <= v.size() <= MAX ==> (r matches Ok(x) && x.c == v), !(MIN <= v.size() <= MAX) ==> r is Err
    { unimplemented!() }
}
impl<T, const MIN: usize, const MAX: usize> Confined<Vec<T>, MIN, MAX> {
    pub open spec fn wfc(&self) -> bool { MIN <= self.c@.len() <= MAX }
    pub fn new() -> (r: Self) ensures r.c@ == Seq::<T>::empty() { Confined { c: Vec::new() } }
    /// panics outside the bounds
    pub fn from_checked(v: Vec<T>) -> (r: Self) requires MIN <= v@.len() <= MAX ensures r.c == v { Confined { c: v } }
    pub fn len(&self) -> (r: usize) ensures r == self.c@.len() { self.c.len() }
    pub fn len_u32(&self) -> (r: u32) requires MAX <= U32MAX, self.wfc() ensures r == self.c@.len() { self.c.len() as u32 }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.c@.len() == 0) { self.c.len() == 0 }
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures r == (if i < self.c@.len() { Some(&self.c@[i as int]) } else { None }) { self.c.get(i) }
    pub fn first(&self) -> (r: Option<&T>) ensures r == (if 0 < self.c@.len() { Some(&self.c@[0]) } else { None }) { if self.c.len() > 0 { Some(&self.c[0]) } else { None } }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: core::slice::Iter<'_, T>) ensures r.remaining() == self.c@.map_values(|x: T| &x), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some { self.c.iter() }
    #[verifier::external_body]
    pub fn iter_refs(&self) -> (r: std::vec::IntoIter<&T>) ensures r.remaining() == self.c@.map_values(|x: T| &x), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_copied(&self) -> (r: std::vec::IntoIter<T>) where T: Copy
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some, r.remaining() == self.c@
    { unimplemented!() }
    pub fn iter_mut(&mut self) -> (r: core::slice::IterMut<'_, T>)
      ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some, r.remaining().len() == old(self).c@.len(), forall|i: int| 0 <= i < old(self).c@.len() ==> *(#[trigger] r.remaining()[i]) == old(self).c@[i],
        final(self).c@.len() == old(self).c@.len(), forall|i: int| 0 <= i < old(self).c@.len() ==> #[trigger] final(self).c@[i] == *final(r.remaining()[i]),
    { self.c.iter_mut() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) -> (r: Result<(), ConfinementError>)
      ensures old(self).c@.len() >= MAX ==> r is Err && final(self).c@ == old(self).c@,
         old(self).c@.len() < MAX ==> r is Ok && final(self).c@ == old(self).c@.push(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: Result<T, ConfinementError>)
      ensures old(self).c@.len() <= MIN || i >= old(self).c@.len() ==> r is Err && final(self).c@ == old(self).c@,
         old(self).c@.len() > MIN && i < old(self).c@.len() ==> r is Ok && final(self).c@ == old(self).c@.remove(i as int)
    { unimplemented!() }
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.c@ { self.c.as_slice() }
}
impl<T, const MAX: usize> Default for Confined<Vec<T>, 0, MAX> {
    fn default() -> (r: Self) ensures r.c@ == Seq::<T>::empty() { Confined { c: Vec::new() } }
}
impl<T: Copy, const MIN: usize, const MAX: usize> Clone for Confined<Vec<T>, MIN, MAX> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.c@ == self.c@, r == *self { unimplemented!() }
}
/// the discriminant of an enum (compiler intrinsic, assumed): which variant it is
pub trait Discr { spec fn discr(&self) -> int; }
#[verifier::external_body]
pub fn discriminant_value<T: Discr>(t: &T) -> (r: isize) ensures r == t.discr() { unimplemented!() }
impl<T, const MIN: usize, const MAX: usize> vstd::std_specs::core::IndexSpecImpl<usize> for Confined<Vec<T>, MIN, MAX> {
  open spec fn index_req(&self, i: &usize) -> bool { *i < self.c@.len() }
}
impl<T, const MIN: usize, const MAX: usize> Index<usize> for Confined<Vec<T>, MIN, MAX> { type Output = T;
  fn index(&self, i: usize) -> (r: &T) ensures *r == self.c@[i as int] { &self.c[i] } }
impl<T, const MIN: usize, const MAX: usize> IndexMut<usize> for Confined<Vec<T>, MIN, MAX> {
  fn index_mut(&mut self, i: usize) -> (r: &mut T) ensures *r == old(self).c@[i as int], final(self).c@ == old(self).c@.update(i as int, *final(r)) { &mut self.c[i] } }
impl<T, const MIN: usize, const MAX: usize> Confined<BTreeSet<T>, MIN, MAX> {
    #[verifier::external_body]
    pub fn iter_refs(&self) -> (r: std::vec::IntoIter<&T>) ensures r.remaining() == self.c.seq().map_values(|x: T| &x), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some { unimplemented!() }
}
impl<K, V, const MIN: usize, const MAX: usize> Confined<BTreeMap<K, V>, MIN, MAX> {
    pub open spec fn wfm(&self) -> bool { self.c@.dom().finite() && MIN <= self.c@.dom().len() <= MAX }
    pub fn len(&self) -> (r: usize) ensures r == self.c@.dom().len(), self.c@.dom().finite() { self.c.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.c@.dom().len() == 0) { self.c.is_empty() }
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self.c@.contains_key(*k) { Some(&self.c@[*k]) } else { None }) { self.c.get(k) }
    pub fn iter(&self) -> (r: std::vec::IntoIter<(&K, &V)>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
            r.remaining() == self.c.keys_seq().map_values(|k: K| (&k, &self.c@[k])) { self.c.iter() }
}
impl<K, V, const MIN: usize, const MAX: usize> Clone for Confined<BTreeMap<K, V>, MIN, MAX> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---------------------------------------------------------------- sha2, ripemd
#[verifier::external_body]
pub struct Sha256 { s: u8 }
#[derive(Copy, Clone)]
pub struct Digest32 { pub a: [u8; 32] }
impl AsBytes for Digest32 { open spec fn av(&self) -> Seq<u8> { self.a@ } }
impl FromSpecImpl<Digest32> for [u8; 32] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Digest32) -> [u8; 32] { x.a } }
impl From<Digest32> for [u8; 32] { fn from(x: Digest32) -> [u8; 32] { x.a } }
impl View for Sha256 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Sha256 {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, data: impl AsBytes) ensures final(self)@ == old(self)@ + data.av() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Digest32) ensures r.a == sha256(self@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Ripemd160 { s: u8 }
#[derive(Copy, Clone)]
pub struct Digest20 { pub a: [u8; 20] }
impl AsBytes for Digest20 { open spec fn av(&self) -> Seq<u8> { self.a@ } }
impl FromSpecImpl<Digest20> for [u8; 20] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Digest20) -> [u8; 20] { x.a } }
impl From<Digest20> for [u8; 20] { fn from(x: Digest20) -> [u8; 20] { x.a } }
impl View for Ripemd160 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Ripemd160 {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, data: impl AsBytes) ensures final(self)@ == old(self)@ + data.av() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Digest20) ensures r.a == ripemd160(self@) { unimplemented!() }
}
}
