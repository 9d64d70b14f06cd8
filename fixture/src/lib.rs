//! Types of every shape with derived commitment encoding (C20). The expansion is put under contract.
use commit_encoding_derive::CommitEncode;
pub mod commit_verify {
    pub trait CommitEncode { type CommitmentId; fn commit_encode(&self, e: &mut CommitEngine); }
    pub struct CommitEngine;
    pub trait Conceal {}
}
pub mod amplify { pub trait Wrapper {} }
pub struct FxId;

#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = FxId)]
pub struct SNamed<T> { pub a: T, pub b: u16 }
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = FxId)]
pub struct STuple<T>(pub T, pub u8);
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = FxId)]
pub struct SWrap<T>(pub T);
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = FxId)]
pub struct SArray<T, const N: usize>(pub [T; N]);
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = FxId)]
pub enum SEnum<T> { Named { x: T }, Tuple(u8, T), Unit }
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = FxId)]
pub enum SPlain { One, Two }

#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = FxId)]
pub struct CNamed<T> { pub a: T, pub b: u16 }
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = FxId)]
pub struct CTuple<T>(pub T, pub u8);
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = FxId)]
pub enum CEnum<T> { Revealed { x: T }, Concealed(u8) }

#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = FxId)]
pub struct TTuple<T>(pub T);
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = FxId)]
pub struct TNamed<T> { pub a: T }

#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = FxId)]
pub struct MNamed<T> { pub a: T }
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = FxId)]
pub struct MTuple<T>(pub T, pub u8);
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = FxId)]
pub enum MEnum<T> { Some(T), None }

#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = FxId)]
pub struct SUnit;
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = FxId)]
pub struct SWide<T> { pub a: T, pub b: u8, pub c: u16, pub d: u32, pub e: u64, pub f: [u8; 4], pub g: bool, pub h: (u8, u8), pub i: [u8; 32] }
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = FxId)]
pub struct CWrap<T>(pub T);
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = FxId)]
pub struct CArray<T, const N: usize>(pub [T; N]);
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = FxId)]
pub enum CPlain { One, Two }
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = FxId)]
pub struct TWide<T> { pub a: T, pub b: u8, pub c: [u8; 4] }
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = FxId)]
pub struct MWrap<T>(pub T);
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = FxId)]
pub struct MArray<T, const N: usize>(pub [T; N]);
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = FxId)]
pub struct MUnit;
