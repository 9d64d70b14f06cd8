// commit_verify/src/{commit,embed,convolve}.rs: the commitment schemes and their default verification
verus! {
/// std::error::Error (marker here)
pub trait StdError {}
//% item commit_verify/src/commit.rs VerifyError {
//%   derive Copy Clone
//% }
/// == means something, and is symmetric (what PartialEq requires of implementations)
pub open spec fn eq_law<T: PartialEq>() -> bool { T::obeys_eq_spec() && forall|a: T, b: T| #[trigger] a.eq_spec(&b) == b.eq_spec(&a) }
pub trait CommitmentProtocol {}
pub trait CommitVerify<Msg, Protocol: CommitmentProtocol> where Self: Eq + Sized {
    /// the commitment to a message
    spec fn commit_spec(msg: &Msg) -> Self;
    fn commit(msg: &Msg) -> (r: Self) ensures r == Self::commit_spec(msg);
//% fn commit_verify/src/commit.rs CommitVerify::verify
//% ret r
//% props C11
//% spec
    ensures eq_law::<Self>() ==> r == (if Self::commit_spec(msg).eq_spec(self) { Ok::<(), VerifyError>(()) } else { Err(VerifyError::InvalidCommitment) }), // @C11
//% end
}
pub trait TryCommitVerify<Msg, Protocol: CommitmentProtocol> where Self: Eq + Sized {
    type Error: StdError;
    spec fn try_commit_spec(msg: &Msg) -> Result<Self, Self::Error>;
    fn try_commit(msg: &Msg) -> (r: Result<Self, Self::Error>) ensures r == Self::try_commit_spec(msg);
//% fn commit_verify/src/commit.rs TryCommitVerify::verify
//% ret r
//% props C11
//% spec
    ensures Self::try_commit_spec(msg) is Err ==> r == Err::<(), VerifyError>(VerifyError::InvalidMessage), // @C11
        eq_law::<Self>() ==> (Self::try_commit_spec(msg) matches Ok(c) ==> r == (if c.eq_spec(self) { Ok::<(), VerifyError>(()) } else { Err(VerifyError::InvalidCommitment) })), // @C11
//% end
}
}
