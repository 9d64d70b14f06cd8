// commit_verify/src/embed.rs: embedded commitments
verus! {
/// Commit-equivalence. `veq` is its meaning, `vlaw` says that an implementation means it (and that it is symmetric).
pub trait VerifyEq {
    spec fn veq(&self, other: &Self) -> bool;
    spec fn vlaw() -> bool;
    fn verify_eq(&self, other: &Self) -> (r: bool) ensures Self::vlaw() ==> r == self.veq(other) && r == other.veq(self);
}
impl<T> VerifyEq for T where T: Eq {
    open spec fn veq(&self, other: &Self) -> bool { self.eq_spec(other) }
    open spec fn vlaw() -> bool { eq_law::<T>() }
//% fn commit_verify/src/embed.rs <T as VerifyEq>::verify_eq
//% ret r
//% props C12 C13
//% end
}
//% item commit_verify/src/embed.rs EmbedVerifyError {
//%   sub std::error::Error => StdError
//% }

// the From of `#[from] InvalidMessage` (derive(From) of amplify, assumed)
impl<E: StdError> FromSpecImpl<E> for EmbedVerifyError<E> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: E) -> Self { EmbedVerifyError::InvalidMessage(x) } }
impl<E: StdError> From<E> for EmbedVerifyError<E> { fn from(x: E) -> Self { EmbedVerifyError::InvalidMessage(x) } }
pub broadcast axiom fn axiom_embed_error_from<E: StdError>(v: E, r: EmbedVerifyError<E>) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<EmbedVerifyError<E>, E>(v, r) ==> r == EmbedVerifyError::InvalidMessage(v);
/// (the extraction drops the bound `Container: EmbedCommitVerify` and passes its error type as a parameter: the verifier has no cyclic traits)
pub trait EmbedCommitProof<Msg, Container, Protocol: CommitmentProtocol, E: StdError> where Self: Sized + VerifyEq {
    /// which results restoring may have (a relation: nothing is assumed about implementations)
    spec fn restores(&self, c: &Container, r: Result<Container, EmbedVerifyError<E>>) -> bool;
    fn restore_original_container(&self, c: &Container) -> (r: Result<Container, EmbedVerifyError<E>>) ensures self.restores(c, r);
}
pub trait EmbedCommitVerify<Msg, Protocol: CommitmentProtocol> where Self: Sized {
    type Proof: EmbedCommitProof<Msg, Self, Protocol, Self::CommitError>;
    type CommitError: StdError;
    /// which results and new containers embedding may have
    spec fn embeds(pre: Self, msg: &Msg, post: Self, r: Result<Self::Proof, Self::CommitError>) -> bool;
    fn embed_commit(&mut self, msg: &Msg) -> (r: Result<Self::Proof, Self::CommitError>) ensures Self::embeds(*old(self), msg, *final(self), r);
//% fn commit_verify/src/embed.rs EmbedCommitVerify::verify
//% ret r
//% props C12
//% spec
    ensures Self::vlaw() && Self::Proof::vlaw() ==> exists|r1: Result<Self, EmbedVerifyError<Self::CommitError>>| #[trigger] proof.restores(self, r1) && match r1 {
            Err(e) => r == Err::<(), EmbedVerifyError<Self::CommitError>>(e),
            Ok(c1) => exists|c2: Self, r2: Result<Self::Proof, Self::CommitError>| #[trigger] Self::embeds(c1, msg, c2, r2) && r == embed_verdict(*self, *proof, c2, r2),
        }, // @C12
//% start
    broadcast use {axiom_embed_error_from, vstd::std_specs::control_flow::group_control_flow_axioms};
//% end
}
pub open spec fn embed_verdict<C: VerifyEq, P: VerifyEq, E: StdError>(c: C, p: P, c2: C, r2: Result<P, E>) -> Result<(), EmbedVerifyError<E>> {
    match r2 {
        Err(e) => Err(EmbedVerifyError::InvalidMessage(e)),
        Ok(p2) => if !p2.veq(&p) { Err(EmbedVerifyError::InvalidProof) } else if !c2.veq(&c) { Err(EmbedVerifyError::CommitmentMismatch) } else { Ok(()) },
    }
}
}
