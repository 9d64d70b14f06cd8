// commit_verify/src/convolve.rs: convolved commitments
verus! {
//% item commit_verify/src/convolve.rs ConvolveVerifyError
/// (the associated type of ConvolveCommitProof, in a trait of its own: the verifier has no cyclic traits)
pub trait ConvolveSuppl { type Suppl; }
pub trait ConvolveCommit<Msg, Proof: ConvolveSuppl, Protocol: CommitmentProtocol> where Self: Sized {
    type Commitment: Sized + VerifyEq;
    type CommitError: StdError;
    /// which results convolving may have (a relation: nothing is assumed about implementations)
    spec fn convolves(&self, supplement: &Proof::Suppl, msg: &Msg, r: Result<(Self::Commitment, Proof), Self::CommitError>) -> bool;
    fn convolve_commit(&self, supplement: &Proof::Suppl, msg: &Msg) -> (r: Result<(Self::Commitment, Proof), Self::CommitError>) ensures self.convolves(supplement, msg, r);
}
pub trait ConvolveCommitProof<Msg, Source: ConvolveCommit<Msg, Self, Protocol>, Protocol: CommitmentProtocol> where Self: Sized + VerifyEq + ConvolveSuppl {
    spec fn restores(&self, commitment: &Source::Commitment, r: Source) -> bool;
    fn restore_original(&self, commitment: &Source::Commitment) -> (r: Source) ensures self.restores(commitment, r);
    spec fn suppl(&self, r: Self::Suppl) -> bool;
    fn extract_supplement(&self) -> (r: &Self::Suppl) ensures self.suppl(*r);
//% fn commit_verify/src/convolve.rs ConvolveCommitProof::verify
//% ret r
//% props C13
//% spec
    ensures Self::vlaw() && Source::Commitment::vlaw() ==> exists|o: Source, s: Self::Suppl, c: Result<(Source::Commitment, Self), Source::CommitError>|
            #[trigger] self.restores(commitment, o) && #[trigger] self.suppl(s) && #[trigger] o.convolves(&s, msg, c) && r == convolve_verdict(*self, *commitment, c), // @C13
//% end
}
pub open spec fn convolve_verdict<C: VerifyEq, P: VerifyEq, E>(p: P, c: C, r: Result<(C, P), E>) -> Result<(), ConvolveVerifyError> {
    match r {
        Err(_) => Err(ConvolveVerifyError::ImpossibleMessage),
        Ok((c2, p2)) => if !p2.veq(&p) { Err(ConvolveVerifyError::InvalidProof) } else if !c2.veq(&c) { Err(ConvolveVerifyError::CommitmentMismatch) } else { Ok(()) },
    }
}
}
