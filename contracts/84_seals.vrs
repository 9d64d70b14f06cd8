// single_use_seals/src/lib.rs: closing of single-use seals
verus! {
// (the trait declarations are split, with the same methods and associated types: the verifier has no cyclic traits)
pub trait SealMsg { type Message: Copy; }
pub trait ClientSideWitness {
    type Seal: SealMsg;
    type Proof;
    type Error;
    spec fn convolve_spec(&self, msg: <Self::Seal as SealMsg>::Message) -> Result<Self::Proof, Self::Error>;
    fn convolve_commit(&self, msg: <Self::Seal as SealMsg>::Message) -> (r: Result<Self::Proof, Self::Error>) ensures r == self.convolve_spec(msg);
}
pub trait SealCli: SealMsg + Clone { type CliWitness: ClientSideWitness<Seal = Self>; }
pub trait PublishedWitness<Seal: SealCli> {
    type PubId: Copy;
    type Error;
    spec fn pub_id_spec(&self) -> Self::PubId;
    fn pub_id(&self) -> (r: Self::PubId) ensures r == self.pub_id_spec();
    spec fn commitment_spec(&self, proof: <Seal::CliWitness as ClientSideWitness>::Proof) -> Result<(), Self::Error>;
    fn verify_commitment(&self, proof: <Seal::CliWitness as ClientSideWitness>::Proof) -> (r: Result<(), Self::Error>) ensures r == self.commitment_spec(proof);
}
pub trait SealPub: SealCli { type PubWitness: PublishedWitness<Self>; }
pub trait SingleUseSeal: SealPub {
    spec fn included_spec(&self, message: Self::Message, witness: &SealWitness<Self>) -> bool;
    fn is_included(&self, message: Self::Message, witness: &SealWitness<Self>) -> (r: bool) ensures r == self.included_spec(message, witness);
}
/// core::borrow::Borrow<Seal>
pub trait BorrowSeal<Seal> { spec fn bv(&self) -> Seal; fn borrow(&self) -> (r: &Seal) ensures *r == self.bv(); }
/// IntoIterator over borrowed seals, as the finite list of what it yields
pub trait SealList<Seal>: Sized {
    type Item: BorrowSeal<Seal>;
    spec fn items(&self) -> Seq<Self::Item>;
    fn listed(self) -> (r: Vec<Self::Item>) ensures r@ == self.items();
}
impl<Seal, B: BorrowSeal<Seal>, const N: usize> SealList<Seal> for [B; N] {
    type Item = B;
    open spec fn items(&self) -> Seq<B> { self@ }
    #[verifier::external_body] fn listed(self) -> Vec<B> { unimplemented!() }
}
//% item single_use_seals/src/lib.rs SealError {
//%   sub <Seal::PubWitness as PublishedWitness<Seal>> => <<Seal as SealPub>::PubWitness as PublishedWitness<Seal>>
//% }
pub use core::marker::PhantomData;
//% item single_use_seals/src/lib.rs SealWitness
//% item single_use_seals/src/lib.rs NoWitness

/// bool::then_some (std)
pub assume_specification<T>[bool::then_some::<T>](b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
impl<Seal: SingleUseSeal> SealWitness<Seal> {
    pub open spec fn all_included<B: BorrowSeal<Seal>>(&self, seals: Seq<B>, n: int, message: Seal::Message) -> bool {
        forall|i: int| 0 <= i < n ==> (#[trigger] seals[i]).bv().included_spec(message, self)
    }
    /// the checks after the seals: the client-side witness, then the published one
    pub open spec fn witness_verdict(&self, message: Seal::Message) -> Result<(), SealError<Seal>> {
        match self.client.convolve_spec(message) {
            Err(e) => Err(SealError::Client(e)),
            Ok(proof) => match self.published.commitment_spec(proof) { Err(e) => Err(SealError::Published(e)), Ok(_) => Ok(()) },
        }
    }
    pub open spec fn verdict<B: BorrowSeal<Seal>>(&self, seals: Seq<B>, message: Seal::Message, r: Result<(), SealError<Seal>>) -> bool {
        (self.all_included(seals, seals.len() as int, message) ==> r == self.witness_verdict(message))
        && forall|k: int| 0 <= k < seals.len() && self.all_included(seals, k, message) && !(#[trigger] seals[k]).bv().included_spec(message, self) ==>
            (r matches Err(SealError::NotIncluded(s, id)) && cloned::<Seal>(seals[k].bv(), s) && id == self.published.pub_id_spec())
    }
//% fn single_use_seals/src/lib.rs SealWitness::new
//% ret r
//% props C14
//% spec
    ensures r.published == published, r.client == client,
//% end
//% gsub impl Borrow<Seal> => impl BorrowSeal<Seal>
//% gsub impl IntoIterator<Item = impl BorrowSeal<Seal>> => impl SealList<Seal>
//% gsub impl IntoIterator<Item = impl Borrow<Seal>> => impl SealList<Seal>
//% fn single_use_seals/src/lib.rs SealWitness::verify_seal_closing
//% ret r
//% props C14
//% spec
    ensures seal.bv().included_spec(message, self) ==> r == self.witness_verdict(message), // @C14
        !seal.bv().included_spec(message, self) ==> (r matches Err(SealError::NotIncluded(s, id)) && cloned::<Seal>(seal.bv(), s) && id == self.published.pub_id_spec()), // @C14
//% end
//% gsub in seals => in seals.listed()
//% fn single_use_seals/src/lib.rs SealWitness::verify_seals_closing
//% ret r
//% props C14
//% spec
    ensures self.verdict(seals.items(), message, r), // @C14
//% loop 1 for inv
        invariant it1.seq() == seals.items(), self.all_included(seals.items(), it1.index@ as int, message), // @C14
//% end
//% clear-gsubs
}
impl<Seal: SingleUseSeal> ClientSideWitness for NoWitness<Seal> {
    type Seal = Seal;
    type Proof = Seal::Message;
    type Error = core::convert::Infallible;
    open spec fn convolve_spec(&self, msg: Seal::Message) -> Result<Seal::Message, core::convert::Infallible> { Ok(msg) }
//% fn single_use_seals/src/lib.rs <NoWitness<Seal> as ClientSideWitness>::convolve_commit
//% ret r
//% props C14
//% end
}
pub use core::convert::Infallible;
impl<Seal: SingleUseSeal> NoWitness<Seal> {
//% gsub Result<(), impl Error> => Result<(), Infallible>
//% fn single_use_seals/src/lib.rs <NoWitness<Seal> as ClientSideWitness>::merge
//% ret r
//% props C14
//% spec
    ensures r is Ok, *final(self) == *old(self), // @C14
//% end
//% clear-gsubs
//% fn single_use_seals/src/lib.rs <NoWitness<Seal> as PartialEq>::eq
//% ret r
//% props C14
//% spec
    ensures r, // @C14
//% end
}
}
