// src/api.rs: client-side validation
verus! {
//% item src/api.rs Validity {
//%   derive Copy Clone PartialEq Eq Structural
//% }
pub trait SealIssue { type Seal; }
pub trait ValidationFailure {}
pub trait ValidationReport { type SealIssue: SealIssue; type Failure: ValidationFailure; type Warning; type Info; }
//% item src/api.rs Status
/// the four lists of a report
pub struct Lists<I, F, W, N> { pub issues: Seq<I>, pub failures: Seq<F>, pub warnings: Seq<W>, pub info: Seq<N> }
pub type Rep<R> = Lists<<R as ValidationReport>::SealIssue, <R as ValidationReport>::Failure, <R as ValidationReport>::Warning, <R as ValidationReport>::Info>;
pub open spec fn lists<I, F, W, N>(issues: Seq<I>, failures: Seq<F>, warnings: Seq<W>, info: Seq<N>) -> Lists<I, F, W, N> { Lists { issues, failures, warnings, info } }
impl<I, F, W, N> Lists<I, F, W, N> {
    pub open spec fn plus(self, o: Self) -> Self { lists(self.issues + o.issues, self.failures + o.failures, self.warnings + o.warnings, self.info + o.info) }
    pub open spec fn plus_issues(self, i: Seq<I>) -> Self { Lists { issues: self.issues + i, ..self } }
}
/// Vec::extend by the elements of a Vec (std)
#[verifier::external_body]
pub fn std_extend<A>(v: &mut Vec<A>, o: Vec<A>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
pub trait ItemList<A>: Sized { spec fn items(&self) -> Seq<A>; fn into_iter(self) -> (r: std::vec::IntoIter<A>) ensures r.remaining() == self.items(), r.obeys_prophetic_iter_laws(), r.decrease() is Some; }
impl<R: ValidationReport> Status<R> {
    pub open spec fn rep(&self) -> Rep<R> { lists(self.seal_issues@, self.failures@, self.warnings@, self.info@) }
//% fn src/api.rs <Status<R> as AddAssign>::add_assign
//% props C15
//% overloads
//% spec
    ensures final(self).rep() == old(self).rep().plus(rhs.rep()), // @C15
//% end
//% gsub IntoIterator<Item = R::Failure> => ItemList<R::Failure>
//% fn src/api.rs <Status<R> as FromIterator<R::Failure>>::from_iter
//% ret r
//% props C15
//% spec
    ensures r.rep() == lists(Seq::empty(), iter.items(), Seq::empty(), Seq::empty()), // @C15
//% start
    let ghost items = iter.items(); proof { assert(items.take(items.len() as int) =~= items); }
//% loop 1 pipe inv
        invariant it1.seq() == items, __acc1@ == items.take(it1.index@ as int), // @C15
//% end
//% clear-gsubs
//% fn src/api.rs Status::new
//% ret r
//% props C15
//% spec
    ensures r.rep() == lists(Seq::empty(), Seq::empty(), Seq::empty(), Seq::empty()), // @C15
//% end
//% fn src/api.rs Status::from_failure
//% ret r
//% props C15
//% spec
    ensures r.rep() == lists(Seq::empty(), seq![failure], Seq::empty(), Seq::empty()), // @C15
//% end
//% fn src/api.rs Status::add_seal_issue
//% ret r
//% props C15
//% spec
    ensures final(self).rep() == (Lists { issues: old(self).rep().issues.push(seal_issue), ..old(self).rep() }), // @C15
        r.rep() == final(self).rep(),
//% end
//% fn src/api.rs Status::add_failure
//% ret r
//% props C15
//% spec
    ensures final(self).rep() == (Lists { failures: old(self).rep().failures.push(failure), ..old(self).rep() }), // @C15
//% end
//% fn src/api.rs Status::add_warning
//% ret r
//% props C15
//% spec
    ensures final(self).rep() == (Lists { warnings: old(self).rep().warnings.push(warning), ..old(self).rep() }), // @C15
//% end
//% fn src/api.rs Status::add_info
//% ret r
//% props C15
//% spec
    ensures final(self).rep() == (Lists { info: old(self).rep().info.push(info), ..old(self).rep() }), // @C15
//% end
//% fn src/api.rs Status::validity
//% ret r
//% props C15
//% spec
    ensures r == (if self.failures@.len() > 0 { Validity::Invalid } else if self.seal_issues@.len() > 0 { Validity::SealIssues } else { Validity::Valid }), // @C15
//% end
}

pub type SealOf<R> = <<R as ValidationReport>::SealIssue as SealIssue>::Seal;
pub trait ClientData<'client_data> where Self: 'client_data {
    type ValidationReport: ValidationReport;
    type SealIterator: Iterator<Item = &'client_data SealOf<Self::ValidationReport>>;
    /// the seals of the data, in order
    spec fn seals_spec(&self) -> Seq<&'client_data SealOf<Self::ValidationReport>>;
    fn single_use_seals(&'client_data self) -> (r: Self::SealIterator) ensures r.remaining() == self.seals_spec(), r.obeys_prophetic_iter_laws(), r.decrease() is Some;
    /// its consistency report
    spec fn report_spec(&self) -> Rep<Self::ValidationReport>;
    fn validate_internal_consistency(&'client_data self) -> (r: Status<Self::ValidationReport>) ensures r.rep() == self.report_spec();
}
pub trait SealResolver<Seal>: Sized {
    type Error: SealIssue<Seal = Seal>;
    /// which answers and new states the resolver may have for a seal (a relation: nothing is assumed about it)
    spec fn resolves(pre: Self, seal: Seal, post: Self, r: Result<(), Self::Error>) -> bool;
    fn resolve_trust(&mut self, seal: &Seal) -> (r: Result<(), Self::Error>) ensures Self::resolves(*old(self), *seal, *final(self), r);
}
pub open spec fn issue<E>(r: Result<(), E>) -> Seq<E> { match r { Ok(_) => Seq::empty(), Err(e) => seq![e] } }
/// asked about exactly these seals in this order, the resolver went from `pre` to `post` and returned these issues
pub open spec fn asked<S, R: SealResolver<S>>(pre: R, seals: Seq<&S>, issues: Seq<R::Error>, post: R) -> bool decreases seals.len() {
    if seals.len() == 0 { issues == Seq::<R::Error>::empty() && post == pre }
    else { exists|i0: Seq<R::Error>, mid: R, r: Result<(), R::Error>| asked::<S, R>(pre, seals.drop_last(), i0, mid) && #[trigger] asked_last::<S, R>(i0, mid, r, *seals.last(), issues, post) }
}
pub open spec fn asked_last<S, R: SealResolver<S>>(i0: Seq<R::Error>, mid: R, r: Result<(), R::Error>, seal: S, issues: Seq<R::Error>, post: R) -> bool { R::resolves(mid, seal, post, r) && issues == i0 + issue(r) }
pub proof fn lemma_asked_snoc<S, R: SealResolver<S>>(pre: R, seals: Seq<&S>, i0: Seq<R::Error>, mid: R, x: &S, r: Result<(), R::Error>, post: R) // @C15
    requires asked::<S, R>(pre, seals, i0, mid), R::resolves(mid, *x, post, r)
    ensures asked::<S, R>(pre, seals.push(x), i0 + issue(r), post)
{
    assert(seals.push(x).drop_last() =~= seals); assert(seals.push(x).last() == x); assert(asked::<S, R>(pre, seals.push(x).drop_last(), i0, mid)); assert(asked_last::<S, R>(i0, mid, r, *seals.push(x).last(), i0 + issue(r), post));
}
/// validating these items in this order took the resolver from `pre` to `post` and collected `rep` after `first`
pub open spec fn validated<'a, V: ClientData<'a>, R: SealResolver<SealOf<V::ValidationReport>, Error = <V::ValidationReport as ValidationReport>::SealIssue>>(pre: R, first: Rep<V::ValidationReport>, items: Seq<&'a V>, rep: Rep<V::ValidationReport>, post: R) -> bool decreases items.len() {
    if items.len() == 0 { rep == first && post == pre }
    else { exists|rep0: Rep<V::ValidationReport>, mid: R, issues: Seq<<V::ValidationReport as ValidationReport>::SealIssue>| validated::<V, R>(pre, first, items.drop_last(), rep0, mid)
        && #[trigger] validated_last::<V, R>(rep0, mid, issues, items.last(), rep, post) }
}
pub open spec fn validated_last<'a, V: ClientData<'a>, R: SealResolver<SealOf<V::ValidationReport>, Error = <V::ValidationReport as ValidationReport>::SealIssue>>(rep0: Rep<V::ValidationReport>, mid: R, issues: Seq<<V::ValidationReport as ValidationReport>::SealIssue>, item: &'a V, rep: Rep<V::ValidationReport>, post: R) -> bool {
    asked::<SealOf<V::ValidationReport>, R>(mid, item.seals_spec(), issues, post) && rep == rep0.plus_issues(issues).plus(item.report_spec())
}
pub proof fn lemma_validated_snoc<'a, V: ClientData<'a>, R: SealResolver<SealOf<V::ValidationReport>, Error = <V::ValidationReport as ValidationReport>::SealIssue>>(pre: R, first: Rep<V::ValidationReport>, items: Seq<&'a V>, rep0: Rep<V::ValidationReport>, mid: R, issues: Seq<<V::ValidationReport as ValidationReport>::SealIssue>, item: &'a V, rep: Rep<V::ValidationReport>, post: R) // @C15
    requires validated::<V, R>(pre, first, items, rep0, mid), validated_last::<V, R>(rep0, mid, issues, item, rep, post)
    ensures validated::<V, R>(pre, first, items.push(item), rep, post)
{
    assert(items.push(item).drop_last() =~= items); assert(items.push(item).last() == item); assert(validated::<V, R>(pre, first, items.push(item).drop_last(), rep0, mid)); assert(validated_last::<V, R>(rep0, mid, issues, items.push(item).last(), rep, post));
}
pub trait ClientSideValidate<'client_data>: ClientData<'client_data> where Self::ValidationItem: 'client_data {
    type ValidationItem: ClientData<'client_data, ValidationReport = Self::ValidationReport>;
    type ValidationIter: Iterator<Item = &'client_data Self::ValidationItem>;
    /// the validation items, in order
    spec fn items_spec(&self) -> Seq<&'client_data Self::ValidationItem>;
    fn validation_iter(&'client_data self) -> (r: Self::ValidationIter) ensures r.remaining() == self.items_spec(), r.obeys_prophetic_iter_laws(), r.decrease() is Some;
//% fn src/api.rs ClientSideValidate::client_side_validate
//% ret r
//% props C15
//% overloads
//% spec
    ensures validated::<Self::ValidationItem, Resolver>(*old(resolver), self.report_spec(), self.items_spec(), r.rep(), *final(resolver)), // @C15
//% start
    let ghost items = self.items_spec(); proof { assert(items.take(items.len() as int) =~= items); }
//% loop 1 for inv
        invariant it1.iter.obeys_prophetic_iter_laws(), it1.seq() == items, items == self.items_spec(),
            validated::<Self::ValidationItem, Resolver>(*old(resolver), self.report_spec(), items.take(it1.index@ as int), status.rep(), *resolver), // @C15
//% loop 1 for start
        let ghost (rep0, mid0, k1) = (status.rep(), *resolver, it1.index@ as int); let ghost seals = item.seals_spec(); let ghost mut issues: Seq<<<Self::ValidationItem as ClientData>::ValidationReport as ValidationReport>::SealIssue> = Seq::empty();
        proof { assert(seals.take(seals.len() as int) =~= seals); }
//% loop 2 for inv
            invariant it2.iter.obeys_prophetic_iter_laws(), it2.seq() == seals, seals == item.seals_spec(), status.rep() == rep0.plus_issues(issues), // @C15
                asked::<SealOf<Self::ValidationReport>, Resolver>(mid0, seals.take(it2.index@ as int), issues, *resolver), // @C15
//% loop 2 for start
            let ghost (rep2, mid2, k2) = (status.rep(), *resolver, it2.index@ as int);
//% loop 2 for end
            proof {
                assert(exists|r: Result<(), Resolver::Error>| #[trigger] Resolver::resolves(mid2, *seal, *resolver, r) && status.rep().issues =~= rep2.issues + issue(r)); // @C15
                let r = choose|r: Result<(), Resolver::Error>| #[trigger] Resolver::resolves(mid2, *seal, *resolver, r) && status.rep().issues =~= rep2.issues + issue(r);
                lemma_asked_snoc::<SealOf<Self::ValidationReport>, Resolver>(mid0, seals.take(k2), issues, mid2, seal, r, *resolver);
                assert(seals.take(k2 + 1) =~= seals.take(k2).push(seal));
                assert(rep0.issues + (issues + issue(r)) =~= (rep0.issues + issues) + issue(r));
                issues = issues + issue(r);
            }
//% loop 1 for end
        proof {
            assert(validated_last::<Self::ValidationItem, Resolver>(rep0, mid0, issues, item, status.rep(), *resolver)); // @C15
            lemma_validated_snoc::<Self::ValidationItem, Resolver>(*old(resolver), self.report_spec(), items.take(k1), rep0, mid0, issues, item, status.rep(), *resolver);
            assert(items.take(k1 + 1) =~= items.take(k1).push(item));
        }
//% end
}
}
