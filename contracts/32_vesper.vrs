// commit_verify/src/vesper.rs: the published description of a commitment layout
verus! {
// ------------------------------------------------- strict_encoding, strict_types, vesper (assumed)
#[derive(Copy, Clone, PartialEq, Eq, Structural, Debug)]
pub struct Ident { pub id: u64 }
pub uninterp spec fn ident_of(s: Seq<char>) -> Ident;
#[verifier::external_body]
pub fn ident(s: &'static str) -> (r: Ident) ensures r == ident_of(s@) { unimplemented!() }
impl TypeName {
    pub open spec fn idt(&self) -> Ident { Ident { id: self.id } }
    /// the same name
    pub fn to_ident(&self) -> (r: Ident) ensures r == self.idt() { Ident { id: self.id } }
}
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct LenRange { pub min: u64, pub max: u64 }
impl FromSpecImpl<Sizing> for LenRange { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Sizing) -> Self { LenRange { min: v.min, max: v.max } } }
impl From<Sizing> for LenRange { fn from(v: Sizing) -> LenRange { LenRange { min: v.min, max: v.max } } }
//% item commit_verify/src/vesper.rs Pred
//% item commit_verify/src/vesper.rs Attr
//% item commit_verify/src/vesper.rs AttrExpr
pub enum AttrVal { Ident(Ident), Expr(AttrExpr) }
/// vesper's `TExpr<Pred>`, whose attributes are `<Pred as Predicate>::Attr`
pub struct VesperCommit {
    pub subject: Ident,
    pub predicate: Pred,
    pub attributes: SmallVec<Attr>,
    pub content: TinyVec<Box<VesperCommit>>,
    pub comment: Option<String>,
}

// ------------------------------------------------- what the description has to say
pub open spec fn step_type(s: CommitStep) -> TypeFqn {
    match s {
        CommitStep::Serialized(t) => t, CommitStep::Collection(_, _, t) => t, CommitStep::Hashed(t) => t,
        CommitStep::Merklized(t) => t, CommitStep::Concealed(t) => t,
    }
}
pub open spec fn step_kind(s: CommitStep) -> Pred {
    match s {
        CommitStep::Serialized(_) => Pred::Serialized, CommitStep::Hashed(_) => Pred::Hashed, CommitStep::Merklized(_) => Pred::Merklized, CommitStep::Concealed(_) => Pred::Concealed,
        CommitStep::Collection(c, _, _) => match c { CommitColType::List => Pred::List, CommitColType::Set => Pred::Set, CommitColType::Map { .. } => Pred::Map },
    }
}
pub open spec fn step_attrs(s: CommitStep) -> Seq<Attr> {
    match s {
        CommitStep::Collection(_, z, _) => seq![Attr::LenRange(LenRange { min: z.min, max: z.max })],
        CommitStep::Concealed(t) => seq![Attr::Concealed(t)],
        _ => Seq::empty(),
    }
}
/// what a collection is made of, by type and role
pub open spec fn step_parts(s: CommitStep) -> Seq<(Pred, TypeFqn)> {
    match s {
        CommitStep::Collection(CommitColType::Map { key }, _, v) => seq![(Pred::MapKey, key), (Pred::MapValue, v)],
        CommitStep::Collection(_, _, v) => seq![(Pred::Element, v)],
        _ => Seq::empty(),
    }
}
pub open spec fn is_part(e: VesperCommit, p: (Pred, TypeFqn)) -> bool {
    &&& e.subject == p.1.name.idt() && e.predicate == p.0
    &&& e.attributes.c@.len() == 0 && e.content.c@.len() == 0 && e.comment is None
}
pub open spec fn are_parts(c: Seq<Box<VesperCommit>>, p: Seq<(Pred, TypeFqn)>) -> bool {
    &&& c.len() == p.len()
    &&& forall|i: int| 0 <= i < p.len() ==> is_part(*#[trigger] c[i], p[i])
}
pub open spec fn describes(e: VesperCommit, s: CommitStep) -> bool {
    &&& e.subject == step_type(s).name.idt() && e.predicate == step_kind(s)
    &&& e.attributes.c@ == step_attrs(s) && are_parts(e.content.c@, step_parts(s)) && e.comment is None
}
pub open spec fn describes_all(c: Seq<Box<VesperCommit>>, s: Seq<CommitStep>) -> bool {
    &&& c.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> describes(*#[trigger] c[i], s[i])
}
/// two layouts with one description commit to items of the same kinds, types and bounds in the same order
proof fn description_unique(c: Seq<Box<VesperCommit>>, s: Seq<CommitStep>, t: Seq<CommitStep>)
    requires describes_all(c, s), describes_all(c, t)
    ensures s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> step_type(#[trigger] s[i]).name == step_type(t[i]).name && step_kind(s[i]) == step_kind(t[i]) && step_attrs(s[i]) == step_attrs(t[i]) // @C22
{
    assert forall|i: int| 0 <= i < s.len() implies step_type(#[trigger] s[i]).name == step_type(t[i]).name && step_kind(s[i]) == step_kind(t[i]) && step_attrs(s[i]) == step_attrs(t[i]) by {
        assert(describes(*c[i], s[i]) && describes(*c[i], t[i]));
    }
}

impl CommitStep {
//% fn commit_verify/src/vesper.rs CommitStep::subject
//% props C22
//% ret r
//% spec
        ensures r == step_type(*self).name.idt(),
//% end
//% fn commit_verify/src/vesper.rs CommitStep::predicate
//% props C22
//% ret r
//% spec
        ensures r == step_kind(*self),
//% end
//% fn commit_verify/src/vesper.rs CommitStep::attributes
//% props C22
//% ret r
//% spec
        ensures r.c@ =~= step_attrs(*self),
//% end
//% fn commit_verify/src/vesper.rs CommitStep::content
//% props C22
//% ret r
//% spec
        ensures are_parts(r.c@, step_parts(*self)),
//% end
}
impl CommitLayout {
//% fn @expanded CommitLayout::idty
//% props C22 C09
//% ret r
//% spec
        ensures *r == self.idty,
//% end
//% fn @expanded CommitLayout::tag
//% props C22 C09
//% ret r
//% spec
        ensures r == self.tag,
//% end
//% fn @expanded CommitLayout::fields
//% props C22 C09
//% ret r
//% spec
        ensures *r == self.fields,
//% end
//% fn commit_verify/src/vesper.rs CommitLayout::to_vesper
//% props C22
//% ret r
//% spec
        requires self.fields.wfc(),
        ensures r.subject == self.idty.name.idt(), r.predicate is Commitment, r.comment is None,
            r.attributes.c@ =~= seq![Attr::Hasher, Attr::Tagged(self.tag)],
            describes_all(r.content.c@, self.fields.c@),
//% loop 1 pipe inv
        invariant it1.seq() == self.fields.c@.map_values(|x: CommitStep| &x), describes_all(__acc1@, self.fields.c@.take(it1.index@ as int)), // @C22
//% loop 1 pipe start
        let ghost done = __acc1@;
//% loop 1 pipe end
        assert(self.fields.c@.take(it1.index@ + 1) =~= self.fields.c@.take(it1.index@ as int).push(self.fields.c@[it1.index@ as int]));
        assert(__acc1@.drop_last() =~= done);
//% end
}
// ------------------------------------------------- the text of a layout
// std (assumed): what was written so far; a value's text is what its `fmt` adds
pub struct Formatter { pub text: Ghost<Seq<char>> }
pub struct FmtError;
pub trait Display {
    spec fn shown_ok(&self) -> bool;
    /// what was written becomes that
    spec fn shown(&self, before: Seq<char>, after: Seq<char>) -> bool;
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) requires self.shown_ok()
        ensures r is Ok ==> self.shown(old(f).text@, final(f).text@);
}
// vesper (assumed): an expression has a text
pub uninterp spec fn vesper_text(v: VesperCommit) -> Seq<char>;
pub struct TExprDisplay<'a> { pub of: &'a VesperCommit }
impl VesperCommit { pub fn display(&self) -> (r: TExprDisplay) ensures *r.of == *self { TExprDisplay { of: self } } }
impl Display for TExprDisplay<'_> {
    open spec fn shown_ok(&self) -> bool { true }
    open spec fn shown(&self, before: Seq<char>, after: Seq<char>) -> bool { after == before + vesper_text(*self.of) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() }
}
pub open spec fn describes_layout(v: VesperCommit, l: CommitLayout) -> bool {
    v.subject == l.idty.name.idt() && v.predicate is Commitment && v.comment is None && v.attributes.c@ =~= seq![Attr::Hasher, Attr::Tagged(l.tag)] && describes_all(v.content.c@, l.fields.c@)
}
impl Display for CommitLayout {
    open spec fn shown_ok(&self) -> bool { self.fields.wfc() }
    open spec fn shown(&self, before: Seq<char>, after: Seq<char>) -> bool { exists|v: VesperCommit| describes_layout(v, *self) && after == before + #[trigger] vesper_text(v) } // @C22
//% fn commit_verify/src/id.rs <CommitLayout as Display>::fmt
//% props C22
//% ret r
//% sub Formatter<'_> => Formatter
//% sub fmt::Result => Result<(), FmtError>
//% end
}
impl Attr {
//% fn commit_verify/src/vesper.rs <Attr as Attribute>::name
//% props C22
//% ret r
//% spec
        ensures r == Some(ident_of(match *self { Attr::Tagged(_) => "tagged"@, Attr::Concealed(_) => "concealed"@, Attr::LenRange(_) => "len"@, Attr::Hasher => "hasher"@ })),
//% end
//% fn commit_verify/src/vesper.rs <Attr as Attribute>::value
//% props C22
//% ret r
//% sub AttrVal<Self::Expression> => AttrVal
//% spec
        ensures r == match *self { Attr::Tagged(t) => AttrVal::Expr(AttrExpr::Tag(t)), Attr::Concealed(t) => AttrVal::Ident(t.name.idt()), Attr::LenRange(l) => AttrVal::Expr(AttrExpr::LenRange(l)), Attr::Hasher => AttrVal::Ident(ident_of("SHA256"@)) },
//% end
}
}
