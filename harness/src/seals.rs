//! C14 and C15 with table-driven seals, witnesses, data and resolvers which record how they are asked.
use std::cell::RefCell;
use std::convert::Infallible;
use std::error::Error;
use std::fmt;

use client_side_validation::*;
use single_use_seals::*;
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};

use crate::check;
use crate::util::*;

const LIB: &str = "HarnessLib";
thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }
fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)); }

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Er(u32);
impl fmt::Display for Er { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "error {}", self.0) } }
impl Error for Er {}

/// a seal is included when message & mask == want and the witness admits it
#[derive(Clone, Debug, PartialEq, Eq, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Seal { id: u32, mask: u32, want: u32 }
impl fmt::Display for Seal { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "seal {}", self.id) } }
#[derive(Clone, Debug, PartialEq, Eq)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Pub { id: u32, expect: u32 }
#[derive(Clone, Debug, PartialEq, Eq)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Cli { key: u32, fails: u8 }
impl SingleUseSeal for Seal {
    type Message = u32;
    type PubWitness = Pub;
    type CliWitness = Cli;
    fn is_included(&self, m: u32, w: &SealWitness<Self>) -> bool {
        log(format!("is_included {} {m} {} {}", self.id, w.published.id, w.client.key));
        m & self.mask == self.want
    }
}
impl ClientSideWitness for Cli {
    type Seal = Seal;
    type Proof = u64;
    type Error = Er;
    fn convolve_commit(&self, m: u32) -> Result<u64, Er> {
        log(format!("convolve {} {m}", self.key));
        if self.fails == 1 { Err(Er(m)) } else { Ok(m as u64 * 1000 + self.key as u64) }
    }
    fn merge(&mut self, _: Self) -> Result<(), impl Error> where Self: Sized { Ok::<_, Infallible>(()) }
}
impl PublishedWitness<Seal> for Pub {
    type PubId = u32;
    type Error = Er;
    fn pub_id(&self) -> u32 { self.id }
    fn verify_commitment(&self, p: u64) -> Result<(), Er> {
        log(format!("verify {} {p}", self.id));
        if p == self.expect as u64 { Ok(()) } else { Err(Er(p as u32)) }
    }
}
fn show<S: SingleUseSeal>(e: &Result<(), SealError<S>>) -> String where <S::PubWitness as PublishedWitness<S>>::Error: fmt::Debug, <S::CliWitness as ClientSideWitness>::Error: fmt::Debug {
    match e {
        Ok(()) => "Ok".into(),
        Err(SealError::NotIncluded(s, id)) => format!("NotIncluded({s:?}, {id})"),
        Err(SealError::Client(e)) => format!("Client({e:?})"),
        Err(SealError::Published(e)) => format!("Published({e:?})"),
    }
}
pub fn c14(c: &mut Ctx) -> R {
    for i in 0..c.n(8000, 80000) {
        c.cases += 1;
        let m = c.rng.below(8) as u32;
        let n = if i % 5 == 0 { 1 } else { c.rng.below(6) };
        let bad = c.rng.below(3);
        let seals: Vec<Seal> = (0..n).map(|k| { let mask = c.rng.below(8) as u32; let want = if bad == 0 || c.rng.below(3) > 0 { m & mask } else { c.rng.below(8) as u32 }; Seal { id: if c.rng.below(4) == 0 { 3 } else { k as u32 }, mask, want } }).collect();
        let key = c.rng.below(5) as u32;
        let fails = (c.rng.below(4) == 0) as u8;
        let expect = if c.rng.below(3) > 0 { m * 1000 + key } else { c.rng.below(8000) as u32 };
        let w = SealWitness::<Seal>::new(Pub { id: 40 + i as u32 % 9, expect }, Cli { key, fails });
        let d = || format!("message {m}, seals {seals:?}, published {:?}, client {:?}", w.published, w.client);
        LOG.with(|l| l.borrow_mut().clear());
        let got = run(&d, "verify_seals_closing", || if i % 2 == 0 { w.verify_seals_closing(&seals, m) } else { w.verify_seals_closing(seals.clone(), m) })?;
        let want = if let Some(s) = seals.iter().find(|s| m & s.mask != s.want) { format!("NotIncluded({s:?}, {})", w.published.id) }
            else if fails == 1 { format!("Client({:?})", Er(m)) }
            else if m * 1000 + key != expect { format!("Published({:?})", Er(m * 1000 + key)) }
            else { "Ok".into() };
        check!(show(&got) == want, d(), "verification gives {} instead of {want}", show(&got));
        if let Err(e) = &got {
            // the text and the cause of the error are those of the check that failed
            let (text, cause) = match e {
                SealError::NotIncluded(s, id) => (format!("seal {s} is not included in the witness {id}"), None),
                SealError::Published(e) | SealError::Client(e) => (e.to_string(), Some(e.to_string())),
            };
            let got = run(&d, "error text", || (e.to_string(), Error::source(e).map(|c| c.to_string())))?;
            check!(got.0 == text, d(), "error reads {:?} instead of {text:?}", got.0);
            check!(got.1 == cause, d(), "the cause of the error is {:?} instead of {cause:?}", got.1);
        }
        if n == 1 {
            let one = run(&d, "verify_seal_closing", || w.verify_seal_closing(&seals[0], m))?;
            check!(show(&one) == want, d(), "verification of one seal gives {} instead of {want}", show(&one));
            let one = run(&d, "verify_seal_closing", || w.verify_seal_closing(seals[0].clone(), m))?;
            check!(show(&one) == want, d(), "verification of one seal gives {} instead of {want}", show(&one));
        }
    }
    // many seals, one of which may not be included
    for i in 0..c.n(200, 2000) {
        c.cases += 1;
        let n = [255usize, 256, 257, 1024, 4096, 32768, 65535, 65536, 65537, 70000][if i % 8 == 0 { i as usize / 16 % 10 } else { c.rng.below(5) as usize }];
        let at = [0, 1, 127, 128, 254, 255, 256, 511, n - 2, n - 1, n, c.rng.below(n as u64) as usize][if i % 16 == 0 { 9 } else { c.rng.below(12) as usize }];
        let m = c.rng.below(8) as u32;
        let seals: Vec<Seal> = (0..n).map(|k| Seal { id: k as u32, mask: 7, want: if k == at { m ^ 1 } else { m } }).collect();
        let fails = (c.rng.below(4) == 0) as u8;
        let w = SealWitness::<Seal>::new(Pub { id: 40, expect: m * 1000 + 1 + c.rng.below(2) as u32 }, Cli { key: 1, fails });
        let d = || format!("message {m}, {n} seals all of which but the one number {at} are included, published {:?}, client {:?}", w.published, w.client);
        LOG.with(|l| l.borrow_mut().clear());
        let got = run(&d, "verify_seals_closing", || w.verify_seals_closing(&seals, m))?;
        let want = if at < n { format!("NotIncluded({:?}, 40)", seals[at]) } else if fails == 1 { format!("Client({:?})", Er(m)) } else if w.published.expect != m * 1000 + 1 { format!("Published({:?})", Er(m * 1000 + 1)) } else { "Ok".into() };
        check!(show(&got) == want, d(), "verification gives {} instead of {want}", show(&got));
    }
    // NoWitness passes the message on
    for m in 0..64u32 {
        c.cases += 1;
        let r = NoWitness::<Seal>::default().convolve_commit(m);
        check!(matches!(r, Ok(x) if x == m), format!("message {m}"), "NoWitness convolves to {r:?}");
        check!(NoWitness::<Seal>::default() == NoWitness::default(), "", "NoWitness differs from itself");
        check!(NoWitness::<Seal>::default().merge(NoWitness::default()).is_ok(), "", "NoWitness does not merge with itself");
    }
    Ok(())
}

// ---------------------------------------------------------------- C15
macro_rules! log_type { ($n:ident) => {
    #[derive(Clone, PartialEq, Eq, Hash, Debug)]
    pub struct $n(u32);
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
    impl Error for $n {}
    impl ValidationLog for $n {}
} }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Issue(u32, u32);
impl fmt::Display for Issue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl Error for Issue {}
impl ValidationLog for Issue {}
log_type!(Flr);
log_type!(Wrn);
log_type!(Inf);
impl SealIssue for Issue { type Seal = u32; fn seal(&self) -> &u32 { &self.0 } }
impl ValidationFailure for Flr {}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Rep;
impl ValidationReport for Rep { type SealIssue = Issue; type Failure = Flr; type Warning = Wrn; type Info = Inf; }
#[derive(Clone, Debug, Default)]
pub struct Item { id: u32, seals: Vec<u32>, report: [Vec<u32>; 4] }
fn status(r: &[Vec<u32>; 4]) -> Status<Rep> {
    Status { seal_issues: r[0].iter().map(|x| Issue(*x, 0)).collect(), failures: r[1].iter().map(|x| Flr(*x)).collect(), warnings: r[2].iter().map(|x| Wrn(*x)).collect(), info: r[3].iter().map(|x| Inf(*x)).collect() }
}
impl<'a> ClientData<'a> for Item {
    type ValidationReport = Rep;
    type SealIterator = std::slice::Iter<'a, u32>;
    fn single_use_seals(&'a self) -> Self::SealIterator { self.seals.iter() }
    fn validate_internal_consistency(&'a self) -> Status<Rep> { log(format!("check {}", self.id)); status(&self.report) }
}
#[derive(Clone, Debug, Default)]
pub struct Data { top: Item, items: Vec<Item> }
impl<'a> ClientData<'a> for Data {
    type ValidationReport = Rep;
    type SealIterator = std::slice::Iter<'a, u32>;
    fn single_use_seals(&'a self) -> Self::SealIterator { self.top.seals.iter() }
    fn validate_internal_consistency(&'a self) -> Status<Rep> { log(format!("check {}", self.top.id)); status(&self.top.report) }
}
impl<'a> ClientSideValidate<'a> for Data {
    type ValidationItem = Item;
    type ValidationIter = std::slice::Iter<'a, Item>;
    fn validation_iter(&'a self) -> Self::ValidationIter { self.items.iter() }
}
/// answers depend on the history of questions
struct Res { asked: Vec<u32>, bad: u32, number: bool }
impl SealResolver<u32> for Res {
    type Error = Issue;
    fn resolve_trust(&mut self, s: &u32) -> Result<(), Issue> {
        self.asked.push(*s);
        let k = self.asked.len() as u32;
        if (s + k) % self.bad == 0 { Err(self.issue(*s, k)) } else { Ok(()) }
    }
}
impl Res {
    /// an issue bears the number of its question, or repeats the one on the same seal
    fn issue(&self, s: u32, k: u32) -> Issue { Issue(s, if self.number { k } else { 0 }) }
}
fn verdict(s: &Status<Rep>) -> Validity { if !s.failures.is_empty() { Validity::Invalid } else if !s.seal_issues.is_empty() { Validity::SealIssues } else { Validity::Valid } }
pub fn c15(c: &mut Ctx) -> R {
    for i in 0..c.n(6000, 60000) {
        c.cases += 1;
        let style = c.rng.below(4);
        let gen = |c: &mut Ctx, id: u32| Item {
            id,
            seals: (0..c.rng.below(5)).map(|_| c.rng.below(6) as u32).collect(),
            report: [0u64, 1, 2, 3].map(|k| if style == 0 || (style == 1 && k < 2) || (style == 2 && k == 1) { vec![] } else { (0..c.rng.below(4)).map(|_| c.rng.below(9) as u32).collect() }),
        };
        let top = gen(c, 1000);
        let items: Vec<Item> = (0..c.rng.below(5)).map(|k| gen(c, k as u32)).collect();
        let data = Data { top, items };
        let bad = if style == 0 && i % 3 == 0 { 1000 } else { 1 + c.rng.below(4) as u32 };
        let d = || format!("data {data:?}, resolver refuses every {bad}th sum");
        let mut res = Res { asked: vec![], bad, number: c.rng.below(2) == 0 };
        LOG.with(|l| l.borrow_mut().clear());
        let got = run(&d, "client_side_validate", || validate(&data, &mut res))?;
        let mut want = status(&data.top.report);
        let mut asked = vec![];
        for it in &data.items {
            for s in &it.seals { asked.push(*s); let k = asked.len() as u32; if (s + k) % bad == 0 { want.seal_issues.push(res.issue(*s, k)); } }
            let st = status(&it.report);
            want.seal_issues.extend(st.seal_issues); want.failures.extend(st.failures); want.warnings.extend(st.warnings); want.info.extend(st.info);
        }
        check!(res.asked == asked, d(), "the resolver was asked {:?} instead of {asked:?}", res.asked);
        check!(got == want, d(), "report is {got:?} instead of {want:?}");
        check!(got.validity() == verdict(&want), d(), "verdict is {:?} for {want:?}", got.validity());
        // merging, building
        let (a, b) = (status(&data.top.report), want.clone());
        let mut x = a.clone();
        x += b.clone();
        let cat = Status::<Rep> { seal_issues: [a.seal_issues.clone(), b.seal_issues.clone()].concat(), failures: [a.failures.clone(), b.failures.clone()].concat(), warnings: [a.warnings.clone(), b.warnings.clone()].concat(), info: [a.info.clone(), b.info.clone()].concat() };
        check!(x == cat, format!("{a:?} += {b:?}"), "merged report is {x:?}");
        check!(x.validity() == verdict(&x), format!("{x:?}"), "verdict {:?}", x.validity());
        let mut y = Status::<Rep>::new();
        check!(y.validity() == Validity::Valid && y.seal_issues.is_empty() && y.failures.is_empty() && y.warnings.is_empty() && y.info.is_empty(), "new report", "not empty or not valid");
        for v in &cat.seal_issues { y.add_seal_issue(v.clone()); }
        for v in &cat.failures { y.add_failure(v.clone()); }
        for v in &cat.warnings { y.add_warning(v.clone()); }
        for v in &cat.info { y.add_info(v.clone()); }
        check!(y == cat, format!("{cat:?}"), "report built entry by entry is {y:?}");
        let z: Status<Rep> = cat.failures.iter().cloned().collect();
        check!(z.failures == cat.failures && z.seal_issues.is_empty() && z.warnings.is_empty() && z.info.is_empty(), format!("{:?}", cat.failures), "report collected from failures is {z:?}");
        if let Some(f) = cat.failures.first() { let z = Status::<Rep>::from_failure(f.clone()); check!(z.failures == vec![f.clone()] && z.seal_issues.is_empty() && z.warnings.is_empty() && z.info.is_empty(), format!("{f:?}"), "report of one failure is {z:?}"); }
    }
    // long lists
    let sizes = [0usize, 1, 2, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 32768, 65535, 65536, 70000];
    let mut small = sizes.len() - 7;
    if c.deep { small = sizes.len() }
    for i in 0..c.n(1200, 3000) {
        c.cases += 1;
        // one or two of the lists are long, the others short
        let pick = |c: &mut Ctx, long: bool| if long { sizes[if i % 20 == 0 { c.rng.below(sizes.len() as u64) as usize } else { c.rng.below(small as u64) as usize }] + c.rng.below(2) as usize } else { c.rng.below(3) as usize };
        let which = 1 + c.rng.below(15);
        let same = c.rng.below(3) == 0;
        let mk = |c: &mut Ctx| { let n = [0, 1, 2, 3].map(|k| { let l = which >> k & 1 == 1; pick(c, l) }); (n, n.map(|n| (0..n).map(|x| if same { 7 } else { x as u32 }).collect::<Vec<u32>>())) };
        let ((na, a), (nb, b)) = (mk(c), mk(c));
        let d = || format!("a report of {na:?} entries (seal issues, failures, warnings, info) merged with one of {nb:?}, entries {}", if same { "all alike" } else { "numbered" });
        let cat = [0, 1, 2, 3].map(|k| [&a[k][..], &b[k][..]].concat());
        let want = status(&cat);
        let lens = |s: &Status<Rep>| [s.seal_issues.len(), s.failures.len(), s.warnings.len(), s.info.len()];
        let x = run(&d, "+=", || { let mut x = status(&a); x += status(&b); x })?;
        check!(x == want, d(), "the merged report has {:?} entries, or entries of its own", lens(&x));
        check!(x.validity() == verdict(&want), d(), "verdict {:?}", x.validity());
        let y = run(&d, "add", || { let mut y = Status::<Rep>::new(); for v in &want.seal_issues { y.add_seal_issue(v.clone()); } for v in &want.failures { y.add_failure(v.clone()); } for v in &want.warnings { y.add_warning(v.clone()); } for v in &want.info { y.add_info(v.clone()); } y })?;
        check!(y == want, d(), "the report built entry by entry has {:?} entries, or entries of its own", lens(&y));
        let z: Status<Rep> = run(&d, "collect", || want.failures.iter().cloned().collect())?;
        check!(z.failures == want.failures && lens(&z) == [0, want.failures.len(), 0, 0], d(), "the report collected from the failures has {:?} entries, or entries of its own", lens(&z));
        // the same as the validation of two items, one of them with many seals
        let seals: Vec<u32> = (0..pick(c, i % 2 == 0)).map(|x| if same { 7 } else { x as u32 }).collect();
        let more = if i % 4 == 1 { pick(c, true) } else { 0 };
        let mut items = vec![Item { id: 1, seals: seals.clone(), report: b.clone() }];
        items.extend((0..more).map(|k| Item { id: k as u32 + 2, seals: if k % 3 == 0 { vec![7] } else { vec![] }, report: if k % 5 == 0 { [vec![], vec![k as u32], vec![1, 1], vec![k as u32]] } else { Default::default() } }));
        let data = Data { top: Item { id: 1000, seals: vec![1, 2], report: a.clone() }, items };
        let bad = [1, 1, 2, 1000][c.rng.below(4) as usize];
        let d = || format!("{}; then {} seals in the first item and {more} further items; every {bad}th sum refused", d(), seals.len());
        let mut res = Res { asked: vec![], bad, number: i % 3 == 0 };
        let got = run(&d, "client_side_validate", || validate(&data, &mut res))?;
        let (mut want, mut k) = (status(&a), 0);
        for it in &data.items {
            for s in &it.seals { k += 1; if (s + k) % bad == 0 { want.seal_issues.push(res.issue(*s, k)); } }
            let st = status(&it.report);
            want.seal_issues.extend(st.seal_issues); want.failures.extend(st.failures); want.warnings.extend(st.warnings); want.info.extend(st.info);
        }
        check!(got == want, d(), "the report has {:?} entries instead of {:?}, or others", lens(&got), lens(&want));
        check!(res.asked.iter().eq(data.items.iter().flat_map(|i| i.seals.iter())), d(), "the resolver was asked {} questions, or others", res.asked.len());
        check!(got.validity() == verdict(&want), d(), "verdict is {:?}", got.validity());
    }
    Ok(())
}
fn validate<'a>(d: &'a Data, r: &'a mut Res) -> Status<Rep> { d.client_side_validate(r) }
