//! Source-to-source rewriting of the extracted function bodies into the subset the verifier reads.
//! Every rule is a standard-library identity (documented in DESIGN.md, "extraction rules"); the
//! names of the rules used in a function are reported.
use std::collections::BTreeSet;

use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx {
    pub rules: BTreeSet<&'static str>,
    pub errors: Vec<String>,
    pub fresh: std::collections::BTreeMap<String, usize>,
    pub tfi_kinds: Vec<String>,
    pub tfi_seen: usize,
    pub overloads: bool,
    pub result_map: bool,
    pub refuse: Option<String>,
}

impl Ctx {
    pub fn new(tfi_kinds: Vec<String>) -> Self {
        Ctx { rules: BTreeSet::new(), errors: vec![], fresh: Default::default(), tfi_kinds, tfi_seen: 0, overloads: false, result_map: false, refuse: None }
    }
    fn fresh(&mut self, base: &str) -> Ident {
        let n = self.fresh.entry(base.to_string()).or_insert(0);
        *n += 1;
        Ident::new(&format!("__{base}{n}"), Span::call_site())
    }
}

fn pe(ts: TokenStream) -> Expr { parse2::<Expr>(ts.clone()).unwrap_or_else(|e| panic!("rewrite produced bad expr: {e}: {ts}")) }
fn ps(ts: TokenStream) -> Stmt {
    let b: Block = parse2(quote!({ #ts })).unwrap_or_else(|e| panic!("bad stmt {e}: {ts}"));
    b.stmts.into_iter().next().unwrap()
}

/// cfg evaluation with all features enabled, not test.
fn cfg_true(meta: &Meta) -> bool {
    fn ev(ts: TokenStream) -> bool {
        let m: Meta = match parse2(ts) { Ok(m) => m, Err(_) => return true };
        match &m {
            Meta::List(l) => {
                let name = l.path.to_token_stream().to_string();
                let parts = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated);
                let parts: Vec<Meta> = parts.map(|p| p.into_iter().collect()).unwrap_or_default();
                let mut vals = parts.into_iter().map(|p| ev(p.to_token_stream()));
                match name.as_str() {
                    "not" => !vals.next().unwrap_or(false),
                    "all" => vals.all(|x| x),
                    "any" => vals.any(|x| x),
                    _ => true,
                }
            }
            Meta::NameValue(nv) => nv.path.is_ident("feature"),
            Meta::Path(p) => !p.is_ident("test") && !p.is_ident("docsrs"),
        }
    }
    match meta {
        Meta::List(l) if l.path.is_ident("cfg") => ev(l.tokens.clone()),
        _ => true,
    }
}
pub fn cfg_on(attrs: &[Attribute]) -> bool { attrs.iter().all(|a| cfg_true(&a.meta)) }

/// R0: drop attributes (after evaluating cfg), local `use` items and doc comments.
pub struct Strip;
impl VisitMut for Strip {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => cfg_on(&l.attrs),
            Stmt::Item(Item::Use(_)) => false,
            Stmt::Item(Item::Struct(_)) | Stmt::Item(Item::Impl(_)) => false,
            Stmt::Item(_) => true,
            Stmt::Expr(e, _) => cfg_on(expr_attrs(e)),
            Stmt::Macro(m) => cfg_on(&m.attrs),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_expr_block_mut(&mut self, b: &mut ExprBlock) {
        b.attrs.clear();
        visit_mut::visit_expr_block_mut(self, b);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.attrs.clear();
        visit_mut::visit_field_value_mut(self, f);
    }
}
fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(b) => &b.attrs,
        Expr::If(b) => &b.attrs,
        Expr::Match(b) => &b.attrs,
        Expr::MethodCall(b) => &b.attrs,
        Expr::Call(b) => &b.attrs,
        Expr::Assign(b) => &b.attrs,
        Expr::Macro(b) => &b.attrs,
        Expr::ForLoop(b) => &b.attrs,
        Expr::While(b) => &b.attrs,
        Expr::Loop(b) => &b.attrs,
        _ => &[],
    }
}

#[derive(Clone)]
enum Stage { Copied, Cloned, Map(Expr), FilterMap(Expr), Filter(Expr), TakeWhile(Expr), Enumerate, Take(Expr) }

struct Pipe { base: Expr, by_ref: bool, stages: Vec<Stage> }

const ITER_SRC: &[&str] = &["iter", "into_iter", "iter_mut", "keys", "values", "into_values", "into_keys", "by_ref",
    "merkle_leaves", "known_protocol_ids", "validation_iter", "single_use_seals", "iter_copied", "rev"];
const ADAPT: &[&str] = &["copied", "cloned", "map", "filter_map", "filter", "take_while", "enumerate", "take"];

fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(p) => strip_paren(&p.expr), _ => e } }

/// true if the expression is recognised as producing an iterator
fn is_iter(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Range(_) => true,
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if ITER_SRC.contains(&n.as_str()) { return true; }
            if ADAPT.contains(&n.as_str()) { return is_iter(&m.receiver); }
            false
        }
        _ => false,
    }
}

fn pipe_of(e: &Expr) -> Pipe {
    match strip_paren(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let arg = m.args.first().cloned();
            if ADAPT.contains(&n.as_str()) && is_iter(&m.receiver) {
                let mut p = pipe_of(&m.receiver);
                p.stages.push(match n.as_str() {
                    "copied" => Stage::Copied,
                    "cloned" => Stage::Cloned,
                    "map" => Stage::Map(arg.unwrap()),
                    "filter_map" => Stage::FilterMap(arg.unwrap()),
                    "filter" => Stage::Filter(arg.unwrap()),
                    "take_while" => Stage::TakeWhile(arg.unwrap()),
                    "enumerate" => Stage::Enumerate,
                    _ => Stage::Take(arg.unwrap()),
                });
                return p;
            }
            if n == "by_ref" {
                return Pipe { base: (*m.receiver).clone(), by_ref: true, stages: vec![] };
            }
            Pipe { base: e.clone(), by_ref: false, stages: vec![] }
        }
        _ => Pipe { base: e.clone(), by_ref: false, stages: vec![] },
    }
}

/// apply a closure or function path to an argument expression, as an expression
fn apply(cx: &mut Ctx, f: &Expr, arg: TokenStream) -> TokenStream {
    match strip_paren(f) {
        Expr::Closure(c) => {
            let body = lift_returns(cx, &c.body);
            match c.inputs.len() {
                0 => quote!(#body),
                1 => {
                    let p = &c.inputs[0];
                    let p = match p { Pat::Type(t) => { let (p, ty) = (&t.pat, &t.ty); quote!(#p: #ty) } p => quote!(#p) };
                    quote!({ let #p = #arg; #body })
                }
                _ => { cx.errors.push("closure with several parameters".into()); quote!(#body) }
            }
        }
        p => {
            let s = p.to_token_stream().to_string().replace(' ', "");
            match s.as_str() {
                "Box::as_ref" => { cx.rules.insert("box-as-ref"); quote!((&**(#arg))) }
                _ => quote!(#p(#arg)),
            }
        }
    }
}

/// The same for an inlined function body; None if a return or `?` remains.
pub fn lift_out(body: &Expr) -> Option<Expr> {
    let mut cx = Ctx::new(vec![]);
    let e = lift_returns(&mut cx, body);
    if cx.errors.is_empty() { Some(e) } else { None }
}

/// R4: in a closure body, turn `if c { ..; return x; } rest` into `if c { ..; x } else { rest }`.
fn lift_returns(cx: &mut Ctx, body: &Expr) -> Expr {
    struct HasRet(bool);
    impl<'a> visit::Visit<'a> for HasRet {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    use visit::Visit;
    let mut h = HasRet(false);
    h.visit_expr(body);
    if !h.0 { return body.clone(); }
    fn lift(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
        let mut out = vec![];
        for (i, s) in stmts.iter().enumerate() {
            match s {
                Stmt::Expr(Expr::Return(r), _) => {
                    let e = r.expr.as_ref()?;
                    out.push(Stmt::Expr((**e).clone(), None));
                    return Some(out);
                }
                Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) => {
                    let th = lift(&f.then_branch.stmts)?;
                    let el = lift(&stmts[i + 1..])?;
                    let c = &f.cond;
                    out.push(Stmt::Expr(pe(quote!(if #c { #(#th)* } else { #(#el)* })), None));
                    return Some(out);
                }
                s => {
                    let mut h = HasRet(false);
                    h.visit_stmt(s);
                    if h.0 { return None; }
                    out.push(s.clone());
                }
            }
        }
        Some(out)
    }
    if let Expr::Block(b) = body {
        if let Some(st) = lift(&b.block.stmts) {
            cx.rules.insert("closure-return");
            return pe(quote!({ #(#st)* }));
        }
    }
    cx.errors.push("unsupported return inside a closure".into());
    body.clone()
}

impl Ctx {
    /// Emit the loop for a pipeline; `consume` receives the item token and returns statements.
    fn emit_loop(&mut self, p: &Pipe, user_for: bool, consume: &mut dyn FnMut(&mut Ctx, TokenStream) -> TokenStream) -> TokenStream {
        self.rules.insert("iterator-pipeline");
        let x = self.fresh("x");
        let mut pre = TokenStream::new();
        // an early `take(n)` needs the counting form
        let need_count = p.stages.iter().any(|s| matches!(s, Stage::Take(_)));
        let mut counters = vec![];
        for s in &p.stages {
            match s {
                Stage::Take(n) => {
                    let c = self.fresh("left");
                    pre.extend(quote!(let mut #c: usize = #n;));
                    counters.push(c);
                }
                Stage::Enumerate => {
                    let c = self.fresh("idx");
                    pre.extend(quote!(let mut #c: usize = 0;));
                    counters.push(c);
                }
                _ => counters.push(format_ident!("__none")),
            }
        }
        fn build(cx: &mut Ctx, st: &[Stage], ct: &[Ident], item: TokenStream, consume: &mut dyn FnMut(&mut Ctx, TokenStream) -> TokenStream) -> TokenStream {
            if st.is_empty() { return consume(cx, item); }
            let y = cx.fresh("x");
            let ctr = &ct[0];
            match &st[0] {
                Stage::Copied => { let rest = build(cx, &st[1..], &ct[1..], quote!(#y), consume); quote!(let #y = *#item; #rest) }
                Stage::Cloned => { let rest = build(cx, &st[1..], &ct[1..], quote!(#y), consume); quote!(let #y = #item.clone(); #rest) }
                Stage::Map(f) => { let v = apply(cx, f, item); let rest = build(cx, &st[1..], &ct[1..], quote!(#y), consume); quote!(let #y = #v; #rest) }
                Stage::FilterMap(f) => { let v = apply(cx, f, item); let rest = build(cx, &st[1..], &ct[1..], quote!(#y), consume);
                    quote!(match #v { Some(#y) => { #rest } None => {} }) }
                Stage::Filter(f) => { let v = apply(cx, f, quote!(&#item)); let rest = build(cx, &st[1..], &ct[1..], item.clone(), consume);
                    quote!(if #v { #rest }) }
                Stage::TakeWhile(f) => { let v = apply(cx, f, quote!(&#item)); let rest = build(cx, &st[1..], &ct[1..], item.clone(), consume);
                    quote!(let #y: bool = #v; if !#y { break; } #rest) }
                Stage::Enumerate => { let rest = build(cx, &st[1..], &ct[1..], quote!(#y), consume);
                    quote!(let #y = (#ctr, #item); #ctr += 1; #rest) }
                Stage::Take(_) => { let rest = build(cx, &st[1..], &ct[1..], item.clone(), consume); quote!(#ctr -= 1; #rest) }
            }
        }
        let body = build(self, &p.stages, &counters, quote!(#x), consume);
        let base = &p.base;
        let attr = if user_for { quote!() } else { quote!(#[pipe]) };
        if need_count || p.by_ref {
            let mut guard = TokenStream::new();
            for (s, c) in p.stages.iter().zip(&counters) {
                if matches!(s, Stage::Take(_)) { guard.extend(quote!(if #c == 0 { break; })); }
            }
            let it = if p.by_ref { quote!(#base) } else {
                let v = self.fresh("src"); pre.extend(quote!(let mut #v = #base;)); quote!(#v) };
            quote!(#pre #attr loop { #guard match #it.next() { None => { break; } Some(#x) => { #body } } })
        } else {
            quote!(#pre #attr for #x in #base { #body })
        }
    }
    fn emit_collect(&mut self, p: &Pipe, kind: &str) -> TokenStream {
        let acc = self.fresh("acc");
        let (ctor, op): (TokenStream, &str) = match kind {
            "set" => (quote!(BTreeSet::new()), "ins"),
            "map" => (quote!(BTreeMap::new()), "mapins"),
            _ => (quote!(Vec::new()), "push"),
        };
        let a = acc.clone();
        let l = self.emit_loop(p, false, &mut |cx, i| match op {
            "ins" => quote!(#a.insert(#i);),
            "mapins" => { let k = cx.fresh("k"); let v = cx.fresh("v"); quote!(let (#k, #v) = #i; #a.insert(#k, #v);) }
            _ => quote!(#a.push(#i);),
        });
        quote!({ let mut #acc = #ctor; #l #acc })
    }
}

fn coll_kind(ty: &str) -> &'static str {
    if ty.contains("BTreeSet") { "set" } else if ty.contains("BTreeMap") || ty.contains("MessageMap") || ty.contains("OrdMap") { "map" } else { "vec" }
}

/// `x.as_ref()` / `x.as_mut()` in scrutinee position of an Option rule: `&x` / `&mut x`
fn opt_ref(e: &Expr) -> Expr {
    if let Expr::MethodCall(m) = strip_paren(e) {
        let r = &m.receiver;
        if m.method == "as_ref" && m.args.is_empty() { return pe(quote!(&#r)); }
        if m.method == "as_mut" && m.args.is_empty() { return pe(quote!(&mut #r)); }
    }
    e.clone()
}

pub struct Desugar<'a> { pub cx: &'a mut Ctx, pub hint: Option<String> }

impl<'a> Desugar<'a> {
    fn assert_like(&mut self, mac: &Macro) -> Option<TokenStream> {
        let name = mac.path.segments.last()?.ident.to_string();
        let args = || mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args()?; let mut c = a.first()?.clone(); self.visit_expr_mut(&mut c);
                let v = self.cx.fresh("c");
                self.cx.rules.insert("assert-obligation");
                if let Some(t) = &self.cx.refuse { self.cx.rules.insert("refusing-assert"); let t: TokenStream = t.parse().ok()?; return Some(quote!({ let #v: bool = #c; if !#v { refuse::<()>(Ghost(#t)); } })); }
                Some(quote!({ let #v: bool = #c; __w_assert!(#v); }))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a = args()?; let (mut x, mut y) = (a.get(0)?.clone(), a.get(1)?.clone());
                self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut y);
                let (v, w) = (self.cx.fresh("l"), self.cx.fresh("r"));
                self.cx.rules.insert("assert-obligation");
                let op = if name.ends_with("eq") { quote!(==) } else { quote!(!=) };
                if let Some(t) = &self.cx.refuse { self.cx.rules.insert("refusing-assert"); let t: TokenStream = t.parse().ok()?; return Some(quote!({ let #v = #x; let #w = #y; if !(#v #op #w) { refuse::<()>(Ghost(#t)); } })); }
                Some(quote!({ let #v = #x; let #w = #y; __w_assert!(#v #op #w); }))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                if let Some(t) = &self.cx.refuse { self.cx.rules.insert("refusing-assert"); let t: TokenStream = t.parse().ok()?; return Some(quote!(refuse(Ghost(#t)))); }
                self.cx.rules.insert("panic-obligation");
                Some(quote!(unreached()))
            }
            "vec" => {
                if mac.tokens.is_empty() { return Some(quote!(Vec::new())); }
                let a = args()?; let v = self.cx.fresh("lit"); let it = a.iter();
                self.cx.rules.insert("vec-macro");
                Some(quote!({ let mut #v = Vec::new(); #(#v.push(#it);)* #v }))
            }
            "empty" | "default" | "none" => { self.cx.rules.insert("amplify-macro"); Some(quote!(Default::default())) }
            "tiny_vec" | "small_vec" | "medium_vec" | "large_vec" | "confined_vec" => {
                // amplify: Confined::try_from(vec![..]).expect(..); the repetition form is not used
                self.cx.rules.insert("amplify-macro");
                if mac.tokens.is_empty() { return Some(quote!(Confined::new())); }
                let a = args()?; let v = self.cx.fresh("lit"); let it = a.iter();
                Some(quote!(Confined::from_checked({ let mut #v = Vec::new(); #(#v.push(#it);)* #v })))
            }
            "ident" => { let a = args()?; let a = a.first()?; self.cx.rules.insert("amplify-macro"); Some(quote!(ident(#a))) }
            "libname" => { let a = args()?; let a = a.first()?; self.cx.rules.insert("amplify-macro"); Some(quote!(libname(#a))) }
            "format" => { self.cx.rules.insert("message-text"); Some(quote!(format_msg())) }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M { fn parse(i: parse::ParseStream) -> Result<Self> {
                    let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                    let _ = i.parse::<Option<Token![,]>>(); Ok(M(e, p, g)) } }
                let M(e, p, g) = parse2(mac.tokens.clone()).ok()?;
                self.cx.rules.insert("matches-macro");
                let g = g.map(|g| quote!(if #g));
                Some(quote!(match #e { #p #g => true, _ => false }))
            }
            "write" | "println" | "eprintln" => None,
            _ => None,
        }
    }
}

impl<'a> VisitMut for Desugar<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(t) = &l.pat { self.hint = Some(t.ty.to_token_stream().to_string()); }
        visit_mut::visit_local_mut(self, l);
        self.hint = None;
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // R5: `let it = <lazy pipeline>;` used exactly once, by value, later in the same block
        let mut i = 0;
        while i < b.stmts.len() {
            let mut repl: Option<(Ident, Expr)> = None;
            let mut mater = false;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if pi.by_ref.is_none() && init.diverge.is_none() && is_iter(&init.expr) {
                        let p = pipe_of(&init.expr);
                        if p.stages.iter().any(|s| matches!(s, Stage::Map(_) | Stage::FilterMap(_) | Stage::Filter(_))) {
                            let name = pi.ident.clone();
                            struct Cnt(Ident, usize, usize);
                            impl<'b> visit::Visit<'b> for Cnt {
                                fn visit_ident(&mut self, i: &'b Ident) { if *i == self.0 { self.1 += 1; } }
                                // a field of that name is another thing, unless it is the shorthand `S { name }`
                                fn visit_member(&mut self, _: &'b Member) {}
                                fn visit_field_value(&mut self, f: &'b FieldValue) { if f.colon_token.is_none() && matches!(&f.member, Member::Named(n) if *n == self.0) { self.1 += 1; } visit::visit_field_value(self, f); }
                                fn visit_expr_path(&mut self, p: &'b ExprPath) { if p.path.is_ident(&self.0) { self.2 += 1; } visit::visit_expr_path(self, p); }
                            }
                            use visit::Visit;
                            let mut c = Cnt(name.clone(), 0, 0);
                            for s in &b.stmts[i + 1..] { c.visit_stmt(s); }
                            if c.1 == 1 && c.2 == 1 { repl = Some((name, (*init.expr).clone())); }
                            else { mater = true; }
                        }
                    }
                }
            }
            if mater {
                if let Stmt::Local(l) = &mut b.stmts[i] {
                    let init = l.init.as_mut().unwrap();
                    let p = pipe_of(&init.expr);
                    let c = self.cx.emit_collect(&p, "vec");
                    *init.expr = pe(quote!((#c).into_iter()));
                    self.cx.rules.insert("materialized-iterator");
                }
            }
            if let Some((name, e)) = repl {
                struct Sub(Ident, Expr);
                impl VisitMut for Sub {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if let Expr::Path(p) = e { if p.path.is_ident(&self.0) { *e = self.1.clone(); return; } }
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
                // only when the use is the argument of a consuming call, not a method on it (by_ref, next, len)
                let mut s = Sub(name, e);
                for st in &mut b.stmts[i + 1..] { s.visit_stmt_mut(st); }
                b.stmts.remove(i);
                self.cx.rules.insert("lazy-let");
                continue;
            }
            i += 1;
        }
        // statement macros
        for s in &mut b.stmts {
            if let Stmt::Macro(m) = s {
                if let Some(ts) = self.assert_like(&m.mac) {
                    let semi = m.semi_token;
                    *s = Stmt::Expr(pe(ts), semi);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let hint = self.hint.take();
        // --- top-down rules needing the un-rewritten shape
        if let Expr::Binary(b) = e {
            if self.cx.overloads && matches!(b.op, BinOp::AddAssign(_)) {
                let (l, r) = (&b.left, &b.right);
                self.cx.rules.insert("overloaded-assign");
                *e = pe(quote!(#l.add_assign(#r)));
            }
        }
        match e {
            Expr::Macro(m) => {
                if let Some(ts) = self.assert_like(&m.mac) { *e = pe(ts); self.visit_expr_mut_children(e); return; }
            }
            Expr::ForLoop(f) => {
                // R1: `for x in &y` / `&mut y`
                if let Expr::Reference(r) = strip_paren(&f.expr) {
                    let inner = &r.expr;
                    self.cx.rules.insert("for-ref");
                    let n = if r.mutability.is_some() { pe(quote!(#inner.iter_mut())) } else { pe(quote!(#inner.iter())) };
                    *f.expr = n;
                }
                let p = pipe_of(&f.expr);
                if !p.stages.is_empty() || p.by_ref {
                    let (pat, body) = (f.pat.clone(), f.body.clone());
                    let ts = self.cx.emit_loop(&p, true, &mut |_, i| { let st = &body.stmts; quote!(let #pat = #i; #(#st)*) });
                    *e = pe(quote!({ #ts }));
                    self.visit_expr_mut_children(e);
                    return;
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    self.cx.rules.insert("while-let");
                    let (pat, ex, body) = (&l.pat, &l.expr, &w.body);
                    *e = pe(quote!(#[whilelet] loop { match #ex { #pat => #body _ => { break; } } }));
                    self.visit_expr_mut_children(e);
                    return;
                }
            }
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let rec_iter = is_iter(&m.receiver);
            let repl: Option<TokenStream> = match name.as_str() {
                "collect" if rec_iter => {
                    let p = pipe_of(&m.receiver);
                    let ty = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).or(hint.clone()).unwrap_or_default();
                    Some(self.cx.emit_collect(&p, coll_kind(&ty)))
                }
                "sum" if rec_iter => {
                    let p = pipe_of(&m.receiver);
                    let ty = m.turbofish.as_ref().and_then(|t| t.args.first().cloned());
                    let s = self.cx.fresh("sum");
                    let s2 = s.clone();
                    let l = self.cx.emit_loop(&p, false, &mut |_, i| quote!(#s2 = #s2 + #i;));
                    let ty = ty.map(|t| quote!(: #t));
                    Some(quote!({ let mut #s #ty = 0; #l #s }))
                }
                "all" | "any" if rec_iter => {
                    let p = pipe_of(&m.receiver);
                    let f = m.args[0].clone();
                    let a = self.cx.fresh(&name);
                    let a2 = a.clone();
                    let all = name == "all";
                    let l = self.cx.emit_loop(&p, false, &mut |cx, i| {
                        let v = apply(cx, &f, i); let c = cx.fresh("c");
                        if all { quote!(let #c: bool = #v; if !#c { #a2 = false; break; }) } else { quote!(let #c: bool = #v; if #c { #a2 = true; break; }) }
                    });
                    let init = all;
                    Some(quote!({ let mut #a = #init; #l #a }))
                }
                "extend" if self.cx.overloads && pipe_of(&m.args[0]).stages.is_empty() && !pipe_of(&m.args[0]).by_ref => {
                    let (arg, recv) = (&m.args[0], &m.receiver);
                    self.cx.rules.insert("extend-std");
                    Some(quote!(std_extend(&mut #recv, #arg)))
                }
                "extend" => {
                    let arg = m.args[0].clone();
                    let recv = (*m.receiver).clone();
                    let p = pipe_of(&arg);
                    let l = self.cx.emit_loop(&p, false, &mut |_, i| quote!(#recv.push(#i);));
                    Some(quote!({ #l }))
                }
                "copied" if rec_iter => {
                    // an iterator value that is kept: X.iter().copied()
                    let recv = &m.receiver;
                    if let Expr::MethodCall(mi) = strip_paren(recv) {
                        if mi.method == "iter" { let b = &mi.receiver; self.cx.rules.insert("kept-iterator"); Some(quote!(#b.iter_copied())) } else { None }
                    } else { None }
                }
                "map" if !rec_iter && self.cx.result_map => {
                    let v = self.cx.fresh("v"); let w = self.cx.fresh("e"); let r = &m.receiver; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let a = apply(self.cx, &f, quote!(#v));
                    Some(quote!(match #r { Ok(#v) => Ok(#a), Err(#w) => Err(#w) }))
                }
                "read_tuple" => {
                    if let Expr::Closure(c) = &m.args[0] {
                        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        self.cx.rules.insert("read-tuple");
                        Some(quote!({ let mut #p = #r.tuple_reader(); #b }))
                    } else { None }
                }
                "map" if !rec_iter => {
                    let v = self.cx.fresh("v"); let r = opt_ref(&m.receiver); let r = &r; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let a = apply(self.cx, &f, quote!(#v));
                    Some(quote!(match #r { Some(#v) => Some(#a), None => None }))
                }
                "filter" if !rec_iter => {
                    let v = self.cx.fresh("v"); let r = &m.receiver; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let a = apply(self.cx, &f, quote!(&#v));
                    Some(quote!(match #r { Some(#v) => { if #a { Some(#v) } else { None } } None => None }))
                }
                "is_some_and" | "is_none_or" => {
                    let v = self.cx.fresh("v"); let r = opt_ref(&m.receiver); let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let a = apply(self.cx, &f, quote!(#v));
                    let d = name == "is_none_or";
                    Some(quote!(match #r { Some(#v) => #a, None => #d }))
                }
                "is_ok_and" => {
                    let v = self.cx.fresh("v"); let r = &m.receiver; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let a = apply(self.cx, &f, quote!(#v));
                    Some(quote!(match #r { Ok(#v) => #a, Err(_) => false }))
                }
                "map_or" | "map_or_else" if !rec_iter && m.args.len() == 2 => {
                    let v = self.cx.fresh("v"); let r = opt_ref(&m.receiver); let f = m.args[1].clone(); let d0 = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let a = apply(self.cx, &f, quote!(#v));
                    if name == "map_or" {
                        let d = self.cx.fresh("d");
                        Some(quote!({ let #d = #d0; match #r { Some(#v) => #a, None => #d } }))
                    } else {
                        let d = if let Expr::Closure(c) = strip_paren(&d0) { let b = &c.body; quote!(#b) } else { quote!(#d0()) };
                        Some(quote!(match #r { Some(#v) => #a, None => #d }))
                    }
                }
                "or_else" if !rec_iter => {
                    let v = self.cx.fresh("v"); let r = &m.receiver; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let d = if let Expr::Closure(c) = strip_paren(&f) { if !c.inputs.is_empty() { self.cx.errors.push("or_else on a result".into()); } let b = lift_returns(self.cx, &c.body); quote!(#b) } else { quote!(#f()) };
                    Some(quote!(match #r { Some(#v) => Some(#v), None => #d }))
                }
                "then" if !rec_iter && m.args.len() == 1 => {
                    let r = &m.receiver; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let d = if let Expr::Closure(c) = strip_paren(&f) { let b = lift_returns(self.cx, &c.body); quote!(#b) } else { quote!(#f()) };
                    Some(quote!(if #r { Some(#d) } else { None }))
                }
                "for_each" if rec_iter => {
                    let p = pipe_of(&m.receiver);
                    let f = m.args[0].clone();
                    let l = self.cx.emit_loop(&p, true, &mut |cx, i| { let a = apply(cx, &f, i); quote!(#a;) });
                    Some(quote!({ #l }))
                }
                "count" if rec_iter && m.args.is_empty() => {
                    let p = pipe_of(&m.receiver);
                    let n = self.cx.fresh("count");
                    let n2 = n.clone();
                    let l = self.cx.emit_loop(&p, false, &mut |_, _| quote!(#n2 += 1;));
                    Some(quote!({ let mut #n: usize = 0; #l #n }))
                }
                "find" if rec_iter => {
                    let p = pipe_of(&m.receiver);
                    let f = m.args[0].clone();
                    let a = self.cx.fresh("found");
                    let a2 = a.clone();
                    let l = self.cx.emit_loop(&p, false, &mut |cx, i| { let v = apply(cx, &f, quote!(&#i)); quote!(if #v { #a2 = Some(#i); break; }) });
                    Some(quote!({ let mut #a = None; #l #a }))
                }
                "position" if rec_iter => {
                    let p = pipe_of(&m.receiver);
                    let f = m.args[0].clone();
                    let (a, n) = (self.cx.fresh("found"), self.cx.fresh("at"));
                    let (a2, n2) = (a.clone(), n.clone());
                    let l = self.cx.emit_loop(&p, false, &mut |cx, i| { let v = apply(cx, &f, i); quote!(if #v { #a2 = Some(#n2); break; } #n2 += 1;) });
                    Some(quote!({ let mut #a = None; let mut #n: usize = 0; #l #a }))
                }
                "fold" if rec_iter => {
                    let p = pipe_of(&m.receiver);
                    let (init, f) = (m.args[0].clone(), m.args[1].clone());
                    let a = self.cx.fresh("fold");
                    let a2 = a.clone();
                    let mut bad = false;
                    let l = self.cx.emit_loop(&p, false, &mut |cx, i| match strip_paren(&f) {
                        Expr::Closure(c) if c.inputs.len() == 2 => { let (x, y) = (&c.inputs[0], &c.inputs[1]); let b = lift_returns(cx, &c.body); quote!(#a2 = { let (#x, #y) = (#a2, #i); #b };) }
                        Expr::Closure(_) => { bad = true; quote!() }
                        g => quote!(#a2 = #g(#a2, #i);),
                    });
                    if bad { self.cx.errors.push("fold closure".into()); }
                    Some(quote!({ let mut #a = #init; #l #a }))
                }
                "and_then" if !rec_iter => {
                    let v = self.cx.fresh("v"); let r = &m.receiver; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let a = apply(self.cx, &f, quote!(#v));
                    Some(quote!(match #r { Some(#v) => #a, None => None }))
                }
                "unwrap_or_else" => {
                    let v = self.cx.fresh("v"); let r = &m.receiver; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    if let Expr::Closure(c) = &f { if c.inputs.len() == 1 { let a = apply(self.cx, &f, quote!(__e)); Some(quote!(match #r { Ok(#v) => #v, Err(__e) => #a })) }
                        else { let a = apply(self.cx, &f, quote!(())); Some(quote!(match #r { Some(#v) => #v, None => #a })) } }
                    else { Some(quote!(match #r { Some(#v) => #v, None => #f() })) }
                }
                "ok_or_else" => {
                    let v = self.cx.fresh("v"); let r = &m.receiver; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let a = apply(self.cx, &f, quote!(()));
                    Some(quote!(match #r { Some(#v) => Ok(#v), None => Err(#a) }))
                }
                "map_err" => {
                    let v = self.cx.fresh("v"); let w = self.cx.fresh("e"); let r = &m.receiver; let f = m.args[0].clone();
                    self.cx.rules.insert("option-closure");
                    let a = apply(self.cx, &f, quote!(#w));
                    Some(quote!(match #r { Ok(#v) => Ok(#v), Err(#w) => Err(#a) }))
                }
                "then_some" => {
                    let v = self.cx.fresh("v"); let r = &m.receiver; let a = &m.args[0];
                    self.cx.rules.insert("option-closure");
                    Some(quote!({ let #v = #a; if #r { Some(#v) } else { None } }))
                }
                "to_le_bytes" => {
                    let r = &m.receiver;
                    self.cx.rules.insert("renamed-std");
                    Some(quote!(#r.to_le_bytes_()))
                }
                "map_or" | "map_or_else" | "for_each" | "fold" | "try_for_each" | "try_fold" => {
                    self.cx.errors.push(format!("method `{name}` has no extraction rule"));
                    None
                }
                _ => None,
            };
            if let Some(ts) = repl { *e = pe(ts); self.visit_expr_mut_children(e); return; }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f.ends_with("::from_iter_checked") && c.args.len() == 1 {
                let col = self.cx.emit_collect(&pipe_of(&c.args[0]), "vec");
                let ty: TokenStream = f.trim_end_matches("::from_iter_checked").parse().unwrap();
                self.cx.rules.insert("try-from-iter");
                *e = pe(quote!(#ty::from_checked(#col)));
                self.visit_expr_mut_children(e);
                return;
            }
            if f.ends_with("::try_from_iter") && c.args.len() == 1 {
                let p = pipe_of(&c.args[0]);
                let k = self.cx.tfi_kinds.get(self.cx.tfi_seen).cloned().unwrap_or_else(|| "vec".into());
                self.cx.tfi_seen += 1;
                let col = self.cx.emit_collect(&p, &k);
                let ty: TokenStream = f.trim_end_matches("::try_from_iter").parse().unwrap();
                self.cx.rules.insert("try-from-iter");
                *e = pe(quote!(#ty::try_from(#col)));
                self.visit_expr_mut_children(e);
                return;
            }
        }
        if let Expr::Match(m) = e {
            // a guard is tried for each matching alternative: one arm per alternative is the same
            m.arms = std::mem::take(&mut m.arms).into_iter().flat_map(|a| match &a.pat {
                Pat::Or(o) if a.guard.is_some() => { self.cx.rules.insert("guarded-or"); o.cases.iter().map(|p| { let mut b = a.clone(); b.pat = p.clone(); b.comma.get_or_insert_with(Default::default); b }).collect() }
                _ => vec![a],
            }).collect();
            // R10: a guarded arm binding through `&mut` scrutinee variable
            let guarded = m.arms.iter().any(|a| a.guard.is_some());
            if guarded {
                if let Expr::Path(p) = &*m.expr {
                    if p.path.is_ident("node") && m.arms.iter().any(|a| a.body.to_token_stream().to_string().contains("* node =")) {
                        self.cx.rules.insert("guarded-mut-match");
                        let s = &m.expr;
                        *m.expr = pe(quote!(*#s));
                        struct Refs;
                        impl VisitMut for Refs {
                            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.by_ref.is_none() && p.subpat.is_none() { p.by_ref = Some(Default::default()); } }
                            fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
                                if f.colon_token.is_none() { /* shorthand */ if let Pat::Ident(p) = &mut *f.pat { p.by_ref = Some(Default::default()); } }
                                else { visit_mut::visit_field_pat_mut(self, f) }
                            }
                        }
                        for a in &mut m.arms { if a.guard.is_some() { Refs.visit_pat_mut(&mut a.pat); } }
                    }
                }
            }
        }
        self.visit_expr_mut_children(e);
    }
}

impl<'a> Desugar<'a> {
    fn visit_expr_mut_children(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); }
}

/// Turns a function whose tail is a lazy pipeline returned as `impl Iterator` into one returning the
/// collected items.
pub fn collect_tail(cx: &mut Ctx, b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        if is_iter(e) {
            let p = pipe_of(e);
            if !p.stages.is_empty() {
                let ts = cx.emit_collect(&p, "vec");
                cx.rules.insert("returned-iterator");
                *e = pe(quote!(#ts));
            }
        }
    }
}
pub fn mk_stmt(ts: TokenStream) -> Stmt { ps(ts) }
