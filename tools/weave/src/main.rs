//! weave: extracts functions, types and constants mechanically from the Rust sources of /repo,
//! attaches the contracts of a template to them and prints a Verus crate.
//!
//! usage: weave --repo DIR --out FILE.rs --map FILE.json [--stub NAME]... TEMPLATE...
mod desugar;
mod print;
mod wire;

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

use desugar::*;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Sub = (Vec<String>, TokenStream);

fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                out.push(o.into());
                flat(g.stream(), out);
                out.push(c.into());
            }
            t => out.push(t.to_string()),
        }
    }
}
fn flat1(t: &TokenTree) -> Vec<String> {
    let mut v = vec![];
    flat(t.clone().into(), &mut v);
    v
}
fn substitute(ts: TokenStream, subs: &[Sub], hits: &mut [bool]) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    'o: while i < v.len() {
        for (k, (pat, rep)) in subs.iter().enumerate() {
            let mut got = vec![];
            let mut j = i;
            while got.len() < pat.len() && j < v.len() {
                got.extend(flat1(&v[j]));
                j += 1;
            }
            if &got == pat {
                hits[k] = true;
                out.extend(rep.clone());
                i = j;
                continue 'o;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), substitute(g.stream(), subs, hits));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
fn parse_sub(s: &str) -> Sub {
    let (a, b) = s.split_once("=>").unwrap_or_else(|| panic!("bad sub: {s}"));
    let mut p = vec![];
    flat(a.parse().unwrap(), &mut p);
    (p, b.parse().unwrap())
}

#[derive(Default)]
struct Spec {
    file: String,
    path: String,
    rename: Option<String>,
    ret: Option<String>,
    props: Vec<String>,
    subs: Vec<Sub>,
    tfi: Vec<String>,
    collect_tail: bool,
    raw: bool,
    overloads: bool,
    result_map: bool,
    refuse: Option<String>,
    wire: bool,
    spec: String,
    ins: Vec<(Vec<String>, String)>,
}

struct Repo {
    root: String,
    expanded: String,
    fixture: String,
    files: BTreeMap<String, std::result::Result<File, String>>,
}
impl Repo {
    fn file(&mut self, f: &str) -> std::result::Result<&File, String> {
        if !self.files.contains_key(f) {
            let p = if f == "@expanded" { self.expanded.clone() } else if f == "@fixture" { self.fixture.clone() } else if f.starts_with('/') { f.to_string() } else { format!("{}/{f}", self.root) };
            let r = std::fs::read_to_string(&p)
                .map_err(|e| format!("{p}: {e}"))
                .and_then(|s| parse_file(&s).map_err(|e| format!("{p}: {e}")));
            self.files.insert(f.into(), r);
        }
        self.files[f].as_ref().map_err(|e| e.clone())
    }
}
fn all_items<'a>(items: &'a [Item], out: &mut Vec<&'a Item>) {
    for i in items {
        if let Item::Mod(m) = i {
            if cfg_on(&m.attrs) && m.ident != "test" && m.ident != "tests" {
                if let Some((_, c)) = &m.content {
                    all_items(c, out);
                }
            }
        } else {
            out.push(i);
        }
    }
}
fn norm(t: impl ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "") }
/// name of a type without its generics, unless `full`
fn ty_name(t: &Type) -> String { norm(t) }

/// Finds the functions matching `path`; returns (signature, body).
fn find_fn(f: &File, path: &str) -> std::result::Result<(Signature, Block), String> {
    let mut items = vec![];
    all_items(&f.items, &mut items);
    let mut found: Vec<(Signature, Block)> = vec![];
    let path = path.replace(' ', "");
    // split at the last "::"
    let (owner, name) = match path.rfind("::") {
        Some(i) => (Some(path[..i].to_string()), path[i + 2..].to_string()),
        None => (None, path.clone()),
    };
    for it in items {
        match it {
            Item::Fn(f) if owner.is_none() && f.sig.ident == name && cfg_on(&f.attrs) => found.push((f.sig.clone(), (*f.block).clone())),
            Item::Trait(t) if cfg_on(&t.attrs) => {
                if owner.as_deref() == Some(&t.ident.to_string()) {
                    for i in &t.items {
                        if let TraitItem::Fn(f) = i {
                            if f.sig.ident == name && cfg_on(&f.attrs) {
                                if let Some(b) = &f.default { found.push((f.sig.clone(), b.clone())); }
                            }
                        }
                    }
                }
            }
            Item::Impl(im) if cfg_on(&im.attrs) => {
                let ty = ty_name(&im.self_ty);
                let o = match &im.trait_ {
                    Some((_, p, _)) => format!("<{}as{}>", ty, norm(p)),
                    None => ty.clone(),
                };
                let matches = match owner.as_deref() {
                    Some(w) => w == o || o_last(&im) == w || (im.trait_.is_none() && w == ty.split('<').next().unwrap()),
                    None => false,
                };
                if matches {
                    for i in &im.items {
                        if let ImplItem::Fn(f) = i {
                            if f.sig.ident == name && cfg_on(&f.attrs) { found.push((f.sig.clone(), f.block.clone())); }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        0 => Err(format!("function `{path}` not found")),
        n => Err(format!("function `{path}` found {n} times")),
    }
}

fn find_item(f: &File, name: &str) -> std::result::Result<Item, String> {
    let mut items = vec![];
    all_items(&f.items, &mut items);
    let mut r = None;
    for it in items {
        let (id, attrs) = match it {
            Item::Struct(s) => (&s.ident, &s.attrs),
            Item::Enum(s) => (&s.ident, &s.attrs),
            Item::Const(s) => (&s.ident, &s.attrs),
            Item::Type(s) => (&s.ident, &s.attrs),
            Item::Trait(s) => (&s.ident, &s.attrs),
            _ => continue,
        };
        if id == name && cfg_on(attrs) { r = Some(it.clone()); }
    }
    r.ok_or_else(|| format!("item `{name}` not found"))
}

fn find_implconst(f: &File, path: &str) -> std::result::Result<ImplItemConst, String> {
    let path = path.replace(' ', "");
    let (owner, name) = path.rsplit_once("::").unwrap();
    let mut items = vec![];
    all_items(&f.items, &mut items);
    for it in items {
        if let Item::Impl(im) = it {
            let o = match &im.trait_ { Some((_, p, _)) => format!("<{}as{}>", norm(&im.self_ty), norm(p)), None => norm(&im.self_ty) };
            if o == owner && cfg_on(&im.attrs) {
                for i in &im.items {
                    if let ImplItem::Const(c) = i { if c.ident == name && cfg_on(&c.attrs) {
                        let mut c = c.clone(); c.attrs.clear(); c.vis = if im.trait_.is_some() { Visibility::Inherited } else { parse_quote!(pub) }; return Ok(c); } }
                }
            }
        }
    }
    Err(format!("constant `{path}` not found"))
}
/// `strict_type` attribute value
fn strict_attr(attrs: &[Attribute], key: &str) -> Option<String> {
    for a in attrs {
        if a.path().is_ident("strict_type") {
            if let Meta::List(l) = &a.meta {
                let v: Vec<String> = { let mut v = vec![]; flat(l.tokens.clone(), &mut v); v };
                for i in 0..v.len() { if v[i] == key && v.get(i + 1).map(|s| s == "=").unwrap_or(false) { return v.get(i + 2).cloned(); } }
            }
        }
    }
    None
}
fn strict_skip(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("strict_type") && { let mut v = vec![]; flat(a.meta.to_token_stream(), &mut v); v.iter().any(|s| s == "skip") })
}
/// the byte layout the StrictEncode derive gives the type, as a spec function
fn strict_spec(it: &Item) -> std::result::Result<String, String> {
    let cat = |v: Vec<String>| if v.is_empty() { "Seq::empty()".to_string() } else { v.join(" + ") };
    match it {
        Item::Struct(s) => {
            let v = s.fields.iter().enumerate().filter(|(_, f)| !strict_skip(&f.attrs)).map(|(i, f)| match &f.ident { Some(n) => format!("self.{n}.sb()"), None => format!("self.{i}.sb()") }).collect();
            let (ig, tg, _) = s.generics.split_for_impl();
            Ok(format!("impl{} SB for {}{} {{ open spec fn sb(&self) -> Seq<u8> {{ {} }} }}", norm(&ig).replace("const", "const "), s.ident, norm(&tg), cat(v)))
        }
        Item::Enum(e) => {
            let tags = strict_attr(&e.attrs, "tags").ok_or("no `tags`")?;
            let mut arms = String::new();
            let mut disc = 0u64;
            for (i, v) in e.variants.iter().enumerate() {
                if let Some((_, d)) = &v.discriminant {
                    let t = d.to_token_stream().to_string();
                    let t = t.trim_end_matches("u8");
                    disc = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|_| "bad discriminant")? } else { t.parse().map_err(|_| "bad discriminant")? };
                }
                let tag = match tags.as_str() {
                    "repr" => disc.to_string(),
                    "order" => i.to_string(),
                    "custom" => strict_attr(&v.attrs, "tag").ok_or("no variant tag")?,
                    t => return Err(format!("unknown tags {t}")),
                };
                disc += 1;
                let (mut pat, mut parts) = (String::new(), vec![format!("seq![{tag}u8]")]);
                match &v.fields {
                    Fields::Named(n) => { let ids: Vec<String> = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                        pat = format!("{{ {} }}", ids.join(", ")); parts.extend(ids.iter().map(|i| format!("{i}.sb()"))); }
                    Fields::Unnamed(u) => { let ids: Vec<String> = (0..u.unnamed.len()).map(|i| format!("f{i}")).collect();
                        pat = format!("({})", ids.join(", ")); parts.extend(ids.iter().map(|i| format!("{i}.sb()"))); }
                    Fields::Unit => {}
                }
                let _ = write!(arms, " {}::{}{} => {},", e.ident, v.ident, pat, cat(parts));
            }
            Ok(format!("impl SB for {} {{ open spec fn sb(&self) -> Seq<u8> {{ match *self {{{arms} }} }} }}", e.ident))
        }
        _ => Err("not a struct or enum".into()),
    }
}

fn o_last(im: &ItemImpl) -> String {
    match &im.trait_ { Some((_, p, _)) => format!("<{}as{}>", norm(&im.self_ty), norm(p.segments.last().unwrap())), None => String::new() }
}
struct StripItem;
impl VisitMut for StripItem {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) { *v = parse_quote!(pub); }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        e.attrs.clear();
        e.vis = parse_quote!(pub);
        for v in &mut e.variants {
            v.attrs.clear();
            for f in &mut v.fields { f.attrs.clear(); f.vis = Visibility::Inherited; }
        }
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        for f in &mut s.fields { f.attrs.clear(); f.vis = parse_quote!(pub); }
    }
}

// ---------------------------------------------------------------- insertion

struct Weaver {
    texts: HashMap<usize, String>,
    next: usize,
    ins: Vec<(Vec<String>, String, bool)>,
    n_loop: usize,
    n_match: usize,
    n_if: usize,
    n_ret: usize,
    calls: BTreeMap<String, usize>,
    lets: BTreeMap<String, usize>,
    errors: Vec<String>,
    before: Vec<Stmt>,
    after: Vec<Stmt>,
}
impl Weaver {
    fn mark(&mut self, text: String) -> Stmt {
        self.next += 1;
        self.texts.insert(self.next, text);
        let n = proc_macro2::Literal::usize_unsuffixed(self.next);
        mk_stmt(quote!(__w_ins!(#n);))
    }
    /// take the text for the anchor, if the contract gives one
    fn take(&mut self, key: &[&str]) -> Option<String> {
        let mut r: Option<String> = None;
        for (k, t, used) in &mut self.ins {
            if k.iter().map(|s| s.as_str()).eq(key.iter().copied()) {
                *used = true;
                match &mut r { None => r = Some(t.clone()), Some(x) => { x.push('\n'); x.push_str(t); } }
            }
        }
        r
    }
}
fn body_start(b: &mut Block, s: Stmt) { b.stmts.insert(0, s); }
fn before_tail(b: &mut Block, s: Stmt) {
    let at = match b.stmts.last() { Some(Stmt::Expr(_, None)) => b.stmts.len() - 1, _ => b.stmts.len() };
    b.stmts.insert(at, s);
}
fn as_block(e: &mut Expr) -> &mut Block {
    if !matches!(e, Expr::Block(b) if b.label.is_none()) {
        let old = e.clone();
        *e = parse_quote!({ #old });
    }
    match e { Expr::Block(b) => &mut b.block, _ => unreachable!() }
}

impl VisitMut for Weaver {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            let (sb, sa) = (std::mem::take(&mut self.before), std::mem::take(&mut self.after));
            let mut name = None;
            if let Stmt::Local(l) = &s {
                struct N(Vec<String>);
                impl<'a> Visit<'a> for N { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); } }
                let mut n = N(vec![]);
                n.visit_pat(&l.pat);
                name = n.0.into_iter().next();
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            let mut bef = std::mem::replace(&mut self.before, sb);
            let mut aft = std::mem::replace(&mut self.after, sa);
            if let Some(n) = name {
                let c = self.lets.entry(n.clone()).or_insert(0);
                *c += 1;
                let k = c.to_string();
                if let Some(t) = self.take(&["let", &n, &k, "before"]) { let m = self.mark(t); bef.insert(0, m); }
                if let Some(t) = self.take(&["let", &n, &k, "after"]) { let m = self.mark(t); aft.push(m); }
            }
            out.extend(bef);
            let tail_semi = !aft.is_empty();
            if tail_semi { if let Stmt::Expr(e, semi @ None) = &mut s { if !matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_)) { *semi = Some(Default::default()); } } }
            out.push(s);
            out.extend(aft);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let attrs = match e { Expr::ForLoop(f) => f.attrs.clone(), Expr::While(f) => f.attrs.clone(), Expr::Loop(f) => f.attrs.clone(), _ => unreachable!() };
                let mut kind = match e { Expr::ForLoop(_) => "for", Expr::While(_) => "while", _ => "loop" }.to_string();
                for a in &attrs {
                    if a.path().is_ident("pipe") { kind = if kind == "for" { "pipe".into() } else { "pipeloop".into() }; }
                    if a.path().is_ident("whilelet") { kind = "whilelet".into(); }
                }
                self.n_loop += 1;
                let k = self.n_loop;
                let ks = k.to_string();
                // every contract insertion for this ordinal must name the same kind
                for (key, _, used) in &mut self.ins {
                    if key[0] == "loop" && key[1] == ks && key[2] != kind {
                        self.errors.push(format!("loop {k} is a `{kind}` loop, contract expects `{}`", key[2]));
                        *used = true;
                    }
                }
                let bef = self.take(&["loop", &ks, &kind, "before"]);
                let aft = self.take(&["loop", &ks, &kind, "after"]);
                let inv = self.take(&["loop", &ks, &kind, "inv"]);
                let st = self.take(&["loop", &ks, &kind, "start"]);
                let en = self.take(&["loop", &ks, &kind, "end"]);
                let en2 = self.take(&["loop", &ks, &kind, "beforetail"]);
                if inv.is_none() { self.errors.push(format!("loop {k} (`{kind}`) has no invariant in the contract")); }
                // children
                match e {
                    Expr::ForLoop(f) => { f.attrs.clear(); visit_mut::visit_expr_mut(self, &mut f.expr); self.visit_block_mut(&mut f.body); }
                    Expr::While(f) => { f.attrs.clear(); visit_mut::visit_expr_mut(self, &mut f.cond); self.visit_block_mut(&mut f.body); }
                    Expr::Loop(f) => { f.attrs.clear(); self.visit_block_mut(&mut f.body); }
                    _ => unreachable!(),
                }
                let (a, b) = (st.map(|t| self.mark(t)), en.map(|t| self.mark(t)));
                let b2 = en2.map(|t| self.mark(t));
                let iv = inv.map(|t| {
                    self.next += 1;
                    self.texts.insert(self.next, t);
                    let n = proc_macro2::Literal::usize_unsuffixed(self.next);
                    mk_stmt(quote!(__w_inv!(#n);))
                });
                if let Expr::ForLoop(f) = e {
                    let it = quote::format_ident!("it{}", k);
                    let ex = &f.expr;
                    *f.expr = Expr::Macro(parse_quote!(__w_it!(#it, #ex)));
                }
                let blk = match e { Expr::ForLoop(f) => &mut f.body, Expr::While(f) => &mut f.body, Expr::Loop(f) => &mut f.body, _ => unreachable!() };
                if let Some(s) = a { blk.stmts.insert(0, s); }
                if let Some(s) = b2 { before_tail(blk, s); }
                if let Some(s) = b {
                    if let Some(Stmt::Expr(x, semi @ None)) = blk.stmts.last_mut() {
                        if !matches!(x, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_)) { *semi = Some(Default::default()); }
                    }
                    blk.stmts.push(s);
                }
                if let Some(s) = iv { blk.stmts.insert(0, s); }
                if let Some(t) = bef { let m = self.mark(t); self.before.push(m); }
                if let Some(t) = aft { let m = self.mark(t); self.after.push(m); }
                return;
            }
            Expr::Match(_) => {
                self.n_match += 1;
                let k = self.n_match.to_string();
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Match(m) = e {
                    for (j, a) in m.arms.iter_mut().enumerate() {
                        let j = (j + 1).to_string();
                        if let Some(t) = self.take(&["match", &k, "arm", &j, "start"]) { let s = self.mark(t); body_start(as_block(&mut a.body), s); }
                        if let Some(t) = self.take(&["match", &k, "arm", &j, "end"]) { let s = self.mark(t); before_tail(as_block(&mut a.body), s); }
                        if let Some(t) = self.take(&["match", &k, "arm", &j, "post"]) {
                            let s = self.mark(t);
                            let b = as_block(&mut a.body);
                            if let Some(Stmt::Expr(x, semi @ None)) = b.stmts.last_mut() {
                                if !matches!(x, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_)) { *semi = Some(Default::default()); }
                            }
                            b.stmts.push(s);
                        }
                    }
                }
                return;
            }
            Expr::If(_) => {
                self.n_if += 1;
                let k = self.n_if.to_string();
                visit_mut::visit_expr_mut(self, e);
                if let Expr::If(f) = e {
                    if let Some(t) = self.take(&["if", &k, "then", "start"]) { let s = self.mark(t); body_start(&mut f.then_branch, s); }
                    if let Some(t) = self.take(&["if", &k, "then", "end"]) { let s = self.mark(t); before_tail(&mut f.then_branch, s); }
                    if let Some((_, el)) = &mut f.else_branch {
                        if let Some(t) = self.take(&["if", &k, "else", "start"]) { let s = self.mark(t); body_start(as_block(el), s); }
                        if let Some(t) = self.take(&["if", &k, "else", "end"]) { let s = self.mark(t); before_tail(as_block(el), s); }
                    } else {
                        let (a, b) = (self.take(&["if", &k, "else", "start"]), self.take(&["if", &k, "else", "end"]));
                        if a.is_some() || b.is_some() {
                            let s = self.mark(a.or(b).unwrap());
                            f.else_branch = Some((Default::default(), Box::new(parse_quote!({ #s }))));
                        }
                    }
                    if let Some(t) = self.take(&["if", &k, "before"]) { let m = self.mark(t); self.before.push(m); }
                    if let Some(t) = self.take(&["if", &k, "after"]) { let m = self.mark(t); self.after.push(m); }
                }
                return;
            }
            Expr::Return(_) => {
                self.n_ret += 1;
                let k = self.n_ret.to_string();
                visit_mut::visit_expr_mut(self, e);
                if let Some(t) = self.take(&["return", &k, "before"]) {
                    let s = self.mark(t);
                    let old = e.clone();
                    *e = parse_quote!({ #s #old });
                }
                return;
            }
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        let nm = match e {
            Expr::MethodCall(m) => Some(m.method.to_string()),
            Expr::Call(c) => match &*c.func { Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()), _ => None },
            Expr::Assign(a) => match &*a.left { Expr::Path(p) => p.path.get_ident().map(|i| format!("={i}")), _ => None },
            Expr::Binary(b) => match (&*b.left, &b.op) {
                (Expr::Path(p), BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)) => p.path.get_ident().map(|i| format!("={i}")),
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = nm {
            let c = self.calls.entry(n.clone()).or_insert(0);
            *c += 1;
            let k = c.to_string();
            if let Some(t) = self.take(&["call", &n, &k, "before"]) { let m = self.mark(t); self.before.push(m); }
            if let Some(t) = self.take(&["call", &n, &k, "after"]) { let m = self.mark(t); self.after.push(m); }
        }
    }
}

struct Out {
    text: String,
    line: usize,
}
impl Out {
    fn push(&mut self, s: &str) {
        self.text.push_str(s);
        if !s.ends_with('\n') { self.text.push('\n'); }
        self.line = self.text.matches('\n').count() + 1;
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<'a>(v: impl IntoIterator<Item = &'a str>) -> String { format!("[{}]", v.into_iter().map(js).collect::<Vec<_>>().join(",")) }

fn render_sig(sig: &Signature, ret: &Option<String>) -> String {
    let mut s = sig.clone();
    let wc = s.generics.where_clause.take();
    let out = std::mem::replace(&mut s.output, ReturnType::Default);
    let mut t = String::new();
    let empty = HashMap::new();
    let mut p = print::Printer::new(&empty, 1);
    p.stream(s.to_token_stream());
    t.push_str(p.finish().trim_end());
    if let ReturnType::Type(_, ty) = out {
        let ty = ty.to_token_stream().to_string();
        match ret { Some(r) => { let _ = write!(t, " -> ({r}: {ty})"); } None => { let _ = write!(t, " -> {ty}"); } }
    }
    if let Some(w) = wc {
        let preds = w.predicates.to_token_stream().to_string();
        let _ = write!(t, "\n    where {},", preds.trim_end().trim_end_matches(','));
    }
    t.push('\n');
    t
}

/// `mut` parameters become a local rebinding
fn rebind_params(sig: &mut Signature, body: &mut Block, cx: &mut Ctx) {
    let mut pre: Vec<Stmt> = vec![];
    for a in &mut sig.inputs {
        match a {
            FnArg::Typed(t) => {
                if let Pat::Ident(p) = &mut *t.pat {
                    if p.mutability.is_some() {
                        p.mutability = None;
                        let id = &p.ident;
                        pre.push(parse_quote!(let mut #id = #id;));
                        cx.rules.insert("mut-parameter");
                    }
                }
            }
            FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    pre.push(parse_quote!(let mut this = self;));
                    struct S;
                    impl VisitMut for S {
                        fn visit_path_mut(&mut self, p: &mut Path) { if p.is_ident("self") { *p = parse_quote!(this); } visit_mut::visit_path_mut(self, p); }
                        fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = substitute(m.tokens.clone(), &[(vec!["self".into()], quote!(this))], &mut [false]); }
                    }
                    S.visit_block_mut(body);
                    cx.rules.insert("mut-parameter");
                }
            }
        }
    }
    for (i, s) in pre.into_iter().enumerate() { body.stmts.insert(i, s); }
}

/// Calls of functions of the same file which are not under contract are replaced by their bodies,
/// and constants without a contract by their values.
struct Inline<'a> { file: &'a File, owner: String, known: &'a HashSet<String>, depth: usize, used: bool }
impl<'a> Inline<'a> {
    fn method(&self, ty: Option<&str>, name: &str) -> Option<(Signature, Block)> {
        if self.known.contains(name) { return None; }
        let mut items = vec![];
        all_items(&self.file.items, &mut items);
        let mut found = vec![];
        for it in items {
            if let Item::Impl(im) = it {
                if im.trait_.is_some() || !cfg_on(&im.attrs) { continue; }
                let t = norm(&im.self_ty);
                if let Some(ty) = ty { if t.split('<').next() != Some(ty) { continue; } }
                for i in &im.items { if let ImplItem::Fn(f) = i { if f.sig.ident == name && cfg_on(&f.attrs) { found.push((f.sig.clone(), f.block.clone())); } } }
            }
        }
        if found.len() == 1 { found.pop() } else { None }
    }
    fn free(&self, name: &str) -> Option<(Signature, Block)> {
        if self.known.contains(name) { return None; }
        let mut items = vec![];
        all_items(&self.file.items, &mut items);
        items.iter().find_map(|it| match it { Item::Fn(f) if f.sig.ident == name && cfg_on(&f.attrs) => Some((f.sig.clone(), (*f.block).clone())), _ => None })
    }
    fn body(&mut self, sig: Signature, mut body: Block, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let mut args = args;
        let (mut pats, mut tys, mut vals): (Vec<Pat>, Vec<Type>, Vec<Expr>) = (vec![], vec![], vec![]);
        let mut typed = sig.generics.params.is_empty();
        let mut ins = sig.inputs.iter();
        if let Some(FnArg::Receiver(r)) = sig.inputs.first() {
            ins.next();
            let rv = match recv { Some(e) => e, None => { if args.is_empty() { return None; } args.remove(0) } };
            if norm(&rv) != "self" {
                if !matches!(rv, Expr::Path(_)) && r.reference.is_none() { return None; }
                let v: Expr = if recv_is_ref(r) { if r.mutability.is_some() { parse_quote!(&mut #rv) } else { parse_quote!(&#rv) } } else { rv.clone() };
                struct S;
                impl VisitMut for S {
                    fn visit_path_mut(&mut self, p: &mut Path) { if p.is_ident("self") { *p = parse_quote!(__this); } visit_mut::visit_path_mut(self, p); }
                    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = substitute(m.tokens.clone(), &[(vec!["self".into()], quote!(__this))], &mut [false]); }
                }
                S.visit_block_mut(&mut body);
                pats.push(if r.reference.is_none() && r.mutability.is_some() { parse_quote!(mut __this) } else { parse_quote!(__this) });
                vals.push(v);
                typed = false;
            } else if r.reference.is_none() && r.mutability.is_some() { return None; }
        }
        for (a, v) in ins.zip(args) {
            if let FnArg::Typed(t) = a {
                struct L(bool);
                impl VisitMut for L {
                    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { r.lifetime = None; visit_mut::visit_type_reference_mut(self, r); }
                    fn visit_type_impl_trait_mut(&mut self, _: &mut TypeImplTrait) { self.0 = true; }
                }
                let mut ty = (*t.ty).clone();
                let mut l = L(false);
                l.visit_type_mut(&mut ty);
                if l.0 { typed = false; }
                pats.push((*t.pat).clone()); tys.push(ty); vals.push(v);
            }
        }
        Strip.visit_block_mut(&mut body);
        let whole: Expr = parse_quote!(#body);
        let whole = desugar::lift_out(&whole)?;
        let stmts = match whole { Expr::Block(b) => b.block.stmts, e => vec![Stmt::Expr(e, None)] };
        self.used = true;
        let bind: Vec<Stmt> = match pats.len() {
            0 => vec![],
            1 => { let (p, v) = (&pats[0], &vals[0]); if typed { let t = &tys[0]; vec![parse_quote!(let #p: #t = #v;)] } else { vec![parse_quote!(let #p = #v;)] } }
            _ => if typed { vec![parse_quote!(let (#(#pats),*): (#(#tys),*) = (#(#vals),*);)] } else { vec![parse_quote!(let (#(#pats),*) = (#(#vals),*);)] },
        };
        Some(parse_quote!({ #(#bind)* #(#stmts)* }))
    }
}
fn recv_is_ref(r: &Receiver) -> bool { r.reference.is_some() }
impl<'a> VisitMut for Inline<'a> {
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // calls among the arguments of assert!, vec! and the like
        let args = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone());
        if let Ok(mut a) = args {
            let used = std::mem::replace(&mut self.used, false);
            for e in a.iter_mut() { self.visit_expr_mut(e); }
            if self.used { m.tokens = a.to_token_stream(); }
            self.used |= used;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let n = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let f = match seg.as_slice() {
                        [f] => self.free(f),
                        [t, f] => { let t = if t == "Self" { self.owner.clone() } else { t.clone() }; self.method(Some(&t), f) }
                        _ => None,
                    };
                    f.and_then(|(s, b)| self.body(s, b, None, c.args.iter().cloned().collect()))
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                let ty = if norm(&m.receiver) == "self" { Some(self.owner.clone()) } else { None };
                self.method(ty.as_deref(), &m.method.to_string())
                    .filter(|(s, _)| matches!(s.inputs.first(), Some(FnArg::Receiver(_))))
                    .and_then(|(s, b)| self.body(s, b, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
                let id = p.path.segments[0].ident.to_string();
                if id.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') && !self.known.contains(&id) {
                    match find_item(self.file, &id) { Ok(Item::Const(c)) => { self.used = true; let (x, t) = (&c.expr, &c.ty); let q: Expr = if matches!(**t, Type::Path(_)) && matches!(**x, Expr::Lit(_)) { parse_quote!((#x as #t)) } else { parse_quote!((#x)) }; Some(q) } _ => None }
                } else { None }
            }
            _ => None,
        };
        if let Some(mut n) = n {
            if self.depth < 4 { self.depth += 1; self.visit_expr_mut(&mut n); self.depth -= 1; }
            *e = n;
        }
    }
}

fn owner_of(path: &str) -> &str { match path.rfind("::") { Some(i) => path[..i].trim_start_matches('<').split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or(""), None => "" } }
fn int_of(e: &Expr) -> Option<u64> {
    match e { Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(), Expr::Paren(p) => int_of(&p.expr), Expr::Cast(c) => int_of(&c.expr), _ => None }
}
fn discriminants(it: &Item) -> BTreeMap<String, u64> {
    let mut r = BTreeMap::new();
    if let Item::Enum(e) = it {
        let mut d = 0;
        for v in &e.variants { if let Some((_, x)) = &v.discriminant { d = int_of(x).unwrap_or(u64::MAX / 2); } r.insert(v.ident.to_string(), d); d += 1; }
    }
    r
}
/// the last segment of the trait, the impl
fn impl_of(f: &File, tr: &str, ty: &str) -> Option<ItemImpl> {
    let mut items = vec![];
    all_items(&f.items, &mut items);
    items.into_iter().find_map(|i| match i {
        Item::Impl(im) if norm(&im.self_ty).split('<').next() == Some(ty) && im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident == tr).unwrap_or(false) => Some(im.clone()),
        _ => None,
    })
}
fn impl_const(im: &ItemImpl, n: &str) -> Option<Expr> { im.items.iter().find_map(|i| match i { ImplItem::Const(c) if c.ident == n => Some(c.expr.clone()), _ => None }) }
/// the field list of a type as written on the wire: (variant pattern, tag, fields)
fn wire_spec(it: &Item) -> std::result::Result<String, String> {
    // chain of the bytes after field i
    fn after(fs: &[(String, bool)], i: usize, pre: &str, t: &str) -> String {
        let v: Vec<&(String, bool)> = fs[i..].iter().filter(|f| !f.1).collect();
        let mut r = t.to_string();
        for f in v.into_iter().rev() { r = format!("({pre}{}.sb() + {r})", f.0); }
        r
    }
    let (ig, name, tg, wh) = match it { Item::Struct(s) => (&s.generics, &s.ident, &s.generics, ""), Item::Enum(s) => (&s.generics, &s.ident, &s.generics, ""), _ => return Err("not a struct or enum".into()) };
    let (ig, _, _) = ig.split_for_impl();
    let (_, tg, _) = tg.split_for_impl();
    let head = format!("impl{} SB for {}{}{}", norm(&ig).replace("const", "const "), name, norm(&tg), wh);
    match it {
        Item::Struct(s) => {
            let fs: Vec<(String, bool)> = s.fields.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map(|n| n.to_string()).unwrap_or(i.to_string()), strict_skip(&f.attrs))).collect();
            let j = |f: &dyn Fn(&str) -> String, sep: &str, e: &str| { let v: Vec<String> = fs.iter().map(|x| f(&x.0)).collect(); if v.is_empty() { e.to_string() } else { v.join(sep) } };
            let sb: Vec<String> = fs.iter().filter(|f| !f.1).map(|f| format!("self.{}.sb()", f.0)).collect();
            let mut uq = String::new();
            for (i, f) in fs.iter().enumerate() { if !f.1 { let _ = write!(uq, " self.{0}.unique({1}, &o.{0}, {2});", f.0, after(&fs, i + 1, "self.", "t"), after(&fs, i + 1, "o.", "u")); } }
            Ok(format!("{head} {{\n    open spec fn ok(&self) -> bool {{ {} }}\n    open spec fn sb(&self) -> Seq<u8> {{ {} }}\n    open spec fn same(&self, o: &Self) -> bool {{ {} }}\n    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) {{{uq} }}\n    proof fn same_self(&self) {{ {} }}\n}}",
                j(&|f| format!("self.{f}.ok()"), " && ", "true"), if sb.is_empty() { "Seq::empty()".into() } else { sb.join(" + ") }, j(&|f| format!("self.{f}.same(&o.{f})"), " && ", "true"), j(&|f| format!("self.{f}.same_self();"), " ", "")))
        }
        Item::Enum(e) => {
            let tags = strict_attr(&e.attrs, "tags").ok_or("no `tags`")?;
            let disc = discriminants(it);
            let (mut ok, mut sb, mut same, mut uq, mut ss) = (String::new(), String::new(), String::new(), String::new(), String::new());
            for (i, v) in e.variants.iter().enumerate() {
                let tag = match tags.as_str() { "repr" => disc[&v.ident.to_string()].to_string(), "order" => i.to_string(), "custom" => strict_attr(&v.attrs, "tag").ok_or("no variant tag")?, t => return Err(format!("unknown tags {t}")) };
                let tag = format!("{}u8", tag.trim_end_matches("u8"));
                let fs: Vec<(String, String, bool)> = v.fields.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map(|n| n.to_string()).unwrap_or(format!("{i}")), format!("f{i}"), strict_skip(&f.attrs))).collect();
                let pat = |p: &str| { let l: Vec<String> = fs.iter().map(|f| format!("{}: {p}{}", f.0, f.1)).collect(); format!("{}::{} {{ {} }}", e.ident, v.ident, l.join(", ")) };
                let fl = |p: &str| -> Vec<(String, bool)> { fs.iter().map(|f| (format!("{p}{}", f.1), f.2)).collect() };
                let (a, b) = (fl("a"), fl("b"));
                let js = |v: Vec<String>| if v.is_empty() { "true".to_string() } else { v.join(" && ") };
                let _ = write!(ok, " {} => {},", pat("a"), js(a.iter().map(|f| format!("{}.ok()", f.0)).collect()));
                let _ = write!(sb, " {} => seq![{tag}]{},", pat("a"), a.iter().filter(|f| !f.1).map(|f| format!(" + {}.sb()", f.0)).collect::<String>());
                let _ = write!(same, " ({}, {}) => {},", pat("a"), pat("b"), js(a.iter().zip(&b).map(|(x, y)| format!("{}.same(&{})", x.0, y.0)).collect()));
                let _ = write!(ss, " {} => {{ {} }}", pat("a"), a.iter().map(|f| format!("{}.same_self(); ", f.0)).collect::<String>());
                let mut st = format!("lib::split(seq![{tag}], {}, seq![{tag}], {});", after(&a, 0, "", "t"), after(&b, 0, "", "u"));
                for (i, f) in a.iter().enumerate() { if !f.1 { let _ = write!(st, " {}.unique({}, &{}, {});", f.0, after(&a, i + 1, "", "t"), b[i].0, after(&b, i + 1, "", "u")); } }
                let _ = write!(uq, " ({}, {}) => {{ {st} }}", pat("a"), pat("b"));
            }
            let other = if e.variants.len() > 1 { (" _ => false,", " _ => { assert((self.sb() + t)[0] == self.sb()[0]); assert((o.sb() + u)[0] == o.sb()[0]); }") } else { ("", "") };
            Ok(format!("{head} {{\n    open spec fn ok(&self) -> bool {{ match *self {{{ok} }} }}\n    open spec fn sb(&self) -> Seq<u8> {{ match *self {{{sb} }} }}\n    open spec fn same(&self, o: &Self) -> bool {{ match (*self, *o) {{{same}{} }} }}\n    proof fn unique(&self, t: Seq<u8>, o: &Self, u: Seq<u8>) {{ match (*self, *o) {{{uq}{} }} }}\n    proof fn same_self(&self) {{ match *self {{{ss} }} }}\n}}", other.0, other.1))
        }
        _ => Err("not a struct or enum".into()),
    }
}
/// what the generated impls declare about the type: field names, field count, variants
fn wire_decl(f: &File, ty: &str, it: &Item) -> std::result::Result<Vec<String>, String> {
    let mut out = vec![];
    if let Some(im) = impl_of(f, "StrictStruct", ty) {
        let e = impl_const(&im, "ALL_FIELDS").ok_or("no ALL_FIELDS")?;
        let names = match &e { Expr::Reference(r) => match &*r.expr { Expr::Array(a) => a.elems.iter().map(|x| match x { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Ok(format!("{}u64", wire::name_no(&s.value()))), _ => Err("ALL_FIELDS") }).collect::<std::result::Result<Vec<_>, _>>()?, _ => return Err("ALL_FIELDS".into()) }, _ => return Err("ALL_FIELDS".into()) };
        out.push(format!("impl StrictStruct for {ty} {{ open spec fn fields() -> Seq<u64> {{ seq![{}] }} }}", names.join(", ")));
    }
    if let Some(im) = impl_of(f, "StrictTuple", ty) {
        let e = impl_const(&im, "FIELD_COUNT").and_then(|e| int_of(&e)).ok_or("no FIELD_COUNT")?;
        let (ig, tg, _) = im.generics.split_for_impl();
        let _ = tg;
        out.push(format!("impl{} StrictTuple for {} {{ open spec fn count() -> int {{ {e} }} }}", norm(&ig).replace("const", "const "), norm(&im.self_ty)));
    }
    if let Some(im) = impl_of(f, "StrictSum", ty) {
        let disc = discriminants(it);
        let e = impl_const(&im, "ALL_VARIANTS").ok_or("no ALL_VARIANTS")?;
        let arr = match &e { Expr::Reference(r) => match &*r.expr { Expr::Array(a) => a.clone(), _ => return Err("ALL_VARIANTS".into()) }, _ => return Err("ALL_VARIANTS".into()) };
        let mut vs = vec![];
        for x in &arr.elems {
            let t = match x { Expr::Tuple(t) if t.elems.len() == 2 => t, _ => return Err("ALL_VARIANTS".into()) };
            let tag = int_of(&t.elems[0]).or_else(|| match &t.elems[0] { Expr::Cast(c) => match &*c.expr { Expr::Path(p) => disc.get(&p.path.segments.last().unwrap().ident.to_string()).copied(), _ => None }, _ => None }).ok_or("variant tag")?;
            let n = match &t.elems[1] { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => wire::name_no(&s.value()), _ => return Err("variant name".into()) };
            vs.push((tag, n));
        }
        let tag = vs.iter().map(|(t, n)| format!("if n == {n}u64 {{ Some({t}u8) }} else ")).collect::<String>();
        let named = vs.iter().map(|(t, n)| format!("if t == {t}u8 {{ Some({n}u64) }} else ")).collect::<String>();
        let mut d = vec!["true".to_string()];
        for i in 0..vs.len() { for j in 0..i { d.push(format!("{}u8 != {}u8 && {}u64 != {}u64", vs[i].0, vs[j].0, vs[i].1, vs[j].1)); } }
        let decl: Vec<String> = vs.iter().map(|v| format!("{}u64", v.1)).collect();
        let vn = im.items.iter().find_map(|i| match i { ImplItem::Fn(f) if f.sig.ident == "variant_name" => Some(f.block.clone()), _ => None }).ok_or("no variant_name")?;
        struct L;
        impl VisitMut for L { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e { *e = wire::name_lit(&s.value()); return; } visit_mut::visit_expr_mut(self, e); } }
        let mut vn = vn;
        Strip.visit_block_mut(&mut vn);
        L.visit_block_mut(&mut vn);
        out.push(format!("impl StrictSum for {ty} {{\n    open spec fn tag(n: u64) -> Option<u8> {{ {tag}{{ None }} }}\n    open spec fn named(t: u8) -> Option<u64> {{ {named}{{ None }} }}\n    open spec fn distinct() -> bool {{ {} }}\n    open spec fn declared() -> Set<u64> {{ set![{}] }}\n    open spec fn variant_name(&self) -> u64 {}\n}}",
            d.join(" && "), decl.join(", "), vn.to_token_stream().to_string()));
    }
    Ok(out)
}

struct FnOut { body: usize, text: String, status: &'static str, reason: String, rules: Vec<String> }

fn weave_fn(repo: &mut Repo, sp: &Spec, gsubs: &[Sub], stub: Option<&str>, known: &HashSet<String>) -> std::result::Result<FnOut, String> {
    let (sig, body) = find_fn(repo.file(&sp.file)?, &sp.path)?;
    let subs: Vec<Sub> = sp.subs.iter().chain(gsubs).cloned().collect();
    let mut hits = vec![false; subs.len()];
    let sig_ts = substitute(sig.to_token_stream(), &subs, &mut hits);
    let mut sig: Signature = parse2(sig_ts).map_err(|e| format!("signature after substitution: {e}"))?;
    let mut block = body;
    let mut inlined = false;
    let discs = if sp.wire { repo.file(&sp.file).ok().and_then(|f| find_item(f, owner_of(&sp.path)).ok()).map(|i| discriminants(&i)).unwrap_or_default() } else { BTreeMap::new() };
    if stub.is_none() {
        let owner = match sp.path.rfind("::") { Some(i) => sp.path[..i].trim_start_matches('<').split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string(), None => String::new() };
        let mut inl = Inline { file: repo.file(&sp.file)?, owner, known, depth: 0, used: false };
        inl.visit_block_mut(&mut block);
        inlined = inl.used;
    }
    let nested = block.stmts.iter().any(|s| matches!(s, syn::Stmt::Item(syn::Item::Struct(_)) | syn::Stmt::Item(syn::Item::Impl(_))));
    Strip.visit_block_mut(&mut block);
    for a in &mut sig.inputs { match a { FnArg::Typed(t) => t.attrs.clear(), FnArg::Receiver(r) => r.attrs.clear() } }
    let b_ts = substitute(block.to_token_stream(), &subs, &mut hits);
    let mut block: Block = parse2(b_ts).map_err(|e| format!("body after substitution: {e}"))?;
    let mut named = 0;
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            // an unused parameter gets a name
            if matches!(*t.pat, Pat::Wild(_)) { let id = quote::format_ident!("__p{i}"); *t.pat = parse_quote!(#id); }
            struct I { named: usize, params: Vec<GenericParam> }
            impl VisitMut for I {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    if let Type::ImplTrait(it) = t {
                        let id = quote::format_ident!("Impl{}", self.named);
                        self.named += 1;
                        let b = &it.bounds;
                        self.params.push(parse_quote!(#id: #b));
                        *t = parse_quote!(#id);
                    } else { visit_mut::visit_type_mut(self, t); }
                }
            }
            let mut i = I { named, params: vec![] };
            i.visit_type_mut(&mut t.ty);
            named = i.named;
            for p in i.params {
                sig.generics.params.push(p);
                if sig.generics.lt_token.is_none() { sig.generics.lt_token = Some(Default::default()); sig.generics.gt_token = Some(Default::default()); }
            }
        }
    }
    if let Some(n) = &sp.rename { sig.ident = quote::format_ident!("{n}"); }
    let mut cx = Ctx::new(sp.tfi.clone());
    cx.overloads = sp.overloads;
    cx.result_map = sp.result_map;
    cx.refuse = sp.refuse.clone();
    if inlined { cx.rules.insert("helper-inlined"); }
    if nested { cx.rules.insert("nested-items"); }
    if named > 0 { cx.rules.insert("impl-trait-argument"); }
    if hits.iter().any(|h| *h) { cx.rules.insert("substitution"); }
    let mut reason = stub.map(|s| s.to_string());
    let mut wv = Weaver { texts: HashMap::new(), next: 0, ins: sp.ins.iter().map(|(k, t)| (k.clone(), t.clone(), false)).collect(), n_loop: 0, n_match: 0, n_if: 0, n_ret: 0, calls: BTreeMap::new(), lets: BTreeMap::new(), errors: vec![], before: vec![], after: vec![] };
    if reason.is_none() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            rebind_params(&mut sig, &mut block, &mut cx);
            if sp.wire {
                wire::Names { disc: &|v| discs.get(v).copied() }.visit_block_mut(&mut block);
                let c = wire::Callbacks::run(&mut block);
                if c.used { cx.rules.insert("callback-inlined"); }
                cx.errors.extend(c.errors);
            }
            if !sp.raw {
                if sp.collect_tail { collect_tail(&mut cx, &mut block); }
                Desugar { cx: &mut cx, hint: None }.visit_block_mut(&mut block);
            }
            wv.visit_block_mut(&mut block);
            // function start / tail
            if let Some(t) = wv.take(&["tail", "before"]) { let s = wv.mark(t); before_tail(&mut block, s); }
            if let Some(t) = wv.take(&["tail", "bind"]) {
                let s = wv.mark(t);
                let name = quote::format_ident!("{}", sp.ret.clone().unwrap_or("res".into()));
                if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
                    block.stmts.pop();
                    let rty = match &sig.output { ReturnType::Type(_, t) => t.to_token_stream(), _ => quote!(()) };
                    block.stmts.push(parse_quote!(let #name: #rty = #e;));
                    block.stmts.push(s);
                    block.stmts.push(Stmt::Expr(parse_quote!(#name), None));
                } else { wv.errors.push("no tail expression".into()); }
            }
            if let Some(t) = wv.take(&["start"]) { let s = wv.mark(t); body_start(&mut block, s); }
        }));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            reason = Some(format!("extraction failed: {m}"));
        }
        if let Some(e) = cx.errors.first() { reason = reason.or(Some(e.clone())); }
        if let Some(e) = wv.errors.first() { reason = reason.or(Some(e.clone())); }
        if let Some((k, _, _)) = wv.ins.iter().find(|x| !x.2) { reason = reason.or(Some(format!("anchor `{}` not found", k.join(" ")))); }
    }
    let mut text = String::new();
    let head = render_sig(&sig, &sp.ret);
    if let Some(r) = reason {
        // the parameters of a function without a body bind nothing
        let mut bare = sig.clone();
        for (i, a) in bare.inputs.iter_mut().enumerate() {
            match a {
                FnArg::Receiver(r) => if r.reference.is_none() { r.mutability = None },
                FnArg::Typed(t) => match &mut *t.pat {
                    Pat::Ident(p) => { p.mutability = None; p.by_ref = None; }
                    _ => { let id = quote::format_ident!("__p{i}"); *t.pat = parse_quote!(#id); }
                },
            }
        }
        let head = render_sig(&bare, &sp.ret);
        text.push_str("    #[verifier::external_body]\n");
        text.push_str(&head);
        text.push_str(&sp.spec);
        text.push_str("    { unimplemented!() }\n");
        return Ok(FnOut { body: 0, text, status: "stub", reason: r, rules: vec![] });
    }
    text.push_str(&head);
    text.push_str(&sp.spec);
    let body = text.matches('\n').count();
    let mut p = print::Printer::new(&wv.texts, 1);
    p.stream(block.to_token_stream());
    text.push_str(&p.finish());
    Ok(FnOut { body, text, status: "woven", reason: String::new(), rules: cx.rules.iter().map(|s| s.to_string()).collect() })
}

#[allow(clippy::too_many_arguments)]
fn emit(repo: &mut Repo, sp: &Spec, label: &str, gsubs: &[Sub], stubs: &HashMap<String, String>, known: &HashSet<String>, o: &mut Out, fns: &mut Vec<String>, fatal: &mut Vec<String>) {
    let start = o.line;
                    match weave_fn(repo, sp, gsubs, stubs.get(label).map(|s| s.as_str()), known) {
                        Ok(f) => {
                            o.push(&f.text);
                            fns.push(format!("{{\"name\":{},\"file\":{},\"start\":{},\"end\":{},\"body\":{},\"status\":{},\"reason\":{},\"props\":{},\"rules\":{}}}",
                                js(label), js(&sp.file), start, o.line - 1, if f.body > 0 { start + f.body } else { 0 }, js(f.status), js(&f.reason),
                                jl(sp.props.iter().map(|s| s.as_str())), jl(f.rules.iter().map(|s| s.as_str()))));
                        }
                        Err(e) => {
                            fatal.push(format!("{label}: {e}"));
                            fns.push(format!("{{\"name\":{},\"file\":{},\"start\":{},\"end\":{},\"status\":\"missing\",\"reason\":{},\"props\":{},\"rules\":[]}}",
                                js(label), js(&sp.file), start, start, js(&e), jl(sp.props.iter().map(|s| s.as_str()))));
                        }
                    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut args = std::env::args().skip(1);
    let (mut root, mut out, mut map) = (String::from("/repo"), String::new(), String::new());
    let mut stubs: HashMap<String, String> = HashMap::new();
    let mut templates = vec![];
    let mut expanded = String::new();
    let mut fixture = String::new();
    while let Some(a) = args.next() {
        match a.as_str() {
            "--repo" => root = args.next().unwrap(),
            "--expanded" => expanded = args.next().unwrap(),
            "--fixture" => fixture = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--map" => map = args.next().unwrap(),
            "--stub" => { let s = args.next().unwrap(); let (n, r) = s.split_once('=').unwrap_or((&s, "excluded")); stubs.insert(n.into(), r.into()); }
            t => templates.push(t.to_string()),
        }
    }
    let mut repo = Repo { root, expanded, fixture, files: BTreeMap::new() };
    let mut o = Out { text: String::new(), line: 1 };
    let mut fns = vec![];
    let mut fatal = vec![];
    let mut gsubs: Vec<Sub> = vec![];
    // the names which have a contract or a definition in the templates
    let mut known: HashSet<String> = HashSet::new();
    for t in &templates {
        for l in std::fs::read_to_string(t).unwrap_or_default().lines() {
            if let Some(d) = l.trim_start().strip_prefix("//%") {
                let w: Vec<&str> = d.split_whitespace().collect();
                match w.first() {
                    Some(&"fn") => { let p = d.trim()[2..].trim(); let p = p.split(" name ").next().unwrap(); if let Some(n) = p.rsplit(|c: char| !(c.is_alphanumeric() || c == '_')).next() { known.insert(n.into()); } }
                    Some(&"sub") | Some(&"gsub") => known.extend(d.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).map(String::from)),
                    Some(&"item") | Some(&"const") | Some(&"econst") | Some(&"implconst") => { if let Some(n) = w.get(2) { known.insert(n.rsplit("::").next().unwrap().into()); } }
                    _ => {}
                }
            } else {
                let w: Vec<&str> = l.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
                for i in 0..w.len() { if (w[i] == "fn" || w[i] == "const") && i + 1 < w.len() { known.insert(w[i + 1].into()); } }
            }
        }
    }
    for t in &templates {
        let src = std::fs::read_to_string(t).unwrap_or_else(|e| { eprintln!("weave: {t}: {e}"); std::process::exit(3) });
        let lines: Vec<&str> = src.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            let Some(d) = l.trim_start().strip_prefix("//%") else {
                o.push(l);
                continue;
            };
            let d = d.trim();
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match cmd {
                "gsub" => gsubs.push(parse_sub(rest)),
                "clear-gsubs" => gsubs.clear(),
                "implconst" => {
                    let (file, path) = rest.split_once(' ').unwrap();
                    match repo.file(file).and_then(|f| find_implconst(f, path)) {
                        Ok(c) => { let e = HashMap::new(); let mut p = print::Printer::new(&e, 1); p.stream(c.to_token_stream()); o.push(&p.finish()); }
                        Err(e) => fatal.push(e),
                    }
                }
                "econst" => {
                    let mut w = rest.splitn(3, ' ');
                    let (file, name, ens) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap_or(""));
                    match repo.file(file).and_then(|f| find_item(f, name)) {
                        Ok(Item::Const(c)) => {
                            let (ty, ex) = (c.ty.to_token_stream().to_string(), c.expr.to_token_stream().to_string());
                            let (ens, prf) = ens.split_once(" proof ").map(|(a, b)| (a, format!("proof {b}"))).unwrap_or((ens, String::new()));
                            o.push(&format!("pub exec const {name}: {ty} {ens} {{ let r = {ex}; {prf} r }}"));
                        }
                        Ok(_) => fatal.push(format!("{name} is not a constant")),
                        Err(e) => fatal.push(e),
                    }
                }
                "strict" => {
                    let (file, name) = rest.split_once(' ').unwrap();
                    match repo.file(file).and_then(|f| find_item(f, name)).and_then(|i| strict_spec(&i)) {
                        Ok(t) => o.push(&t),
                        Err(e) => fatal.push(e),
                    }
                }
                "item" | "const" => {
                    let mut derive = None;
                    let mut subs = gsubs.clone();
                    let mut w: Vec<&str> = rest.split_whitespace().collect();
                    if w.last() == Some(&"{") {
                        w.pop();
                        while i < lines.len() {
                            let d = lines[i].trim_start().strip_prefix("//%").unwrap_or("").trim();
                            i += 1;
                            if d == "}" || d == "end" { break; }
                            if let Some(s) = d.strip_prefix("sub ") { subs.insert(0, parse_sub(s)); }
                            if let Some(s) = d.strip_prefix("derive ") { derive = Some(s.split_whitespace().collect::<Vec<_>>().join(", ")); }
                        }
                    }
                    let r = repo.file(w[0]).and_then(|f| find_item(f, w[1]));
                    match r {
                        Ok(mut it) => {
                            StripItem.visit_item_mut(&mut it);
                            let mut h = vec![false; subs.len()];
                            let ts = substitute(it.to_token_stream(), &subs, &mut h);
                            let e = HashMap::new();
                            let mut p = print::Printer::new(&e, 0);
                            p.stream(ts);
                            if let Some(d) = derive { o.push(&format!("#[derive({d})]")); }
                            o.push(&p.finish());
                        }
                        Err(e) => fatal.push(e),
                    }
                }
                "fn" => {
                    let (file, path) = rest.split_once(' ').unwrap();
                    let mut sp = Spec { file: file.into(), path: path.trim().into(), ..Default::default() };
                    let mut label = sp.path.clone();
                    if let Some((p, n)) = path.split_once(" name ") { sp.path = p.trim().into(); label = n.trim().into(); }
                    // section parser
                    let mut cur: Option<Vec<String>> = None;
                    let mut buf = String::new();
                    let mut spec_buf = String::new();
                    loop {
                        if i >= lines.len() { panic!("unterminated fn {path}"); }
                        let l = lines[i];
                        i += 1;
                        if let Some(d) = l.trim_start().strip_prefix("//%") {
                            if let Some(k) = cur.take() {
                                if k[0] == "spec" { spec_buf.push_str(&buf); } else { sp.ins.push((k, buf.clone())); }
                                buf.clear();
                            }
                            let d = d.trim();
                            let w: Vec<String> = d.split_whitespace().map(|s| s.to_string()).collect();
                            match w[0].as_str() {
                                "end" => break,
                                "ret" => sp.ret = Some(w[1].clone()),
                                "as" => sp.rename = Some(w[1].clone()),
                                "props" => sp.props = w[1..].to_vec(),
                                "sub" => sp.subs.push(parse_sub(&d[4..])),
                                "tfi" => sp.tfi = w[1..].to_vec(),
                                "collect-tail" => sp.collect_tail = true,
                                "raw" => sp.raw = true,
                                "wire" => sp.wire = true,
                                "result-map" => sp.result_map = true,
                                "refuse" => sp.refuse = Some(d[7..].trim().into()),
                                "overloads" => sp.overloads = true,
                                "spec" | "start" | "loop" | "match" | "if" | "return" | "tail" | "let" | "call" => cur = Some(w),
                                x => { eprintln!("weave: unknown section {x}"); std::process::exit(3) }
                            }
                        } else if cur.is_some() {
                            buf.push_str(l);
                            buf.push('\n');
                        } else if !l.trim().is_empty() { eprintln!("weave: stray text in fn {path}: {l}"); std::process::exit(3) }
                    }
                    sp.spec = spec_buf;
                    emit(&mut repo, &sp, &label, &gsubs, &stubs, &known, &mut o, &mut fns, &mut fatal);
                }
                "wire" => {
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    let (file, ty) = (w[0], w[1]);
                    let r = repo.file(file).and_then(|f| find_item(f, ty)).and_then(|it| wire_spec(&it).map(|t| (it, t)))
                        .and_then(|(it, t)| repo.file("@expanded").and_then(|f| wire_decl(f, ty, &it).map(|d| (t, d, impl_of(f, "StrictEnum", ty).is_some()))));
                    match r {
                        Err(e) => fatal.push(format!("{ty}: {e}")),
                        Ok((t, d, is_enum)) => {
                            let at = o.line;
                            o.push(&t);
                            fns.push(format!("{{\"name\":{},\"file\":{},\"start\":{at},\"end\":{},\"body\":0,\"status\":\"lemma\",\"reason\":\"\",\"props\":[\"C17\"],\"rules\":[]}}", js(&format!("{ty} read in one way")), js(file), o.line - 1));
                            for x in d { o.push(&x); }
                            if w.contains(&"exact") { o.push(&format!("impl Exact for {ty} {{ proof fn exact(&self, o: &Self) {{ self.0.exact(&o.0); }} }}")); }
                            let mut go = |tr: &str, tp: &str, f: &str, rn: Option<&str>, head: &str, tail: &str| {
                                o.push(head);
                                let path = format!("<{ty} as {tp}>::{f}");
                                let mut sp = Spec { file: "@expanded".into(), path: path.clone(), ret: Some("r".into()), props: vec!["C17".into()], wire: true, ..Default::default() };
                                sp.rename = rn.map(|s| s.to_string());
                                sp.spec = match tr { _ => String::new() };
                                emit(&mut repo, &sp, &path, &gsubs, &stubs, &known, &mut o, &mut fns, &mut fatal);
                                o.push(tail);
                            };
                            if is_enum { go("StrictEnum", "TryFrom<u8>", "try_from", Some("try_from_tag"), &format!("impl StrictEnum for {ty} {{\n    proof fn one_byte(&self) {{}}"), "}"); }
                            go("StrictEncode", "StrictEncode", "strict_encode", None, &format!("impl StrictEncode for {ty} {{"), "}");
                            go("StrictDecode", "StrictDecode", "strict_decode", None, &format!("impl StrictDecode for {ty} {{"), "}");
                        }
                    }
                }
                "" => {}
                x => { eprintln!("weave: unknown directive {x}"); std::process::exit(3) }
            }
        }
    }
    std::fs::write(&out, &o.text).unwrap();
    let j = format!("{{\"fns\":[\n{}\n],\n\"fatal\":{}}}\n", fns.join(",\n"), jl(fatal.iter().map(|s| s.as_str())));
    if map.is_empty() { print!("{j}"); } else { std::fs::write(&map, j).unwrap(); }
}
