//! The callbacks of strict encoding and its names.
//!
//! `X.write_struct(|w| B)`, `X.read_struct(|r| B)` and their kin call the closure once with a writer or
//! reader wrapped around X and hand back what it returns; the closure is replaced by its body here, in
//! the positions where a `?` inside it leaves the function just as it would leave the call.
//! Names of fields and variants (string literals) become numbers (FNV-1a of the text).
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn name_no(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100_0000_01b3); }
    h
}
pub fn name_lit(s: &str) -> Expr { let n = proc_macro2::Literal::u64_suffixed(name_no(s)); parse_quote!(#n) }
fn str_lit(e: &Expr) -> Option<String> { match e { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), Expr::Paren(p) => str_lit(&p.expr), Expr::Reference(r) => str_lit(&r.expr), _ => None } }

pub struct Names<'a> { pub disc: &'a dyn Fn(&str) -> Option<u64> }
impl<'a> VisitMut for Names<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) if c.args.len() == 1 => {
                if let Expr::Path(p) = &*c.func {
                    let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = seg.len();
                    if n >= 2 && seg[n - 2] == "panicking" { *e = parse_quote!(unreached()); return; }
                    if n >= 2 && (seg[n - 2] == "FieldName" || seg[n - 2] == "VariantName") && (seg[n - 1] == "from" || seg[n - 1] == "from_static") {
                        if let Some(s) = str_lit(&c.args[0]) { *e = name_lit(&s); }
                    }
                }
            }
            Expr::Macro(m) if m.mac.path.segments.last().map(|s| s.ident == "fname" || s.ident == "vname").unwrap_or(false) => {
                if let Ok(x) = parse2::<Expr>(m.mac.tokens.clone()) { if let Some(s) = str_lit(&x) { *e = name_lit(&s); } }
            }
            Expr::Match(m) => {
                let mut hit = false;
                for a in &mut m.arms { hit |= pat_names(&mut a.pat); }
                if hit { if let Expr::MethodCall(c) = &*m.expr { if c.method == "as_str" { let r = c.receiver.clone(); m.expr = r; } } }
            }
            Expr::Cast(c) => {
                if let (Expr::Path(p), Type::Path(t)) = (&*c.expr, &*c.ty) {
                    let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if t.path.is_ident("u8") && seg.len() == 2 && seg[0] == "Self" {
                        if let Some(d) = (self.disc)(&seg[1]) { let l = proc_macro2::Literal::u8_suffixed(d as u8); *e = parse_quote!(#l); }
                    }
                }
            }
            _ => {}
        }
    }
}
fn pat_names(p: &mut Pat) -> bool {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => { let n = proc_macro2::Literal::u64_suffixed(name_no(&s.value())); *p = parse_quote!(#n); true }
        Pat::Or(o) => { let mut h = false; for c in o.cases.iter_mut() { h |= pat_names(c); } h }
        _ => false,
    }
}

/// does the expression leave through `?` or `return` (not counting closures inside it)?
fn leaves(e: &Expr, ret_only: bool) -> bool {
    struct L(bool, bool);
    impl<'a> visit::Visit<'a> for L {
        fn visit_expr_try(&mut self, t: &'a ExprTry) { if !self.1 { self.0 = true; } visit::visit_expr_try(self, t); }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut l = L(false, ret_only);
    visit::Visit::visit_expr(&mut l, e);
    l.0
}
struct Rename<'a>(&'a Ident, &'a Expr);
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident(self.0) { *e = self.1.clone(); return; } }
        // a closure which binds the name again
        if let Expr::Closure(c) = e { if c.inputs.iter().any(|p| matches!(p, Pat::Ident(i) if i.ident == *self.0)) { return; } }
        // the receiver of an inner callback is renamed, its own closure binds its own name
        visit_mut::visit_expr_mut(self, e);
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Pos { Tail, Try, Mid }

pub struct Callbacks { pub errors: Vec<String>, pub used: bool, in_union: u32 }
impl Callbacks {
    pub fn run(b: &mut Block) -> Callbacks {
        let mut c = Callbacks { errors: vec![], used: false, in_union: 0 };
        c.block(b, Pos::Tail);
        c
    }
    fn err(&mut self, s: &str) { self.errors.push(format!("strict encoding callback: {s}")); }
    fn block(&mut self, b: &mut Block, pos: Pos) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Local(l) => if let Some(x) = &mut l.init { self.expr(&mut x.expr, Pos::Mid); if let Some((_, d)) = &mut x.diverge { self.expr(d, Pos::Mid); } },
                Stmt::Expr(e, semi) => { let p = if i + 1 == n && semi.is_none() { pos } else { Pos::Mid }; self.expr(e, p) }
                _ => {}
            }
        }
    }
    fn closure(&mut self, e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
        match e { Expr::Closure(c) if c.inputs.len() == n => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())), Expr::Paren(p) => self.closure(&p.expr, n), _ => None }
    }
    fn pat_ident(p: &Pat) -> Option<Ident> { match p { Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.clone()), Pat::Type(t) => Self::pat_ident(&t.pat), _ => None } }
    fn expr(&mut self, e: &mut Expr, pos: Pos) {
        match e {
            Expr::Block(b) => self.block(&mut b.block, pos),
            Expr::Unsafe(b) => self.block(&mut b.block, pos),
            Expr::Paren(p) => self.expr(&mut p.expr, pos),
            Expr::Match(m) => { self.expr(&mut m.expr, Pos::Mid); for a in &mut m.arms { self.expr(&mut a.body, pos); } }
            Expr::If(i) => { self.expr(&mut i.cond, Pos::Mid); self.block(&mut i.then_branch, pos); if let Some((_, x)) = &mut i.else_branch { self.expr(x, pos); } }
            Expr::Try(t) => self.expr(&mut t.expr, Pos::Try),
            Expr::Return(r) => if let Some(x) = &mut r.expr { self.expr(x, Pos::Tail) },
            Expr::MethodCall(_) => self.method(e, pos),
            _ => {
                struct V<'a>(&'a mut Callbacks);
                impl<'a> VisitMut for V<'a> { fn visit_expr_mut(&mut self, e: &mut Expr) { self.0.expr(e, Pos::Mid) } }
                visit_mut::visit_expr_mut(&mut V(self), e);
            }
        }
    }
    fn method(&mut self, e: &mut Expr, pos: Pos) {
        let m = match e { Expr::MethodCall(m) => m.clone(), _ => unreachable!() };
        let name = m.method.to_string();
        let turbo = m.turbofish.is_some();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        // definitions: the callback only states the type's layout
        if (name == "define_struct" || name == "define_tuple") && args.len() == 2 {
            let mut r = (*m.receiver).clone();
            self.expr(&mut r, Pos::Mid);
            let (id, a) = (&m.method, &args[0]);
            *e = parse_quote!(#r.#id(#a));
            self.used = true;
            return;
        }
        let cb = match (name.as_str(), args.len()) {
            ("write_struct", 1) | ("write_tuple", 1) | ("write_union", 1) | ("read_struct", 1) | ("read_tuple", 1) => self.closure(&args[0], 1).map(|c| (c, None)),
            ("read_union", 1) => self.closure(&args[0], 2).map(|c| (c, None)),
            ("write_struct", 2) | ("write_tuple", 2) => self.closure(&args[1], 1).map(|c| (c, Some(args[0].clone()))),
            _ => None,
        };
        if let Some(((pats, body), vname)) = cb {
            if pos == Pos::Mid && (leaves(&body, false) || vname.is_some() || name == "read_union") { return self.err("in a position it cannot be inlined"); }
            if pos == Pos::Try && leaves(&body, true) { return self.err("`return` inside it"); }
            let mut x = (*m.receiver).clone();
            self.expr(&mut x, Pos::Mid);
            let ids: Option<Vec<Ident>> = pats.iter().map(|p| Self::pat_ident(p)).collect();
            let ids = match ids { Some(i) => i, None => return self.err("unusual parameter") };
            let p = &ids[ids.len() - 1];
            let mut body = body;
            let _ = turbo;
            self.used = true;
            if let Some(n) = vname {
                self.expr(&mut body, pos);
                let f = quote::format_ident!("variant_{}", if name == "write_struct" { "struct" } else { "tuple" });
                *e = parse_quote!({ let #p = #x.#f(#n)?; #body });
                return;
            }
            match name.as_str() {
                "write_struct" | "write_tuple" => { self.expr(&mut body, pos); let f = quote::format_ident!("{}", if name == "write_struct" { "structure" } else { "tuple" }); *e = parse_quote!({ let #p = FieldWriter::#f(#x); #body }); }
                "write_union" => { self.expr(&mut body, pos); *e = parse_quote!({ let #p = UnionDefiner::<Self, _>::of(#x); #body }); }
                "read_union" => {
                    if !matches!(x, Expr::Path(_)) { return self.err("reader is not a variable"); }
                    self.in_union += 1;
                    Rename(p, &x).visit_expr_mut(&mut body);
                    self.expr(&mut body, pos);
                    self.in_union -= 1;
                    let n = &ids[0];
                    *e = parse_quote!({ let #n = wire_read_variant::<Self, _>(#x)?; #body });
                }
                _ => {
                    if !matches!(x, Expr::Path(_)) { return self.err("reader is not a variable"); }
                    let chk = if self.in_union > 0 { None } else { match fields_read(&body, p) { Some(n) => Some(n), None => return self.err("fields are not read one after the other") } };
                    Rename(p, &x).visit_expr_mut(&mut body);
                    self.expr(&mut body, pos);
                    *e = match chk {
                        None => parse_quote!({ #body }),
                        Some(n) if name == "read_struct" => { let n: Vec<Expr> = n.into_iter().map(|x| x.unwrap_or_else(|| parse_quote!(0u64))).collect(); parse_quote!({ wire_fields(Ghost(Seq::<u64>::empty()#(.push(#n))*), Ghost(<Self as StrictStruct>::fields())); #body }) }
                        Some(n) => { let n = n.len(); parse_quote!({ wire_count(#n, Ghost(<Self as StrictTuple>::count())); #body }) }
                    };
                }
            }
            return;
        }
        // plain calls
        let mut r = (*m.receiver).clone();
        self.expr(&mut r, Pos::Mid);
        let mut args = args;
        for a in &mut args { self.expr(a, Pos::Mid); }
        match (name.as_str(), args.len()) {
            ("read_field", 0 | 1) => { self.used = true; *e = match &m.turbofish { None => parse_quote!(wire_read(#r)), Some(t) => { let t = t.args.first().unwrap(); parse_quote!(wire_read::<#t, _>(#r)) } }; }
            ("read_enum", 0) => { self.used = true; *e = parse_quote!(wire_read_enum(#r)); }
            ("write_enum", 1) => { self.used = true; let a = &args[0]; *e = parse_quote!(wire_write_enum(#r, #a)); }
            ("write_field", 1 | 2) => { self.used = true; let v = &args[args.len() - 1]; *e = parse_quote!(#r.write_field(#v)); }
            ("map", 1) if matches!(args[0], Expr::Path(_)) && matches!(&*m.receiver, Expr::MethodCall(x) if x.method == "read_field") => {
                let f = &args[0];
                *e = parse_quote!(match #r { Ok(__v) => Ok(#f(__v)), Err(__e) => Err(__e) });
            }
            _ => { let mut n = m.clone(); n.receiver = Box::new(r); n.args = args.into_iter().collect(); *e = Expr::MethodCall(n); }
        }
    }
}
/// the names read from `p`, in order; None if a read is not executed exactly once
fn fields_read(b: &Expr, p: &Ident) -> Option<Vec<Option<Expr>>> {
    struct F<'a> { p: &'a Ident, out: Vec<Option<Expr>>, bad: bool, deep: u32 }
    impl<'a, 'b> visit::Visit<'b> for F<'a> {
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
            visit::visit_expr_method_call(self, m);
            if m.method == "read_field" && matches!(&*m.receiver, Expr::Path(q) if q.path.is_ident(self.p)) {
                if self.deep > 0 { self.bad = true; }
                self.out.push(m.args.first().cloned());
            }
        }
        fn visit_arm(&mut self, a: &'b Arm) { self.deep += 1; visit::visit_arm(self, a); self.deep -= 1; }
        fn visit_expr_if(&mut self, i: &'b ExprIf) { self.visit_expr(&i.cond); self.deep += 1; self.visit_block(&i.then_branch); if let Some((_, x)) = &i.else_branch { self.visit_expr(x); } self.deep -= 1; }
        fn visit_expr_for_loop(&mut self, l: &'b ExprForLoop) { self.deep += 1; visit::visit_expr_for_loop(self, l); self.deep -= 1; }
        fn visit_expr_while(&mut self, l: &'b ExprWhile) { self.deep += 1; visit::visit_expr_while(self, l); self.deep -= 1; }
        fn visit_expr_loop(&mut self, l: &'b ExprLoop) { self.deep += 1; visit::visit_expr_loop(self, l); self.deep -= 1; }
        fn visit_expr_closure(&mut self, l: &'b ExprClosure) { self.deep += 1; visit::visit_expr_closure(self, l); self.deep -= 1; }
    }
    let mut f = F { p, out: vec![], bad: false, deep: 0 };
    visit::Visit::visit_expr(&mut f, b);
    if f.bad { None } else { Some(f.out) }
}
