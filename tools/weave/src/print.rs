//! Prints a token stream as readable text, expanding the weaver's marker macros into
//! verifier syntax.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;

pub struct Printer<'a> {
    pub texts: &'a HashMap<usize, String>,
    out: String,
    indent: usize,
    line_start: bool,
}

fn marker(ts: &[TokenTree], i: usize) -> Option<(String, TokenStream, usize)> {
    // IDENT ! ( ... ) [;]
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
        (ts.get(i), ts.get(i + 1), ts.get(i + 2))
    {
        let name = id.to_string();
        if p.as_char() == '!' && name.starts_with("__w_") {
            let mut n = 3;
            if let Some(TokenTree::Punct(p)) = ts.get(i + 3) {
                if p.as_char() == ';' {
                    n = 4;
                }
            }
            return Some((name, g.stream(), n));
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn new(texts: &'a HashMap<usize, String>, indent: usize) -> Self {
        Printer { texts, out: String::new(), indent, line_start: true }
    }
    fn nl(&mut self) {
        if !self.line_start {
            self.out.push('\n');
            self.line_start = true;
        }
    }
    fn put(&mut self, s: &str, space: bool) {
        if self.line_start {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.line_start = false;
        } else if space {
            self.out.push(' ');
        }
        self.out.push_str(s);
    }
    fn raw_block(&mut self, text: &str) {
        self.nl();
        for l in text.lines() {
            self.out.push_str(l);
            self.out.push('\n');
        }
        self.line_start = true;
    }
    fn num(ts: &TokenStream) -> usize { ts.to_string().trim().parse().expect("marker number") }

    pub fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut glue = true; // no space before the first token
        while i < v.len() {
            if let Some((name, inner, n)) = marker(&v, i) {
                match name.as_str() {
                    "__w_ins" => {
                        let t = self.texts[&Self::num(&inner)].clone();
                        self.raw_block(&t);
                    }
                    "__w_inv" => { /* printed before the brace */ }
                    "__w_it" => {
                        // __w_it!(name, expr)
                        let iv: Vec<TokenTree> = inner.into_iter().collect();
                        self.put(&iv[0].to_string(), true);
                        self.put(":", false);
                        let rest: TokenStream = iv[2..].iter().cloned().collect();
                        self.put("", true);
                        self.stream_inline(rest);
                        i += n;
                        glue = false;
                        continue;
                    }
                    "__w_assert" => {
                        self.nl();
                        self.put("assert(", false);
                        self.stream_inline(inner);
                        self.put(");", false);
                        self.nl();
                    }
                    other => panic!("unknown marker {other}"),
                }
                i += n;
                glue = true;
                continue;
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let iv: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let Some((name, inner, _)) = marker(&iv, 0) {
                            if name == "__w_inv" {
                                let t = self.texts[&Self::num(&inner)].clone();
                                self.raw_block(&t);
                            }
                        }
                        self.put(o, true);
                        if !iv.is_empty() {
                            self.indent += 1;
                            self.nl();
                            self.stream(g.stream());
                            self.nl();
                            self.indent -= 1;
                        }
                        self.put(c, false);
                        // newline unless followed by punctuation / else
                        let follow = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() != '*' && p.as_char() != '&')
                            || matches!(v.get(i + 1), Some(TokenTree::Ident(id)) if id == "else");
                        if !follow {
                            self.nl();
                        }
                    } else {
                        let sp = !glue
                            && !matches!(
                                i.checked_sub(1).and_then(|k| v.get(k)),
                                Some(TokenTree::Ident(_)) | Some(TokenTree::Group(_))
                            );
                        self.put(o, sp);
                        self.stream_inline(g.stream());
                        self.put(c, false);
                    }
                    glue = false;
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    let tight = matches!(ch, ',' | ';' | '.' | '?' | ':') ;
                    let prev_joint = matches!(i.checked_sub(1).and_then(|k| v.get(k)),
                        Some(TokenTree::Punct(q)) if q.spacing() == Spacing::Joint);
                    self.put(&ch.to_string(), !glue && !tight && !prev_joint);
                    // no space after these
                    glue = matches!(ch, '.' | '&' | '!' | '*' | '\'' | '#') && p.spacing() == Spacing::Alone
                        || p.spacing() == Spacing::Joint
                        || (ch == ':' && prev_joint);
                    if ch == '*' || ch == '&' {
                        // binary use: keep space
                        glue = !matches!(i.checked_sub(1).and_then(|k| v.get(k)),
                            Some(TokenTree::Ident(_)) | Some(TokenTree::Literal(_)))
                            && !matches!(i.checked_sub(1).and_then(|k| v.get(k)), Some(TokenTree::Group(g)) if g.delimiter()==Delimiter::Parenthesis);
                    }
                    if ch == ';' {
                        self.nl();
                        glue = true;
                    }
                    if ch == ',' && self.line_start == false {
                        glue = false;
                    }
                }
                TokenTree::Ident(id) => {
                    self.put(&id.to_string(), !glue);
                    glue = false;
                }
                TokenTree::Literal(l) => {
                    self.put(&l.to_string(), !glue);
                    glue = false;
                }
            }
            i += 1;
        }
    }
    fn stream_inline(&mut self, ts: TokenStream) {
        let empty = ts.is_empty();
        if empty {
            return;
        }
        let before = self.out.len();
        let _ = before;
        self.stream(ts);
    }
    pub fn finish(mut self) -> String {
        self.nl();
        self.out
    }
}
