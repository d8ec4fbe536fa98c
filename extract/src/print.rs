//! Prints a token stream as text, one statement a line, and records where each marked function lies.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Printer {
    pub out: String,
    pub line: usize,
    col0: bool,
    indent: usize,
    pub marks: BTreeMap<usize, (usize, usize)>,
    nospace: bool,
    pub raws: Rc<RefCell<Vec<String>>>,
}

impl Printer {
    pub fn new(raws: Rc<RefCell<Vec<String>>>) -> Self {
        Printer { out: String::new(), line: 1, col0: true, indent: 0, marks: BTreeMap::new(), nospace: true, raws }
    }
    fn rawn(&mut self, n: usize) {
        let t = self.raws.borrow()[n].clone();
        self.raw(&t);
    }
    /// `name ! ( N )` at v[i..]: N
    fn marker(v: &[TokenTree], i: usize, name: &str) -> Option<usize> {
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) =
            (v.get(i), v.get(i + 1), v.get(i + 2))
        {
            if id == name {
                return g.stream().to_string().trim().parse().ok();
            }
        }
        None
    }
    fn nl(&mut self) {
        if !self.col0 {
            self.out.push('\n');
            self.line += 1;
            self.col0 = true;
        }
    }
    fn put(&mut self, s: &str) {
        if self.col0 {
            for _ in 0..self.indent {
                self.out.push_str("  ");
            }
            self.col0 = false;
            self.nospace = true;
        }
        if !self.nospace {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.line += s.matches('\n').count();
        self.nospace = false;
    }
    pub fn raw(&mut self, s: &str) {
        self.nl();
        self.out.push_str(s);
        self.line += s.matches('\n').count();
        if !s.ends_with('\n') {
            self.out.push('\n');
            self.line += 1;
        }
        self.col0 = true;
    }
    pub fn tokens(&mut self, ts: TokenStream, parens: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if (s == "vx_mark_begin" || s == "vx_mark_end") && i + 2 < v.len() {
                        if let TokenTree::Group(g) = &v[i + 2] {
                            let k: usize = g.stream().to_string().trim().parse().unwrap();
                            self.nl();
                            if s == "vx_mark_begin" {
                                self.marks.insert(k, (self.line, 0));
                            } else {
                                let l = self.line;
                                self.marks.get_mut(&k).unwrap().1 = l;
                            }
                            i += 3;
                            continue;
                        }
                    }
                    if let Some(n) = Self::marker(&v, i, "vx_raw") {
                        self.rawn(n);
                        i += 3;
                        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                            i += 1;
                        }
                        continue;
                    }
                    if s == "vx_closure" {
                        if let (Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) = (v.get(i + 1), v.get(i + 2)) {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let n: usize = inner[0].to_string().parse().unwrap();
                            self.rawn(n);
                            let rest: TokenStream = inner[2..].iter().cloned().collect();
                            self.tokens(rest, false);
                            i += 3;
                            continue;
                        }
                    }
                    if !parens
                        && matches!(
                            s.as_str(),
                            "requires" | "ensures" | "invariant" | "decreases" | "recommends" | "invariant_except_break"
                        )
                    {
                        self.nl();
                    }
                    self.put(&s);
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    self.put(&s)
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.put(&c.to_string());
                    if p.spacing() == Spacing::Joint || c == '\'' {
                        self.nospace = true;
                    }
                    if c == ';' && !parens {
                        self.nl();
                    }
                    if c == ',' && !parens {
                        self.nl();
                    }
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        while let Some(n) = Self::marker(&inner, 0, "vx_hoist") {
                            self.rawn(n);
                            inner.drain(0..4);
                        }
                        self.put("{");
                        self.indent += 1;
                        self.nl();
                        self.tokens(inner.into_iter().collect(), false);
                        self.indent -= 1;
                        self.nl();
                        self.put("}");
                        let next_semi = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if matches!(p.as_char(), ';' | ',' | '.' | '?'));
                        if !next_semi && !parens {
                            self.nl();
                        }
                    } else {
                        if !o.is_empty() {
                            self.put(o);
                            self.nospace = true;
                        }
                        self.tokens(g.stream(), true);
                        if !c.is_empty() {
                            self.nospace = true;
                            self.put(c);
                        }
                    }
                }
            }
            i += 1;
        }
    }
}
