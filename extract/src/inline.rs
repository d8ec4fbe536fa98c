//! R12: a helper function that has no contract is put back where it is called.
//!
//! The reviewed source has a contract on every function, so the rule does nothing there. It keeps the proof
//! applicable when a piece of a function under contract is moved into a helper of its own: the call
//! is replaced by the helper's body. Only what can be replaced without changing the meaning is touched:
//!  * free functions and inherent methods, called in their own module, under a name that is unique in the crate,
//!    not recursive, with plain parameters;
//!  * arguments that are places, references to places or literals stand for the parameter, all others are bound by `let`;
//!  * tail calls keep the helper's `return`s; in `helper(..)?` its `Err`/`None` results return from the caller;
//!    elsewhere early returns must be of the form `if c { return x; } rest`, which becomes `if c { x } else { rest }`.
//! Every replacement is noted, and the twin comparison runs the resulting text beside the crate itself.
use crate::overlay::squash;
use crate::rewrite::Ctx;
use crate::Module;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, FnArg, Pat, Stmt};

#[derive(Clone)]
struct Helper {
    name: String,
    module: String,
    ty: Option<String>, // inherent method or associated function of this type
    recv: Option<syn::Receiver>,
    params: Vec<(String, bool, syn::Type)>, // name, mut, type
    generics: BTreeSet<String>,
    body: Block,
    names: BTreeSet<String>,
}

pub fn run(top: &mut Module, ctx: &mut Ctx) {
    for _ in 0..6 {
        let mut count: BTreeMap<String, usize> = BTreeMap::new();
        let mut cands: Vec<Helper> = vec![];
        collect(top, ctx, &mut count, &mut cands);
        cands.retain(|h| count.get(&h.name) == Some(&1) && !h.names.contains(&h.name));
        let all: BTreeSet<String> = cands.iter().map(|h| h.name.clone()).collect();
        // innermost first
        cands.retain(|h| h.names.is_disjoint(&all));
        if cands.is_empty() {
            return;
        }
        let mut done: BTreeSet<String> = BTreeSet::new();
        for h in &cands {
            let mut n = 0;
            apply(top, h, &mut n, ctx);
            if n > 0 {
                ctx.note(&format!("R12: {} put back at {} call(s)", h.name, n));
                done.insert(h.name.clone());
            }
        }
        if done.is_empty() {
            return;
        }
        // a helper nobody mentions any more is dropped
        let mut used: BTreeMap<String, usize> = BTreeMap::new();
        mentions(top, &mut used);
        let gone: BTreeSet<String> =
            done.iter().filter(|n| used.get(*n).copied().unwrap_or(0) <= 1).cloned().collect();
        if gone.is_empty() {
            return;
        }
        drop_items(top, &gone);
        for g in &gone {
            ctx.inlined.push(g.clone());
        }
    }
}

fn test_attr(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = squash(&a.to_token_stream().to_string());
        t == "#[cfg(test)]" || t == "#[test]"
    })
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => squash(&t.to_token_stream().to_string()),
    }
}

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn idents_of<T: ToTokens>(t: &T) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    idents(t.to_token_stream(), &mut s);
    s
}
fn count_idents(ts: TokenStream, out: &mut BTreeMap<String, usize>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => *out.entry(i.to_string()).or_insert(0) += 1,
            TokenTree::Group(g) => count_idents(g.stream(), out),
            _ => {}
        }
    }
}
fn mentions(m: &Module, out: &mut BTreeMap<String, usize>) {
    for it in &m.items {
        match it {
            syn::Item::Impl(im) => {
                for i in &im.items {
                    if let syn::ImplItem::Fn(f) = i {
                        if test_attr(&f.attrs) {
                            continue;
                        }
                    }
                    count_idents(i.to_token_stream(), out);
                }
            }
            syn::Item::Fn(f) if test_attr(&f.attrs) => {}
            it => count_idents(it.to_token_stream(), out),
        }
    }
    for c in &m.children {
        mentions(c, out);
    }
}

fn collect(m: &Module, ctx: &Ctx, count: &mut BTreeMap<String, usize>, out: &mut Vec<Helper>) {
    for it in &m.items {
        match it {
            syn::Item::Fn(f) if !test_attr(&f.attrs) => {
                *count.entry(f.sig.ident.to_string()).or_insert(0) += 1;
                let key = squash(&format!("{}::{}", m.path, f.sig.ident));
                if !ctx.ov.fns.contains_key(&key) {
                    out.extend(helper(&f.sig, &f.block, &m.path, None));
                }
            }
            syn::Item::Trait(t) => {
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        *count.entry(f.sig.ident.to_string()).or_insert(0) += 1;
                    }
                }
            }
            syn::Item::Impl(im) if !test_attr(&im.attrs) => {
                let ty = ty_name(&im.self_ty);
                for i in &im.items {
                    if let syn::ImplItem::Fn(f) = i {
                        if test_attr(&f.attrs) {
                            continue;
                        }
                        *count.entry(f.sig.ident.to_string()).or_insert(0) += 1;
                        let key = squash(&format!("{}::{}::{}", m.path, ty, f.sig.ident));
                        if im.trait_.is_none() && !ctx.ov.fns.contains_key(&key) {
                            out.extend(helper(&f.sig, &f.block, &m.path, Some(ty.clone())));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for c in &m.children {
        collect(c, ctx, count, out);
    }
}

fn helper(sig: &syn::Signature, body: &Block, module: &str, ty: Option<String>) -> Option<Helper> {
    if sig.asyncness.is_some() || sig.unsafety.is_some() || sig.abi.is_some() {
        return None;
    }
    let mut h = Helper {
        name: sig.ident.to_string(),
        module: module.to_string(),
        ty,
        recv: None,
        params: vec![],
        generics: BTreeSet::new(),
        body: body.clone(),
        names: idents_of(body),
    };
    for g in &sig.generics.params {
        match g {
            syn::GenericParam::Type(t) => {
                h.generics.insert(t.ident.to_string());
            }
            syn::GenericParam::Lifetime(t) => {
                h.generics.insert(t.lifetime.ident.to_string());
            }
            _ => return None,
        }
    }
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                if r.colon_token.is_some() {
                    return None;
                }
                h.recv = Some(r.clone());
            }
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => {
                    h.params.push((p.ident.to_string(), p.mutability.is_some(), (*t.ty).clone()))
                }
                _ => return None,
            },
        }
    }
    // `loop` labels, nested items and unknown macros are left alone
    struct Bad(bool);
    impl<'a> Visit<'a> for Bad {
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if !matches!(n.as_str(), "panic" | "unreachable" | "vec" | "assert" | "debug_assert" | "todo") {
                self.0 = true;
            }
        }
        fn visit_item(&mut self, _: &'a syn::Item) {
            self.0 = true;
        }
        fn visit_label(&mut self, _: &'a syn::Label) {
            self.0 = true;
        }
    }
    let mut b = Bad(false);
    b.visit_block(body);
    if b.0 {
        return None;
    }
    Some(h)
}

fn apply(m: &mut Module, h: &Helper, n: &mut usize, ctx: &Ctx) {
    if m.path == h.module {
        for it in m.items.iter_mut() {
            match it {
                syn::Item::Fn(f) if !test_attr(&f.attrs) && f.sig.ident != h.name => {
                    rewrite_fn(&mut f.block, h, None, n);
                }
                syn::Item::Impl(im) if !test_attr(&im.attrs) => {
                    let ty = ty_name(&im.self_ty);
                    for i in im.items.iter_mut() {
                        if let syn::ImplItem::Fn(f) = i {
                            if !test_attr(&f.attrs) && f.sig.ident != h.name {
                                rewrite_fn(&mut f.block, h, Some(ty.clone()), n);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for c in m.children.iter_mut() {
        apply(c, h, n, ctx);
    }
}

fn drop_items(m: &mut Module, gone: &BTreeSet<String>) {
    m.items.retain(|it| !matches!(it, syn::Item::Fn(f) if gone.contains(&f.sig.ident.to_string())));
    for it in m.items.iter_mut() {
        if let syn::Item::Impl(im) = it {
            if im.trait_.is_none() {
                im.items.retain(|i| !matches!(i, syn::ImplItem::Fn(f) if gone.contains(&f.sig.ident.to_string())));
            }
        }
    }
    // an inherent impl that held only helpers
    m.items.retain(|it| !matches!(it, syn::Item::Impl(im) if im.trait_.is_none() && im.items.is_empty()));
    for c in m.children.iter_mut() {
        drop_items(c, gone);
    }
}

// ------------------------------------------------------------------ at a call

struct Call {
    recv: Option<Expr>,
    args: Vec<Expr>,
}

fn as_call(e: &Expr, h: &Helper, caller_ty: &Option<String>) -> Option<Call> {
    match e {
        Expr::Paren(p) => as_call(&p.expr, h, caller_ty),
        Expr::Call(c) => {
            let p = match &*c.func {
                Expr::Path(p) if p.qself.is_none() => &p.path,
                _ => return None,
            };
            let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.last() != Some(&h.name) {
                return None;
            }
            match (&h.ty, segs.len()) {
                (None, 1) => {}
                (None, 2) if segs[0] == "self" => {}
                (Some(t), 2) if (segs[0] == "Self" && caller_ty.as_ref() == Some(t)) || segs[0] == *t => {}
                _ => return None,
            }
            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
            let recv = if h.recv.is_some() {
                if args.is_empty() {
                    return None;
                }
                Some(args.remove(0))
            } else {
                None
            };
            Some(Call { recv, args })
        }
        Expr::MethodCall(c) if c.method == h.name && h.recv.is_some() => {
            Some(Call { recv: Some((*c.receiver).clone()), args: c.args.iter().cloned().collect() })
        }
        _ => None,
    }
    .filter(|c| c.args.len() == h.params.len() && (!h.names.contains("Self") || h.ty == *caller_ty))
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(p) => p.qself.is_none() && p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}
fn is_ident(e: &Expr) -> bool {
    matches!(strip(e), Expr::Path(_)) && is_place(e)
}
fn root(e: &Expr) -> String {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(),
        Expr::Field(f) => root(&f.base),
        Expr::Reference(r) => root(&r.expr),
        _ => String::new(),
    }
}

/// a path to a constant or variant, or such a variant applied to names
fn is_ctor(e: &Expr, muts: &BTreeSet<String>) -> bool {
    match strip(e) {
        Expr::Path(p) => p.qself.is_none() && (p.path.segments.len() > 1 || p.path.is_ident("None")),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let l = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                l.chars().next().map_or(false, |c| c.is_uppercase())
                    && c.args.iter().all(|a| matches!(strip(a), Expr::Lit(_)) || (is_ident(a) && !muts.contains(&root(a))))
            }
            _ => false,
        },
        _ => false,
    }
}
fn uses(b: &Block, n: &str) -> usize {
    let mut c = BTreeMap::new();
    count_idents(b.to_token_stream(), &mut c);
    c.get(n).copied().unwrap_or(0)
}

#[derive(Clone)]
enum Arg {
    Same(Expr),        // the parameter is this expression
    Ref(bool, Expr),   // the parameter is & / &mut of this place
}

struct PatNames(BTreeSet<String>);
impl<'a> Visit<'a> for PatNames {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

/// the helper's body for this call: bindings to put in front, and the body block
fn instantiate(h: &Helper, c: &Call) -> Option<(Vec<Stmt>, Block)> {
    let mut body = h.body.clone();
    let mut pn = PatNames(BTreeSet::new());
    pn.visit_block(&body);
    let locals = pn.0;
    let mut in_macros = BTreeSet::new();
    struct Mac<'b>(&'b mut BTreeSet<String>);
    impl<'a, 'b> Visit<'a> for Mac<'b> {
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            idents(m.tokens.clone(), self.0);
        }
    }
    Mac(&mut in_macros).visit_block(&body);

    let mut sub: BTreeMap<String, Arg> = BTreeMap::new();
    let mut lets: Vec<(String, bool, Option<syn::Type>, Expr)> = vec![];
    let mut roots_mut: BTreeSet<String> = BTreeSet::new();
    let mut all: Vec<(String, bool, Option<syn::Type>, Expr)> = vec![];
    if let Some(r) = &h.recv {
        let e = c.recv.clone()?;
        if is_ident(&e) && root(&e) == "self" {
            if r.mutability.is_some() && r.reference.is_some() {
                roots_mut.insert("self".into());
            }
            if r.reference.is_none() && r.mutability.is_some() {
                return None; // `mut self`: the caller's `self` need not be mutable
            }
        } else {
            // the receiver of a method call is borrowed as the signature says
            let e: Expr = if let (Some(_), false) = (&r.reference, matches!(strip(&e), Expr::Reference(_))) {
                if !is_place(&e) {
                    return None;
                }
                if r.mutability.is_some() { parse_quote!(&mut #e) } else { parse_quote!(&#e) }
            } else {
                e
            };
            all.push(("self".into(), false, None, e));
        }
    }
    for ((n, m, t), e) in h.params.iter().zip(&c.args) {
        let t = if idents_of(t).is_disjoint(&h.generics) && !idents_of(t).contains("impl") { Some(t.clone()) } else { None };
        all.push((n.clone(), *m, t, e.clone()));
    }
    for (_, _, _, e) in &all {
        if let Expr::Reference(r) = strip(e) {
            if r.mutability.is_some() {
                roots_mut.insert(root(&r.expr));
            }
        }
    }
    for (n, m, t, e) in all {
        let plain = !m && (n == "self" || !locals.contains(&n)) && !in_macros.contains(&n);
        let s = strip(&e).clone();
        if plain && matches!(s, Expr::Lit(_)) {
            sub.insert(n, Arg::Same(s));
        } else if plain && is_ident(&s) && !roots_mut.contains(&root(&s)) {
            sub.insert(n, Arg::Same(s));
        } else if plain && is_place(&s) && roots_mut.is_empty() {
            sub.insert(n, Arg::Same(s));
        } else if plain && is_ctor(&s, &roots_mut) && (matches!(s, Expr::Path(_)) || uses(&body, &n) == 1) {
            sub.insert(n, Arg::Same(s));
        } else if let (true, Expr::Reference(r)) = (plain, &s) {
            let same_root = roots_mut.contains(&root(&r.expr)) && r.mutability.is_none();
            if is_place(&r.expr) && !same_root {
                sub.insert(n, Arg::Ref(r.mutability.is_some(), (*strip(&r.expr)).clone()));
            } else {
                lets.push((n, m, t, e));
            }
        } else if n == "self" {
            return None;
        } else {
            lets.push((n, m, t, e));
        }
    }
    // hygiene: rename helper locals that would capture a name used in an argument
    let mut argnames: BTreeSet<String> = BTreeSet::new();
    for a in sub.values() {
        match a {
            Arg::Same(e) | Arg::Ref(_, e) => argnames.extend(idents_of(e)),
        }
    }
    let mut ren: BTreeMap<String, String> = BTreeMap::new();
    for l in &locals {
        if argnames.contains(l) {
            if in_macros.contains(l) {
                return None;
            }
            ren.insert(l.clone(), format!("{}_h", l));
        }
    }
    for k in 0..lets.len() {
        let n = lets[k].0.clone();
        let own = !is_ident(&lets[k].3) && idents_of(&lets[k].3).contains(&n);
        let later = own || lets[k + 1..].iter().any(|x| idents_of(&x.3).contains(&n));
        if (argnames.contains(&n) || later) && !ren.contains_key(&n) {
            if in_macros.contains(&n) {
                return None;
            }
            ren.insert(n.clone(), format!("{}_h", n));
        }
    }
    if !ren.is_empty() {
        Rename(&ren).visit_block_mut(&mut body);
    }
    Subst(&sub).visit_block_mut(&mut body);
    let mut pre: Vec<Stmt> = vec![];
    for (n, m, t, e) in lets {
        let id = syn::Ident::new(ren.get(&n).unwrap_or(&n), Span::call_site());
        if !m && is_ident(&e) && root(&e) == id.to_string() {
            continue;
        }
        let mt = if m { quote::quote!(mut) } else { quote::quote!() };
        pre.push(match t {
            Some(t) => parse_quote!(let #mt #id: #t = #e;),
            None => parse_quote!(let #mt #id = #e;),
        });
    }
    Some((pre, body))
}

struct Rename<'b>(&'b BTreeMap<String, String>);
impl<'b> VisitMut for Rename<'b> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = syn::Ident::new(n, p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if let Some(n) = self.0.get(&i.to_string()) {
                let id = syn::Ident::new(n, i.span());
                p.path = id.into();
            }
        }
    }
}

struct Subst<'b>(&'b BTreeMap<String, Arg>);
impl<'b> Subst<'b> {
    fn get(&self, e: &Expr) -> Option<Arg> {
        match strip(e) {
            Expr::Path(p) if p.qself.is_none() => self.0.get(&p.path.get_ident()?.to_string()).cloned(),
            _ => None,
        }
    }
}
impl<'b> VisitMut for Subst<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(a) = self.get(e) {
            *e = match a {
                Arg::Same(x) => x,
                Arg::Ref(false, x) => parse_quote!(&#x),
                Arg::Ref(true, x) => parse_quote!(&mut #x),
            };
            return;
        }
        match e {
            Expr::MethodCall(c) => {
                if let Some(Arg::Ref(_, x)) = self.get(&c.receiver) {
                    c.receiver = Box::new(x);
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Field(c) => {
                if let Some(Arg::Ref(_, x)) = self.get(&c.base) {
                    c.base = Box::new(x);
                    return;
                }
            }
            Expr::Index(c) => {
                if let Some(Arg::Ref(_, x)) = self.get(&c.expr) {
                    c.expr = Box::new(x);
                    self.visit_expr_mut(&mut c.index);
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if let Some(Arg::Ref(_, x)) = self.get(&u.expr) {
                    *e = x;
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() && self.get(&f.expr).is_some() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}

// ------------------------------------------------------------------ returns

struct Rets {
    ret: bool,
    question: bool,
}
impl<'a> Visit<'a> for Rets {
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        self.ret = true;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.question = true;
        visit::visit_expr_try(self, t);
    }
}
fn rets_b(b: &Block) -> Rets {
    let mut r = Rets { ret: false, question: false };
    r.visit_block(b);
    r
}
fn rets_s(s: &Stmt) -> Rets {
    let mut r = Rets { ret: false, question: false };
    r.visit_stmt(s);
    r
}

/// `return`s that end the body become its value; None if one of them is not in such a place
fn value_block(b: &Block) -> Option<Block> {
    let r = rets_b(b);
    if r.question {
        return None;
    }
    if !r.ret {
        return Some(b.clone());
    }
    let mut out: Vec<Stmt> = vec![];
    let n = b.stmts.len();
    for (k, s) in b.stmts.iter().enumerate() {
        if !rets_s(s).ret {
            out.push(s.clone());
            continue;
        }
        let e = match s {
            Stmt::Expr(e, _) => e,
            _ => return None,
        };
        let last = k + 1 == n;
        match e {
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    let mut t = Rets { ret: false, question: false };
                    t.visit_expr(x);
                    if t.ret {
                        return None;
                    }
                    out.push(Stmt::Expr((**x).clone(), None));
                }
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Expr::If(i) => {
                let mut t = Rets { ret: false, question: false };
                t.visit_expr(&i.cond);
                if t.ret {
                    return None;
                }
                let rest = Block { brace_token: b.brace_token, stmts: b.stmts[k + 1..].to_vec() };
                let els: Block = match &i.else_branch {
                    None => rest.clone(),
                    Some((_, x)) => {
                        let mut eb: Block = match &**x {
                            Expr::Block(x) => x.block.clone(),
                            x => parse_quote!({ #x }),
                        };
                        if !last {
                            if ends(&eb) {
                            } else {
                                semi(&mut eb);
                                eb.stmts.extend(rest.stmts.clone());
                            }
                        }
                        eb
                    }
                };
                let mut then = i.then_branch.clone();
                if !ends(&then) && !last {
                    // falls through: the rest follows on both ways only if one of them leaves
                    match &i.else_branch {
                        Some((_, x)) => {
                            let eb: Block = match &**x {
                                Expr::Block(x) => x.block.clone(),
                                x => parse_quote!({ #x }),
                            };
                            if !ends(&eb) {
                                return None;
                            }
                            semi(&mut then);
                            then.stmts.extend(rest.stmts.clone());
                        }
                        None => return None,
                    }
                }
                let (t, f) = (value_block(&then)?, value_block(&els)?);
                let c = &i.cond;
                let x: Expr = if f.stmts.is_empty() {
                    parse_quote!(if #c #t)
                } else {
                    parse_quote!(if #c #t else #f)
                };
                out.push(Stmt::Expr(x, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Expr::Match(m) if last => {
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let blk: Block = match &*a.body {
                        Expr::Block(x) => x.block.clone(),
                        x => parse_quote!({ #x }),
                    };
                    let v = value_block(&blk)?;
                    a.body = Box::new(unblock(v));
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Expr::Loop(l) if last => {
                out.push(Stmt::Expr(value_loop(l)?, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            _ => return None,
        }
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}
/// a loop left by `return x` only, which becomes `break x`
fn value_loop(l: &syn::ExprLoop) -> Option<Expr> {
    struct Q {
        ok: bool,
        depth: usize,
    }
    impl VisitMut for Q {
        fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                    self.depth += 1;
                    visit_mut::visit_expr_mut(self, e);
                    self.depth -= 1;
                }
                Expr::Break(_) if self.depth == 0 => self.ok = false,
                Expr::Return(r) => {
                    if self.depth > 0 {
                        self.ok = false;
                    }
                    *e = match &r.expr {
                        Some(x) => parse_quote!(break #x),
                        None => parse_quote!(break),
                    };
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut l = l.clone();
    let mut q = Q { ok: l.label.is_none(), depth: 0 };
    for s in l.body.stmts.iter_mut() {
        q.visit_stmt_mut(s);
    }
    if q.ok { Some(Expr::Loop(l)) } else { None }
}
fn unblock(b: Block) -> Expr {
    if let [Stmt::Expr(e, None)] = &b.stmts[..] {
        return e.clone();
    }
    parse_quote!(#b)
}
fn semi(b: &mut Block) {
    if let Some(Stmt::Expr(_, s)) = b.stmts.last_mut() {
        if s.is_none() {
            *s = Some(Default::default());
        }
    }
}
/// control never leaves the block at its end
fn ends(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => ends_e(e),
        _ => false,
    }
}
fn ends_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::If(i) => ends(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, x)| ends_e(x)),
        Expr::Block(b) => ends(&b.block),
        Expr::Match(m) => m.arms.iter().all(|a| ends_e(&a.body)),
        _ => false,
    }
}

/// `match e { Some(x) => x, None => return None }` and the like
fn is_question(m: &syn::ExprMatch) -> bool {
    let mut got = (false, false);
    for a in &m.arms {
        if a.guard.is_some() {
            return false;
        }
        let p = squash(&a.pat.to_token_stream().to_string());
        let b = squash(&a.body.to_token_stream().to_string());
        let inner = |k: &str| p.strip_prefix(k).and_then(|x| x.strip_suffix(')')).map(|x| x.to_string());
        if let Some(x) = inner("Some(").or_else(|| inner("Ok(")) {
            got.0 = b == x;
        } else if p == "None" {
            got.1 = b == "returnNone";
        } else if let Some(x) = inner("Err(") {
            got.1 = b == format!("returnErr({})", x);
        } else {
            return false;
        }
    }
    m.arms.len() == 2 && got.0 && got.1
}

/// a loop left by `return Some(x)` / `return None` only: `Some(x)` becomes `break x`
fn question_loop(l: &syn::ExprLoop) -> Option<Expr> {
    struct Q {
        ok: bool,
        depth: usize,
    }
    impl VisitMut for Q {
        fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                    self.depth += 1;
                    visit_mut::visit_expr_mut(self, e);
                    self.depth -= 1;
                }
                Expr::Break(b) => {
                    if self.depth == 0 || b.label.is_some() {
                        self.ok = false;
                    }
                }
                Expr::Return(r) => {
                    let x = match &r.expr {
                        Some(x) => (**x).clone(),
                        None => {
                            self.ok = false;
                            return;
                        }
                    };
                    if fails(&x) {
                        return;
                    }
                    match strip(&x) {
                        Expr::Call(c)
                            if self.depth == 0
                                && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok") || p.path.is_ident("Some")) =>
                        {
                            let a = c.args.first().cloned();
                            match a {
                                Some(Expr::Tuple(t)) if t.elems.is_empty() => *e = parse_quote!(break),
                                Some(a) => *e = parse_quote!(break #a),
                                None => self.ok = false,
                            }
                        }
                        _ => self.ok = false,
                    }
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut l = l.clone();
    if l.label.is_some() {
        return None;
    }
    let mut q = Q { ok: true, depth: 0 };
    for s in l.body.stmts.iter_mut() {
        q.visit_stmt_mut(s);
    }
    if q.ok { Some(Expr::Loop(l)) } else { None }
}

/// the body of a helper called as `helper(..)?`
fn question_block(b: &Block) -> Option<Block> {
    let mut out = b.clone();
    let tail = match out.stmts.pop() {
        Some(Stmt::Expr(e, None)) => e,
        Some(Stmt::Expr(Expr::Return(r), Some(_))) => *r.expr?,
        _ => return None,
    };
    for s in &out.stmts {
        struct Ok1(bool);
        impl<'a> Visit<'a> for Ok1 {
            fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
            fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
                if !r.expr.as_ref().map_or(false, |e| fails(e)) {
                    self.0 = false;
                }
            }
        }
        let mut o = Ok1(true);
        o.visit_stmt(s);
        if !o.0 {
            return None;
        }
    }
    match question_tail(&tail)? {
        None => {}
        Some(e) => out.stmts.push(Stmt::Expr(e, None)),
    }
    Some(out)
}
fn fails(e: &Expr) -> bool {
    match strip(e) {
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")),
        Expr::Path(p) => p.path.is_ident("None"),
        _ => false,
    }
}
fn question_tail(e: &Expr) -> Option<Option<Expr>> {
    match strip(e) {
        Expr::Return(r) => question_tail(r.expr.as_ref()?),
        x if fails(x) => Some(Some(parse_quote!(return #x))),
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok") || p.path.is_ident("Some")) => {
            let a = c.args.first()?;
            if matches!(a, Expr::Tuple(t) if t.elems.is_empty()) {
                Some(None)
            } else {
                Some(Some(a.clone()))
            }
        }
        Expr::If(i) => {
            let t = question_block(&i.then_branch)?;
            let (_, x) = i.else_branch.as_ref()?;
            let f: Block = match &**x {
                Expr::Block(x) => question_block(&x.block)?,
                x => question_block(&parse_quote!({ #x }))?,
            };
            let c = &i.cond;
            Some(Some(if f.stmts.is_empty() { parse_quote!(if #c #t) } else { parse_quote!(if #c #t else #f) }))
        }
        Expr::Block(b) => {
            let b = question_block(&b.block)?;
            Some(Some(parse_quote!(#b)))
        }
        Expr::Loop(l) => Some(Some(question_loop(l)?)),
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                let blk: Block = match &*a.body {
                    Expr::Block(x) => x.block.clone(),
                    x => parse_quote!({ #x }),
                };
                a.body = Box::new(unblock(question_block(&blk)?));
                a.comma = Some(Default::default());
            }
            Some(Some(Expr::Match(m)))
        }
        x => {
            let mut t = Rets { ret: false, question: false };
            t.visit_expr(x);
            if t.ret {
                return None;
            }
            Some(Some(parse_quote!(#x?)))
        }
    }
}

// ------------------------------------------------------------------ the caller

fn rewrite_fn(b: &mut Block, h: &Helper, ty: Option<String>, n: &mut usize) {
    let mut w = Walk { h, ty, n: 0 };
    w.block(b, true);
    *n += w.n;
}

struct Walk<'b> {
    h: &'b Helper,
    ty: Option<String>,
    n: usize,
}

enum Mode {
    Tail,
    Question,
    Value,
}

impl<'b> Walk<'b> {
    fn body(&mut self, e: &Expr, mode: Mode) -> Option<(Vec<Stmt>, Block)> {
        let c = as_call(e, self.h, &self.ty)?;
        let (pre, b) = instantiate(self.h, &c)?;
        let b = match mode {
            Mode::Tail => b,
            Mode::Question => question_block(&b)?,
            Mode::Value => value_block(&b)?,
        };
        self.n += 1;
        Some((pre, b))
    }
    fn any(&mut self, e: &Expr) -> Option<(Vec<Stmt>, Block)> {
        match strip(e) {
            Expr::Try(t) => self.body(&t.expr, Mode::Question),
            Expr::Match(m) if is_question(m) => self.body(&m.expr, Mode::Question),
            e => self.body(e, Mode::Value),
        }
    }
    /// names bound by the statements put in front of what follows, and used there
    fn clash(stmts: &[Stmt], rest: &[Stmt]) -> bool {
        let mut pn = PatNames(BTreeSet::new());
        for s in stmts {
            if let Stmt::Local(l) = s {
                pn.visit_pat(&l.pat);
            }
        }
        let mut used = BTreeSet::new();
        for s in rest {
            used.extend(idents_of(s));
        }
        !pn.0.is_disjoint(&used)
    }
    fn block(&mut self, b: &mut Block, tail: bool) {
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out: Vec<Stmt> = vec![];
        for (k, s) in stmts.iter().enumerate() {
            let rest = &stmts[k + 1..];
            let last = k + 1 == n;
            match s {
                Stmt::Local(l) if l.init.as_ref().map_or(false, |i| i.diverge.is_none()) => {
                    let e = (*l.init.as_ref().unwrap().expr).clone();
                    if let Some((pre, mut v)) = self.any(&e) {
                        let mut all = pre;
                        let t = match v.stmts.pop() {
                            Some(Stmt::Expr(t, None)) => Some(t),
                            Some(x) => {
                                v.stmts.push(x);
                                None
                            }
                            None => None,
                        };
                        all.extend(v.stmts);
                        let t: Expr = t.unwrap_or_else(|| parse_quote!(()));
                        let mut own = PatNames(BTreeSet::new());
                        own.visit_pat(&l.pat);
                        let mut l2 = l.clone();
                        if Self::clash(&all, rest) && !(all.len() > 0 && only_own(&all, rest, &own.0)) {
                            l2.init.as_mut().unwrap().expr = Box::new(parse_quote!({ #(#all)* #t }));
                            out.push(Stmt::Local(l2));
                        } else {
                            out.extend(all);
                            let same = is_ident(&t)
                                && matches!(&l.pat, Pat::Ident(p) if p.by_ref.is_none() && p.mutability.is_none() && p.ident == root(&t));
                            if !same {
                                l2.init.as_mut().unwrap().expr = Box::new(t);
                                out.push(Stmt::Local(l2));
                            }
                        }
                        continue;
                    }
                }
                Stmt::Expr(e, sm) => {
                    // tail call: the helper's returns are the caller's
                    let (call, is_tail) = match strip(e) {
                        Expr::Return(r) if r.expr.is_some() => (strip(r.expr.as_ref().unwrap()).clone(), true),
                        x => (x.clone(), tail && last && sm.is_none()),
                    };
                    if is_tail {
                        if let Some((pre, v)) = self.body(&call, Mode::Tail) {
                            let mut v = v;
                            if !last || !tail || sm.is_some() || matches!(strip(e), Expr::Return(_)) {
                                // `return helper(..);`: the value has to be returned
                                v = match v.stmts.last() {
                                    Some(Stmt::Expr(Expr::Return(_), _)) => v,
                                    Some(Stmt::Expr(x, None)) if !(tail && last) => {
                                        let x = x.clone();
                                        v.stmts.pop();
                                        v.stmts.push(parse_quote!(return #x;));
                                        v
                                    }
                                    _ => v,
                                };
                            }
                            out.extend(pre);
                            out.extend(v.stmts);
                            continue;
                        }
                    }
                    if sm.is_some() || (last && matches!(strip(e), Expr::Try(_) | Expr::Call(_) | Expr::MethodCall(_))) {
                        if !matches!(strip(e), Expr::Return(_)) {
                            if let Some((pre, mut v)) = self.any(e) {
                                if sm.is_some() {
                                    semi(&mut v);
                                }
                                let mut all = pre;
                                all.extend(v.stmts);
                                if Self::clash(&all, rest) {
                                    out.push(Stmt::Expr(parse_quote!({ #(#all)* }), None));
                                } else {
                                    out.extend(all);
                                }
                                continue;
                            }
                        }
                    }
                    if let (Expr::Assign(a), true) = (strip(e), sm.is_some()) {
                        if is_place(&a.left) {
                            if let Some((pre, mut v)) = self.any(&a.right) {
                                let t = match v.stmts.pop() {
                                    Some(Stmt::Expr(t, None)) => t,
                                    Some(x) => {
                                        v.stmts.push(x);
                                        parse_quote!(())
                                    }
                                    None => parse_quote!(()),
                                };
                                let mut all = pre;
                                all.extend(v.stmts);
                                let left = &a.left;
                                if Self::clash(&all, rest) || Self::clash(&all, &[parse_quote!(#left;)]) {
                                    out.push(parse_quote!(#left = { #(#all)* #t };));
                                } else {
                                    out.extend(all);
                                    out.push(parse_quote!(#left = #t;));
                                }
                                continue;
                            }
                        }
                    }
                }
                _ => {}
            }
            let mut s = s.clone();
            self.stmt(&mut s, tail && last);
            out.push(s);
        }
        b.stmts = out;
    }
    fn stmt(&mut self, s: &mut Stmt, tail: bool) {
        match s {
            Stmt::Expr(e, sm) => {
                let t = tail && sm.is_none();
                self.expr(e, t)
            }
            Stmt::Local(l) => {
                if let Some(i) = l.init.as_mut() {
                    self.expr(&mut i.expr, false);
                    if let Some((_, d)) = i.diverge.as_mut() {
                        self.expr(d, false);
                    }
                }
            }
            _ => {}
        }
    }
    fn expr(&mut self, e: &mut Expr, tail: bool) {
        match e {
            Expr::If(i) => {
                self.expr(&mut i.cond, false);
                bare(&mut i.cond);
                self.block(&mut i.then_branch, tail);
                if let Some((_, x)) = i.else_branch.as_mut() {
                    self.expr(x, tail);
                }
                return;
            }
            Expr::Block(b) => {
                self.block(&mut b.block, tail);
                return;
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr, false);
                bare(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = a.guard.as_mut() {
                        self.expr(g, false);
                    }
                    if tail {
                        if let Some((pre, v)) = self.body(&a.body.clone(), Mode::Tail) {
                            let s = v.stmts;
                            a.body = Box::new(parse_quote!({ #(#pre)* #(#s)* }));
                            continue;
                        }
                    }
                    if let Expr::Return(r) = strip(&a.body) {
                        if let Some(x) = &r.expr {
                            let x = (**x).clone();
                            if let Some((pre, mut v)) = self.body(&x, Mode::Tail) {
                                if let Some(Stmt::Expr(t, None)) = v.stmts.last().cloned() {
                                    if !matches!(t, Expr::Return(_)) {
                                        v.stmts.pop();
                                        v.stmts.push(parse_quote!(return #t;));
                                    }
                                }
                                let s = v.stmts;
                                a.body = Box::new(parse_quote!({ #(#pre)* #(#s)* }));
                                continue;
                            }
                        }
                    }
                    self.expr(&mut a.body, tail);
                }
                return;
            }
            Expr::While(w) => {
                self.expr(&mut w.cond, false);
                bare(&mut w.cond);
                self.block(&mut w.body, false);
                return;
            }
            Expr::ForLoop(w) => {
                self.expr(&mut w.expr, false);
                self.block(&mut w.body, false);
                return;
            }
            Expr::Loop(w) => {
                self.block(&mut w.body, false);
                return;
            }
            Expr::Paren(p) => {
                self.expr(&mut p.expr, tail);
                return;
            }
            _ => {}
        }
        // inside a larger expression
        let inner = match e {
            Expr::Try(t) => {
                let c = (*t.expr).clone();
                self.body(&c, Mode::Question)
            }
            Expr::Call(_) | Expr::MethodCall(_) => self.body(&e.clone(), Mode::Value),
            _ => None,
        };
        if let Some((pre, v)) = inner {
            let s = v.stmts;
            *e = if pre.is_empty() && s.len() == 1 {
                match &s[0] {
                    Stmt::Expr(x, None) => paren(x),
                    x => parse_quote!({ #x }),
                }
            } else {
                parse_quote!({ #(#pre)* #(#s)* })
            };
            return;
        }
        struct Sub<'a, 'b>(&'a mut Walk<'b>);
        impl<'a, 'b> VisitMut for Sub<'a, 'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                self.0.expr(e, false);
            }
            fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
                // `?` and tail returns would leave the closure instead
                let mut v = ClosureSub(self.0);
                v.visit_expr_mut(&mut c.body);
            }
            fn visit_block_mut(&mut self, b: &mut Block) {
                self.0.block(b, false);
            }
        }
        struct ClosureSub<'a, 'b>(&'a mut Walk<'b>);
        impl<'a, 'b> VisitMut for ClosureSub<'a, 'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if matches!(e, Expr::Call(_) | Expr::MethodCall(_)) {
                    if let Some((pre, v)) = self.0.body(&e.clone(), Mode::Value) {
                        let s = v.stmts;
                        *e = if pre.is_empty() && s.len() == 1 {
                            match &s[0] {
                                Stmt::Expr(x, None) => paren(x),
                                x => parse_quote!({ #x }),
                            }
                        } else {
                            parse_quote!({ #(#pre)* #(#s)* })
                        };
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        visit_mut::visit_expr_mut(&mut Sub(self), e);
    }
}

fn only_own(all: &[Stmt], rest: &[Stmt], own: &BTreeSet<String>) -> bool {
    // every name of `all` used in `rest` is rebound by the `let` itself
    let mut pn = PatNames(BTreeSet::new());
    for s in all {
        if let Stmt::Local(l) = s {
            pn.visit_pat(&l.pat);
        }
    }
    let mut used = BTreeSet::new();
    for s in rest {
        used.extend(idents_of(s));
    }
    pn.0.intersection(&used).all(|n| own.contains(n))
}

fn paren(x: &Expr) -> Expr {
    match x {
        Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_) | Expr::Lit(_) | Expr::Paren(_) => {
            x.clone()
        }
        x => parse_quote!((#x)),
    }
}
fn bare(x: &mut Expr) {
    if let Expr::Paren(p) = x {
        if matches!(&*p.expr, Expr::Binary(_) | Expr::Unary(_) | Expr::Reference(_)) {
            *x = (*p.expr).clone();
        }
    }
}
