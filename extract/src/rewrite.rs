//! Function rewriting: the only place that touches executable code.
use crate::overlay::{squash, FnSpec, Overlay};
use proc_macro2::{Literal, Span, TokenStream};
use quote::{quote, ToTokens};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

/// methods of std containers replaced by contract-carrying wrappers of the same method (contracts/00_vx.rs); the methods
/// of iterators are those of SeqIter, under their own names
pub const RENAME: &[&str] =
    &["iter", "into_iter", "contains", "to_vec", "reverse", "rotate_right", "rotate_left", "retain", "extend", "all"];

#[derive(Default, Clone)]
pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub contract: bool,
    pub props: Vec<String>,
    pub loops: usize,
    pub kinds: Vec<String>,
    pub closures: usize,
    pub bindings: Vec<String>,
    pub external: bool,
    pub rules: BTreeSet<String>,
    pub sig: String,
    pub trait_impl: bool,
}

impl FnInfo {
    pub fn new(key: String, file: &str, line: usize) -> Self {
        FnInfo { key: squash(&key), file: file.to_string(), line, ..Default::default() }
    }
}

pub struct Ctx {
    pub ov: Overlay,
    pub raws: Rc<RefCell<Vec<String>>>,
    pub fns: Vec<FnInfo>,
    pub lost: Vec<String>,
    pub notes: Vec<String>,
    pub inlined: Vec<String>,
    pub probe: bool,
    /// functions whose body the verifier does not take: only their contract is kept
    pub skip: BTreeSet<String>,
    pub baseline: Option<serde_json::Value>,
    /// names whose every function in the crate gives an Option
    pub options: BTreeSet<String>,
}

impl Ctx {
    pub fn new(ov: Overlay, probe: bool, baseline: Option<serde_json::Value>) -> Self {
        Ctx {
            ov,
            raws: Rc::new(RefCell::new(vec![])),
            fns: vec![],
            lost: vec![],
            notes: vec![],
            inlined: vec![],
            probe,
            skip: Default::default(),
            baseline,
            options: Default::default(),
        }
    }
    pub fn note(&mut self, s: &str) {
        self.notes.push(s.to_string());
    }
    fn raw_n(&mut self, text: &str) -> Literal {
        let mut r = self.raws.borrow_mut();
        r.push(text.to_string());
        Literal::usize_unsuffixed(r.len() - 1)
    }
    pub fn raw(&mut self, text: &str) -> TokenStream {
        let n = self.raw_n(text);
        quote!(vx_raw!(#n);)
    }
    fn raw_stmt(&mut self, text: &str) -> Stmt {
        let n = self.raw_n(text);
        parse_quote!(vx_raw!(#n);)
    }
    fn hoist_stmt(&mut self, text: &str) -> Stmt {
        let n = self.raw_n(text);
        parse_quote!(vx_hoist!(#n);)
    }

    fn baseline_bindings(&self, key: &str) -> Option<Vec<String>> {
        let b = self.baseline.as_ref()?;
        for f in b["functions"].as_array()? {
            if f["key"] == key {
                return f["bindings"]
                    .as_array()
                    .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect());
            }
        }
        None
    }

    pub fn emit_fn(&mut self, mut sig: syn::Signature, body: Option<Block>, mut info: FnInfo, make_pub: bool) -> TokenStream {
        let idx = self.fns.len();
        self.fns.push(info.clone());
        info.sig = squash(&sig.to_token_stream().to_string());
        // binders in source order
        let mut bc = Binders::default();
        for a in sig.inputs.iter_mut() {
            if let syn::FnArg::Typed(t) = a {
                bc.visit_pat_mut(&mut t.pat);
            }
        }
        let mut body = body;
        if let Some(b) = body.as_mut() {
            bc.visit_block_mut(b);
        }
        info.bindings = bc.names;
        let mut spec = match self.ov.fns.get_mut(&info.key) {
            Some(s) => {
                s.used = true;
                info.contract = true;
                s.clone()
            }
            None => FnSpec { key: info.key.clone(), ..Default::default() },
        };
        info.props = spec.props.clone();
        if info.contract {
            if let Some(base) = self.baseline_bindings(&info.key) {
                let map = renamed(&base, &info.bindings);
                if !map.is_empty() {
                    rename_spec(&mut spec, &map);
                    info.rules.insert("overlay-renamed".into());
                }
            }
        }
        // signature
        let mut trw = TypeRw { rules: Default::default() };
        trw.visit_signature_mut(&mut sig);
        let name = sig.ident.to_string();
        if name == "try_from" {
            sig.ident = syn::Ident::new("vx_try_from", Span::call_site());
            trw.rules.insert("R10".into());
        } else if RENAME.contains(&name.as_str()) {
            sig.ident = syn::Ident::new(&format!("vx_{}", name), Span::call_site());
        }
        info.rules.extend(trw.rules);
        if let Some((n, t)) = &spec.ghost_param {
            let n = syn::Ident::new(n, Span::call_site());
            let t: syn::Type = syn::parse_str(t).expect("ghost_param type");
            sig.inputs.push(parse_quote!(Ghost(#n): Ghost<#t>));
            info.rules.insert("R11".into());
        }
        let unit = matches!(sig.output, syn::ReturnType::Default);
        let opt = match &sig.output { syn::ReturnType::Type(_, t) => squash(&t.to_token_stream().to_string()).starts_with("Option<"), _ => false };
        let ret = match &sig.output {
            syn::ReturnType::Type(_, t) if !t.to_token_stream().to_string().contains("impl ") => Some((**t).clone()),
            _ => None,
        };
        if !info.contract && body.is_some() {
            // no contract: termination is not claimed for this function (reported as uncontracted)
            spec.attr.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
        }
        let skipped = body.is_some() && self.skip.contains(&info.key);
        if skipped {
            spec.attr.push_str("#[verifier::external_body]\n");
        }
        let attr = if spec.attr.is_empty() { quote!() } else { self.raw(&spec.attr.clone()) };
        info.external = spec.attr.contains("external_body");

        let body_tokens = match body {
            None => {
                let s = spec.spec.clone();
                let r = self.raw(&s);
                quote!(#r ;)
            }
            Some(_) if skipped => {
                let h = self.hoist_stmt(&spec.spec);
                let b: Block = parse_quote!({ #h unimplemented!() });
                b.to_token_stream()
            }
            Some(mut b) => {
                let anchors = spec
                    .anchors
                    .iter()
                    .map(|(k, t)| Anchor::parse(k, t))
                    .collect::<Vec<_>>();
                let mut rw = Rw {
                    ctx: self,
                    spec: spec.clone(),
                    anchors,
                    nloops: 0,
                    nclosures: 0,
                    neaten: 0,
                    ntmp: 0,
                    loop_stack: vec![],
                    closure_depth: 0,
                    rules: Default::default(),
                    key: info.key.clone(),
                    unit,
                    opt,
                    ret,
                    kinds: Default::default(),
                    its: Default::default(),
                };
                rw.visit_block_mut(&mut b);
                rw.wrap_exit(&mut b);
                let start = rw.anchor_text(&AKind::Start);
                info.loops = rw.nloops;
                info.kinds = std::mem::take(&mut rw.kinds).into_values().collect();
                let (nclosures, neaten) = (rw.nclosures, rw.neaten);
                info.closures = nclosures + neaten;
                let rules = std::mem::take(&mut rw.rules);
                info.rules.extend(rules);
                let lost: Vec<String> = rw
                    .anchors
                    .iter()
                    .filter(|a| a.used == 0)
                    .map(|a| format!("{}: {}", info.key, a.text_kind))
                    .collect();
                self.lost.extend(lost);
                for k in spec.loops.keys() {
                    if *k >= info.loops {
                        self.lost.push(format!("{}: loop {}", info.key, k));
                    }
                }
                for k in spec.closures.keys() {
                    if *k >= nclosures {
                        self.lost.push(format!("{}: closure {}", info.key, k));
                    }
                }
                let mut pre: Vec<Stmt> = vec![self.hoist_stmt(&spec.spec)];
                if let Some(t) = start {
                    pre.push(self.raw_stmt(&t));
                }
                if self.probe && info.contract && !info.external {
                    pre.push(self.raw_stmt("assert(false);\n"));
                }
                pre.append(&mut b.stmts);
                b.stmts = pre;
                b.to_token_stream()
            }
        };
        let vis = if make_pub { quote!(pub) } else { quote!() };
        let syn::Signature { ident, generics, inputs, output, .. } = &sig;
        let wc = &generics.where_clause;
        let ret = spec.ret.clone().unwrap_or_else(|| "r".to_string());
        let out = match output {
            syn::ReturnType::Default => quote!(),
            syn::ReturnType::Type(_, t) => {
                if matches!(**t, syn::Type::Never(_)) {
                    quote!(-> #t)
                } else {
                    let r = syn::Ident::new(&ret, Span::call_site());
                    quote!(-> (#r: #t))
                }
            }
        };
        self.fns[idx] = info;
        let k = Literal::usize_unsuffixed(idx);
        quote!(vx_mark_begin!(#k) #attr #vis fn #ident #generics (#inputs) #out #wc #body_tokens vx_mark_end!(#k))
    }
}

// ---------------------------------------------------------------- overlay renaming

/// names that are gone, each with the new name in its place; names still in use stand for themselves
fn renamed(from: &[String], to: &[String]) -> BTreeMap<String, String> {
    let only = |x: &[String], y: &[String]| -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for n in x {
            if !y.contains(n) && !v.contains(n) {
                v.push(n.clone());
            }
        }
        v
    };
    let (gone, fresh) = (only(from, to), only(to, from));
    if gone.len() == fresh.len() {
        return gone.into_iter().zip(fresh).collect();
    }
    let mut map = BTreeMap::new();
    if from.len() == to.len() {
        for (a, b) in from.iter().zip(to) {
            if gone.contains(a) && fresh.contains(b) {
                map.entry(a.clone()).or_insert_with(|| b.clone());
            }
        }
    }
    map
}

fn rename_spec(s: &mut FnSpec, map: &BTreeMap<String, String>) {
    let f = |t: &str| rename_words(t, map);
    s.spec = f(&s.spec);
    for v in s.loops.values_mut() {
        *v = f(v);
    }
    for v in s.closures.values_mut() {
        v.0 = f(&v.0);
        v.1 = f(&v.1);
    }
    for a in s.anchors.iter_mut() {
        a.0 = match a.0.find('"') {
            Some(i) => format!("{}{}", &a.0[..i], f(&a.0[i..])),
            None => a.0.clone(),
        };
        a.1 = f(&a.1);
    }
}

fn rename_words(t: &str, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut w = String::new();
    let mut prev = ' ';
    let mut start_prev = ' ';
    for c in t.chars().chain(std::iter::once('\n')) {
        if c.is_alphanumeric() || c == '_' {
            if w.is_empty() {
                start_prev = prev;
            }
            w.push(c);
        } else {
            if !w.is_empty() {
                // a field or method name (after '.') is not a binder
                match map.get(&w) {
                    Some(n) if start_prev != '.' => out.push_str(n),
                    _ => out.push_str(&w),
                }
                w.clear();
            }
            out.push(c);
        }
        prev = c;
    }
    out.pop();
    out
}

#[derive(Default)]
struct Binders {
    names: Vec<String>,
}
impl VisitMut for Binders {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            let n = i.ident.to_string();
            if !n.chars().next().map_or(false, |c| c.is_uppercase()) {
                self.names.push(n);
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

// ---------------------------------------------------------------- types

pub struct TypeRw {
    pub rules: BTreeSet<String>,
}

fn iter_bound(bounds: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::token::Plus>) -> Option<(syn::Lifetime, syn::Type)> {
    let mut lt: syn::Lifetime = syn::Lifetime::new("'static", Span::call_site());
    let mut item = None;
    for b in bounds {
        match b {
            syn::TypeParamBound::Lifetime(l) => lt = l.clone(),
            syn::TypeParamBound::Trait(t) => {
                let s = t.path.segments.last().unwrap();
                if s.ident == "Iterator" {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                        for g in &a.args {
                            if let syn::GenericArgument::AssocType(at) = g {
                                if at.ident == "Item" {
                                    item = Some(at.ty.clone());
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    item.map(|t| (lt, t))
}

impl VisitMut for TypeRw {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        let mut new = None;
        if let syn::Type::Path(p) = t {
            let s = p.path.segments.last().unwrap();
            if s.ident == "Box" {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(syn::GenericArgument::Type(syn::Type::TraitObject(o))) = a.args.first() {
                        if let Some((lt, it)) = iter_bound(&o.bounds) {
                            new = Some(parse_quote!(SeqIter<#lt, #it>));
                        }
                    }
                }
            }
        }
        if let syn::Type::ImplTrait(o) = t {
            if let Some((lt, it)) = iter_bound(&o.bounds) {
                new = Some(parse_quote!(SeqIter<#lt, #it>));
            }
        }
        if let Some(n) = new {
            *t = n;
            self.rules.insert("R3".into());
        }
    }
    fn visit_type_param_bound_mut(&mut self, b: &mut syn::TypeParamBound) {
        visit_mut::visit_type_param_bound_mut(self, b);
    }
}

pub struct SelfItem {
    pub ty: syn::Type,
}
impl VisitMut for SelfItem {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if squash(&t.to_token_stream().to_string()) == "Self::Item" {
            *t = self.ty.clone();
        }
    }
}

// ---------------------------------------------------------------- function bodies

#[derive(PartialEq, Clone, Debug)]
enum AKind {
    Start,
    Exit,
    LoopBefore(usize),
    LoopStart(usize),
    LoopEnd(usize),
    LoopAfter(usize),
    Before(usize, String),
    After(usize, String),
}

struct Anchor {
    kind: AKind,
    text_kind: String,
    text: String,
    used: usize,
    seen: usize,
}

impl Anchor {
    fn parse(k: &str, text: &str) -> Anchor {
        let (d, rest) = k.split_once(' ').unwrap_or((k, ""));
        let num = || rest.trim().parse::<usize>().unwrap_or_else(|_| crate::fail(&format!("anchor {}", k)));
        let pat = || {
            let (n, p) = rest.split_once(' ').unwrap_or_else(|| crate::fail(&format!("anchor {}", k)));
            let p = p.trim();
            (n.parse::<usize>().unwrap(), squash(p.trim_start_matches('"').trim_end_matches('"')))
        };
        let kind = match d {
            "start" => AKind::Start,
            "exit" => AKind::Exit,
            "loop_before" => AKind::LoopBefore(num()),
            "loop_start" => AKind::LoopStart(num()),
            "loop_end" => AKind::LoopEnd(num()),
            "loop_after" => AKind::LoopAfter(num()),
            "before" => {
                let (n, p) = pat();
                AKind::Before(n, p)
            }
            "after" => {
                let (n, p) = pat();
                AKind::After(n, p)
            }
            _ => crate::fail(&format!("anchor {}", k)),
        };
        Anchor { kind, text_kind: k.to_string(), text: text.to_string(), used: 0, seen: 0 }
    }
}

struct Rw<'c> {
    ctx: &'c mut Ctx,
    spec: FnSpec,
    anchors: Vec<Anchor>,
    nloops: usize,
    nclosures: usize,
    neaten: usize,
    ntmp: usize,
    loop_stack: Vec<usize>,
    closure_depth: usize,
    rules: BTreeSet<String>,
    key: String,
    unit: bool,
    opt: bool,
    /// the return type, where a `let` may name it
    ret: Option<syn::Type>,
    /// what each loop is: for, range, while, loop
    kinds: BTreeMap<usize, String>,
    /// the iterator of a loop that names its own
    its: BTreeMap<usize, String>,
}

fn block_like(e: &Expr) -> bool {
    matches!(
        e,
        Expr::If(_) | Expr::Match(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Block(_) | Expr::Unsafe(_)
    )
}

fn diverges(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(Expr::Return(_), _) => true,
        Stmt::Expr(Expr::Break(_), _) | Stmt::Expr(Expr::Continue(_), _) => true,
        Stmt::Expr(Expr::Call(c), _) => squash(&c.to_token_stream().to_string()) == "vx_panic()",
        _ => false,
    }
}

impl<'c> Rw<'c> {
    fn rule(&mut self, r: &str) {
        self.rules.insert(r.to_string());
    }
    fn subst_it(&self, t: &str, k: Option<usize>) -> String {
        let mut t = t.to_string();
        let name = |j: usize| self.its.get(&j).cloned().unwrap_or(format!("vx_it{}", j));
        for j in (0..100).rev() {
            if t.contains(&format!("$it{}", j)) {
                t = t.replace(&format!("$it{}", j), &name(j));
            }
        }
        if let Some(k) = k {
            t = t.replace("$it", &name(k));
        }
        t
    }
    fn anchor_text(&mut self, kind: &AKind) -> Option<String> {
        let mut out = String::new();
        let mut any = false;
        for a in self.anchors.iter_mut() {
            if a.kind == *kind {
                a.used += 1;
                any = true;
                out.push_str(&a.text);
            }
        }
        let k = match kind {
            AKind::LoopBefore(k) | AKind::LoopStart(k) | AKind::LoopEnd(k) | AKind::LoopAfter(k) => Some(*k),
            _ => None,
        };
        if any {
            Some(self.subst_it(&out, k))
        } else {
            None
        }
    }
    fn anchor_stmts(&mut self, kind: AKind) -> Vec<Stmt> {
        match self.anchor_text(&kind) {
            Some(t) => vec![self.ctx.raw_stmt(&t)],
            None => vec![],
        }
    }
    fn tmp(&mut self) -> syn::Ident {
        self.ntmp += 1;
        syn::Ident::new(&format!("vx_r{}", self.ntmp - 1), Span::call_site())
    }

    /// R6: removes reference patterns; the returned statements rebind
    fn strip_refs(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut out = vec![];
        self.strip_refs_in(p, &mut out);
        out
    }
    fn strip_refs_in(&mut self, p: &mut Pat, out: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                let t = self.tmp();
                let mut inner = (*r.pat).clone();
                let mut nested = vec![];
                self.strip_refs_in(&mut inner, &mut nested);
                out.push(parse_quote!(let #inner = *#t;));
                out.extend(nested);
                *p = parse_quote!(#t);
                self.rule("R6");
            }
            Pat::Tuple(t) => {
                for e in t.elems.iter_mut() {
                    self.strip_refs_in(e, out)
                }
            }
            Pat::TupleStruct(t) => {
                for e in t.elems.iter_mut() {
                    self.strip_refs_in(e, out)
                }
            }
            Pat::Struct(s) => {
                for f in s.fields.iter_mut() {
                    self.strip_refs_in(&mut f.pat, out)
                }
            }
            Pat::Paren(x) => self.strip_refs_in(&mut x.pat, out),
            Pat::Type(x) => self.strip_refs_in(&mut x.pat, out),
            _ => {}
        }
    }

    fn loop_hoist(&mut self, k: usize) -> Stmt {
        let t = self.spec.loops.get(&k).cloned().unwrap_or_default();
        let t = self.subst_it(&t, Some(k));
        self.ctx.hoist_stmt(&t)
    }

    /// visits a loop body and adds @loop_start / @loop_end text
    fn loop_body(&mut self, b: &mut Block, k: usize) {
        self.loop_stack.push(k);
        self.visit_block_mut(b);
        self.loop_stack.pop();
        let mut stmts = self.anchor_stmts(AKind::LoopStart(k));
        stmts.append(&mut b.stmts);
        let end = self.anchor_stmts(AKind::LoopEnd(k));
        if !end.is_empty() && !stmts.last().map_or(false, diverges) {
            if let Some(Stmt::Expr(e, semi)) = stmts.last_mut() {
                if semi.is_none() && !block_like(e) {
                    *semi = Some(Default::default());
                }
            }
            stmts.extend(end);
        }
        b.stmts = stmts;
    }

    fn rw_for(&mut self, f: syn::ExprForLoop) -> Vec<Stmt> {
        let k = self.nloops;
        self.nloops += 1;
        self.rule("R5");
        let syn::ExprForLoop { label, pat, expr, mut body, .. } = f;
        self.kinds.insert(k, if matches!(*expr, Expr::Range(_)) { "range".into() } else { "for".into() });
        let mut e = *expr;
        self.visit_expr_mut(&mut e);
        let it = syn::Ident::new(&format!("vx_it{}", k), Span::call_site());
        let mut out: Vec<Stmt> = vec![];
        let conv: Expr = match &e {
            Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some() => {
                let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                parse_quote!(vx_range(#a, #b))
            }
            Expr::Range(r) if matches!(r.limits, syn::RangeLimits::Closed(_)) && r.start.is_some() && r.end.is_some() => {
                let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                parse_quote!(vx_range_inclusive(#a, #b))
            }
            _ => parse_quote!(VxInto::vx_into_iter(#e)),
        };
        out.push(parse_quote!(let mut #it = #conv;));
        out.extend(self.anchor_stmts(AKind::LoopBefore(k)));
        let mut pat = *pat;
        let rebinding = self.strip_refs(&mut pat);
        self.loop_body(&mut body, k);
        let hoist = self.loop_hoist(k);
        let x = syn::Ident::new(&format!("vx_x{}", k), Span::call_site());
        let stmts = body.stmts;
        let lbl = label.map(|l| l.to_token_stream()).unwrap_or_default();
        let lp: Expr = syn::parse2(quote!(#lbl loop {
            #hoist
            match #it.next() {
                None => { break; }
                Some(#x) => { let #pat = #x; #(#rebinding)* #(#stmts)* }
            }
        }))
        .expect("for desugaring");
        out.push(Stmt::Expr(lp, Some(Default::default())));
        out.extend(self.anchor_stmts(AKind::LoopAfter(k)));
        // the iterator lives as long as the `for` statement
        vec![Stmt::Expr(parse_quote!({ #(#out)* }), Some(Default::default()))]
    }

    fn rw_while_let(&mut self, w: syn::ExprWhile) -> Vec<Stmt> {
        let k = self.nloops;
        self.nloops += 1;
        self.rule("R9");
        let syn::ExprWhile { label, cond, mut body, .. } = w;
        let (mut pat, mut e) = match *cond {
            Expr::Let(l) => (*l.pat, *l.expr),
            _ => unreachable!(),
        };
        // `while let Some(x) = it.next()` is the `for` over it
        let mut kind = "while";
        if let Expr::MethodCall(m) = &e {
            if let (Expr::Path(p), true) = (&*m.receiver, m.method == "next" && m.args.is_empty()) {
                if let Some(i) = p.path.get_ident() {
                    kind = "for";
                    self.its.insert(k, i.to_string());
                }
            }
        }
        self.kinds.insert(k, kind.into());
        self.visit_expr_mut(&mut e);
        let rebinding = self.strip_refs(&mut pat);
        let mut out = self.anchor_stmts(AKind::LoopBefore(k));
        self.loop_body(&mut body, k);
        let hoist = self.loop_hoist(k);
        let stmts = body.stmts;
        let lbl = label.map(|l| l.to_token_stream()).unwrap_or_default();
        let lp: Expr = syn::parse2(quote!(#lbl loop {
            #hoist
            match #e {
                #pat => { #(#rebinding)* #(#stmts)* }
                _ => { break; }
            }
        }))
        .expect("while-let desugaring");
        out.push(Stmt::Expr(lp, Some(Default::default())));
        out.extend(self.anchor_stmts(AKind::LoopAfter(k)));
        out
    }

    fn rw_plain_loop(&mut self, e: Expr) -> Vec<Stmt> {
        let k = self.nloops;
        self.nloops += 1;
        let mut out = self.anchor_stmts(AKind::LoopBefore(k));
        self.kinds.insert(k, if matches!(e, Expr::Loop(_)) { "loop".into() } else { "while".into() });
        let e = match e {
            Expr::Loop(mut l) => {
                self.loop_body(&mut l.body, k);
                let h = self.loop_hoist(k);
                l.body.stmts.insert(0, h);
                Expr::Loop(l)
            }
            Expr::While(mut w) => {
                self.visit_expr_mut(&mut w.cond);
                self.loop_body(&mut w.body, k);
                let h = self.loop_hoist(k);
                w.body.stmts.insert(0, h);
                Expr::While(w)
            }
            _ => unreachable!(),
        };
        out.push(Stmt::Expr(e, None));
        out.extend(self.anchor_stmts(AKind::LoopAfter(k)));
        out
    }

    fn rw_loop_expr(&mut self, e: Expr) -> Vec<Stmt> {
        match e {
            Expr::ForLoop(f) => self.rw_for(f),
            Expr::While(w) if matches!(*w.cond, Expr::Let(_)) => self.rw_while_let(w),
            other => self.rw_plain_loop(other),
        }
    }

    fn rw_stmt(&mut self, st: Stmt) -> Vec<Stmt> {
        match st {
            Stmt::Expr(e @ (Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)), semi) => {
                let mut v = self.rw_loop_expr(e);
                // a tail `loop` that never breaks is the function's value: keep it last
                if let Some(Stmt::Expr(Expr::Loop(_), s)) = v.last_mut() {
                    if semi.is_some() {
                        *s = semi;
                    }
                }
                v
            }
            Stmt::Local(mut l) => {
                if let Some(init) = l.init.as_mut() {
                    if let Expr::Loop(lp) = &*init.expr {
                        if has_break_value(&lp.body) {
                            return self.rw_break_value(l);
                        }
                    }
                    self.visit_expr_mut(&mut init.expr);
                    if let Some((_, e)) = init.diverge.as_mut() {
                        self.visit_expr_mut(e);
                    }
                }
                let mut ty_rw = TypeRw { rules: Default::default() };
                ty_rw.visit_pat_mut(&mut l.pat);
                // let &x = E  ==>  let x = *(E)
                if let Pat::Reference(r) = &l.pat {
                    if matches!(*r.pat, Pat::Ident(_)) {
                        let inner = (*r.pat).clone();
                        let e = &l.init.as_ref().unwrap().expr;
                        let s: Stmt = parse_quote!(let #inner = *(#e););
                        self.rule("R6");
                        return vec![s];
                    }
                }
                let extra = self.strip_refs(&mut l.pat);
                let mut v = vec![Stmt::Local(l)];
                v.extend(extra);
                v
            }
            Stmt::Macro(m) => {
                if matches!(m.mac.path.segments.last().map(|s| s.ident.to_string()).as_deref(), Some("vx_raw")) {
                    return vec![Stmt::Macro(m)];
                }
                let mut e = Expr::Macro(syn::ExprMacro { attrs: m.attrs, mac: m.mac });
                self.visit_expr_mut(&mut e);
                vec![Stmt::Expr(e, m.semi_token)]
            }
            Stmt::Expr(mut e, semi) => {
                self.visit_expr_mut(&mut e);
                vec![Stmt::Expr(e, semi)]
            }
            s => vec![s],
        }
    }

    fn rw_break_value(&mut self, l: syn::Local) -> Vec<Stmt> {
        self.rule("R8");
        let init = l.init.unwrap();
        let name = match &l.pat {
            Pat::Ident(i) => i.ident.clone(),
            _ => crate::fail("break with value into a pattern"),
        };
        let mutable = match &l.pat {
            Pat::Ident(i) => i.mutability.clone(),
            _ => None,
        };
        let mut lp = match *init.expr {
            Expr::Loop(lp) => lp,
            _ => unreachable!(),
        };
        let tmp = syn::Ident::new(&format!("vx_bv_{}", name), Span::call_site());
        BreakValue { name: tmp.clone() }.visit_block_mut(&mut lp.body);
        let mut v = vec![parse_quote!(let #tmp;)];
        let mut w = self.rw_plain_loop(Expr::Loop(lp));
        v.append(&mut w);
        v.push(parse_quote!(let #mutable #name = #tmp;));
        v
    }

    fn wrap_exit(&mut self, b: &mut Block) {
        let t = match self.anchor_text(&AKind::Exit) {
            Some(t) => t,
            None => return,
        };
        let raw = self.ctx.raw_stmt(&t);
        match b.stmts.pop() {
            None => b.stmts.push(raw),
            Some(Stmt::Expr(e, None)) if !self.unit => {
                if matches!(e, Expr::Loop(_) | Expr::Return(_)) {
                    b.stmts.push(Stmt::Expr(e, None));
                } else {
                    b.stmts.push(match &self.ret {
                        Some(t) => parse_quote!(let vx_ret: #t = #e;),
                        None => parse_quote!(let vx_ret = #e;),
                    });
                    b.stmts.push(raw);
                    b.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                }
            }
            Some(s) => {
                let d = diverges(&s);
                let s = match s {
                    Stmt::Expr(e, None) if !block_like(&e) => Stmt::Expr(e, Some(Default::default())),
                    s => s,
                };
                b.stmts.push(s);
                if !d && self.unit {
                    b.stmts.push(raw);
                }
            }
        }
    }

    fn rw_macro(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = || {
            m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()
        };
        match name.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.rule("R7");
                Some(parse_quote!(vx_panic()))
            }
            "assert" | "debug_assert" => {
                let a = args()?;
                let mut c = a.first()?.clone();
                self.visit_expr_mut(&mut c);
                self.rule("R7");
                Some(parse_quote!(if !(#c) { vx_panic() }))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                self.rule("R7");
                if name.ends_with("eq") {
                    Some(parse_quote!(if !(#x == #y) { vx_panic() }))
                } else {
                    Some(parse_quote!(if #x == #y { vx_panic() }))
                }
            }
            "vec" => {
                let mut a = args()?;
                for e in a.iter_mut() {
                    self.visit_expr_mut(e);
                }
                Some(parse_quote!(vec![#a]))
            }
            "matches" => {
                let toks: Vec<_> = m.tokens.clone().into_iter().collect();
                let pos = toks
                    .iter()
                    .position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ','))?;
                let e: TokenStream = toks[..pos].iter().cloned().collect();
                let p: TokenStream = toks[pos + 1..].iter().cloned().collect();
                let mut x: Expr = syn::parse2(quote!(match #e { #p => true, _ => false })).ok()?;
                self.visit_expr_mut(&mut x);
                Some(x)
            }
            _ => None,
        }
    }
}

struct BreakValue {
    name: syn::Ident,
}
impl VisitMut for BreakValue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Break(b) if b.expr.is_some() => {
                let v = b.expr.take().unwrap();
                let n = &self.name;
                let lbl = &b.label;
                *e = parse_quote!({ #n = #v; break #lbl; });
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// a statement within st has the text
fn nested_has(st: &Stmt, q: &str) -> bool {
    struct F<'a>(&'a str, bool);
    impl<'a> VisitMut for F<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            for s in &b.stmts {
                self.1 = self.1 || squash(&s.to_token_stream().to_string()).contains(self.0);
            }
        }
    }
    let mut f = F(q, false);
    f.visit_stmt_mut(&mut st.clone());
    f.1
}

fn has_break_value(b: &Block) -> bool {
    struct F(bool);
    impl VisitMut for F {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                Expr::Break(b) if b.expr.is_some() => self.0 = true,
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut f = F(false);
    f.visit_block_mut(&mut b.clone());
    f.0
}

impl<'c> VisitMut for Rw<'c> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for st in stmts {
            let text = squash(&st.to_token_stream().to_string());
            let mut pre = vec![];
            let mut post = vec![];
            for i in 0..self.anchors.len() {
                let (n, p, before) = match &self.anchors[i].kind {
                    AKind::Before(n, p) => (*n, p.clone(), true),
                    AKind::After(n, p) => (*n, p.clone(), false),
                    _ => continue,
                };
                // "*text": the innermost statement that has the text anywhere in it
                let hit = match p.strip_prefix('*') { Some(q) => text.contains(q) && !nested_has(&st, q), None => text.starts_with(&p) };
                if hit {
                    self.anchors[i].seen += 1;
                    if self.anchors[i].seen == n {
                        self.anchors[i].used += 1;
                        let t = self.subst_it(&self.anchors[i].text.clone(), None);
                        let s = self.ctx.raw_stmt(&t);
                        if before {
                            pre.push(s)
                        } else {
                            post.push(s)
                        }
                    }
                }
            }
            let mut new = self.rw_stmt(st);
            b.stmts.append(&mut pre);
            if !post.is_empty() {
                if let Some(Stmt::Expr(e, semi)) = new.last_mut() {
                    if semi.is_none() && !block_like(e) {
                        *semi = Some(Default::default());
                    }
                }
            }
            b.stmts.append(&mut new);
            b.stmts.append(&mut post);
        }
    }

    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        TypeRw { rules: Default::default() }.visit_type_mut(t);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let x = std::mem::replace(e, Expr::Verbatim(TokenStream::new()));
                let v = self.rw_loop_expr(x);
                *e = parse_quote!({ #(#v)* });
                return;
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(n) = self.rw_macro(&mac) {
                    *e = n;
                } else {
                    let n = squash(&mac.path.to_token_stream().to_string());
                    if !n.starts_with("vx_") {
                        let k = self.key.clone();
                        self.ctx.note(&format!("{}: macro {}! kept", k, n));
                    }
                }
                return;
            }
            // `e?` where the function returns an Option: the exit it is
            Expr::Try(t) if self.opt && self.closure_depth == 0 => {
                let inner = (*t.expr).clone();
                self.rule("R13");
                *e = parse_quote!(match #inner { Some(vx_some) => vx_some, None => return None });
                self.visit_expr_mut(e);
                return;
            }
            // an Option's method, on an Option std has just given: the match it is
            Expr::MethodCall(m) if option_step(m, &self.ctx.options).is_some() => {
                self.rule("R15");
                self.neaten += m.args.iter().filter(|a| matches!(a, Expr::Closure(_))).count();
                *e = option_step(m, &self.ctx.options).unwrap();
                self.visit_expr_mut(e);
                return;
            }
            // `m[&k]`: only maps take an index by reference; the entry, or the panic std gives
            Expr::Index(x) if matches!(&*x.index, Expr::Reference(r) if r.mutability.is_none()) => {
                let (m, k) = ((*x.expr).clone(), (*x.index).clone());
                self.rule("R14");
                *e = parse_quote!((*#m.get(#k).unwrap()));
                self.visit_expr_mut(e);
                return;
            }
            Expr::Closure(c) => {
                let k = self.nclosures;
                self.nclosures += 1;
                let mut lets = vec![];
                for p in c.inputs.iter_mut() {
                    let v = self.strip_refs(p);
                    lets.extend(v);
                }
                self.closure_depth += 1;
                self.visit_expr_mut(&mut c.body);
                self.closure_depth -= 1;
                let body = &c.body;
                let blk: TokenStream = match &**body {
                    Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => {
                        let st = &b.block.stmts;
                        quote!({ #(#lets)* #(#st)* })
                    }
                    o => quote!({ #(#lets)* #o }),
                };
                if let Some((header, spec)) = self.spec.closures.get(&k).cloned() {
                    let (mut ps, mut ret) = split_header(&header);
                    let mut spec = spec;
                    // the overlay's parameter names follow the source's
                    let mut map = BTreeMap::new();
                    for (h, p) in header_names(&ps).iter().zip(c.inputs.iter()) {
                        let actual = match p {
                            Pat::Ident(i) => i.ident.to_string(),
                            Pat::Type(t) => match &*t.pat {
                                Pat::Ident(i) => i.ident.to_string(),
                                _ => continue,
                            },
                            _ => continue,
                        };
                        if actual != *h {
                            map.insert(h.clone(), actual);
                        }
                    }
                    if !map.is_empty() {
                        ps = rename_words(&ps, &map);
                        ret = rename_words(&ret, &map);
                        spec = rename_words(&spec, &map);
                    }
                    let mv = if c.capture.is_some() { "move " } else { "" };
                    let t = format!("{}|{}| {}\n{}", mv, ps, ret, self.subst_it(&spec, None));
                    let n = self.ctx.raw_n(&t);
                    *e = parse_quote!(vx_closure!(#n, #blk));
                    self.rule("R6c");
                } else {
                    // a test the specification language reads as it stands is its own contract
                    let auto = c.inputs.len() == 1 && matches!(c.inputs[0], Pat::Ident(_)) && plain_test(&c.body);
                    if auto {
                        let mv = if c.capture.is_some() { "move " } else { "" };
                        let ps = &c.inputs[0];
                        let t = format!("{}|{}| -> (vx_b: bool)\n    ensures ({{ {} vx_b == ({}) }})", mv, quote!(#ps), quote!(#(#lets)*), quote!(#body));
                        let n = self.ctx.raw_n(&t);
                        *e = parse_quote!(vx_closure!(#n, #blk));
                        self.rule("R6c");
                    } else {
                        let nb: Expr = syn::parse2(blk).unwrap();
                        c.body = Box::new(nb);
                    }
                }
                return;
            }
            _ => {}
        }
        // if let with reference patterns
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &mut *i.cond {
                let extra = self.strip_refs(&mut l.pat);
                if !extra.is_empty() {
                    let mut st = extra;
                    st.append(&mut i.then_branch.stmts);
                    i.then_branch.stmts = st;
                }
            }
        }
        if let Expr::Match(m) = e {
            for a in m.arms.iter_mut() {
                let extra = self.strip_refs(&mut a.pat);
                if !extra.is_empty() {
                    let b = &a.body;
                    a.body = parse_quote!({ #(#extra)* #b });
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if RENAME.contains(&n.as_str()) {
                    m.method = syn::Ident::new(&format!("vx_{}", n), Span::call_site());
                    self.rule("R4");
                }
                if n == "try_from" {
                    m.method = syn::Ident::new("vx_try_from", Span::call_site());
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let t = squash(&p.to_token_stream().to_string());
                    if t == "Box::new" && c.args.len() == 1 {
                        let a = c.args.first().unwrap().clone();
                        self.rule("R3");
                        *e = a;
                        return;
                    }
                    if let Some(id) = p.path.get_ident() {
                        let id = id.to_string();
                        let module = self.key.rsplit_once("::").map_or("", |x| x.0);
                        let ghost = self.ctx.ov.fns.get(&format!("{}::{}", module, id)).map_or(false, |f| f.ghost_param.is_some());
                        if ghost {
                            let a: Expr = match self.spec.ghost_args.get(&id) {
                                Some(t) => syn::parse_str(t).expect("ghost_arg expression"),
                                None => parse_quote!(vstd::pervasive::arbitrary()),
                            };
                            c.args.push(parse_quote!(Ghost(#a)));
                            self.rule("R11");
                        }
                    }
                    let last = p.path.segments.last_mut().unwrap();
                    if last.ident == "try_from" {
                        last.ident = syn::Ident::new("vx_try_from", Span::call_site());
                        self.rule("R10");
                    }
                }
            }
            Expr::Return(_) if self.closure_depth == 0 => {
                if let Some(t) = self.anchor_text(&AKind::Exit) {
                    let raw = self.ctx.raw_stmt(&t);
                    if let Expr::Return(r) = e {
                        *e = match r.expr.take() {
                            Some(v) => match &self.ret {
                                Some(t) => parse_quote!({ let vx_ret: #t = #v; #raw return vx_ret; }),
                                None => parse_quote!({ let vx_ret = #v; #raw return vx_ret; }),
                            },
                            None => parse_quote!({ #raw return; }),
                        };
                    }
                }
            }
            Expr::Continue(c) => {
                if let Some(k) = self.loop_stack.last().copied() {
                    if let Some(t) = self.anchor_text(&AKind::LoopEnd(k)) {
                        let raw = self.ctx.raw_stmt(&t);
                        let c = c.clone();
                        *e = parse_quote!({ #raw #c; });
                    }
                }
            }
            _ => {}
        }
    }
}

fn split_header(h: &str) -> (String, String) {
    let s = h.trim();
    let mut depth = 0;
    for (i, c) in s.char_indices() {
        match c {
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth == 0 {
                    return (s[1..i].to_string(), s[i + 1..].trim().to_string());
                }
            }
            _ => {}
        }
    }
    crate::fail(&format!("closure header {}", h))
}

fn header_names(ps: &str) -> Vec<String> {
    let mut out = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    for c in ps.chars().chain(std::iter::once(',')) {
        match c {
            '(' | '<' | '[' => depth += 1,
            ')' | '>' | ']' => depth -= 1,
            _ => {}
        }
        if c == ',' && depth == 0 {
            if let Some((n, _)) = cur.split_once(':') {
                out.push(n.trim().to_string());
            }
            cur.clear();
        } else {
            cur.push(c);
        }
    }
    out
}

/// a comparison of places and literals, or such tests joined by && || !
fn plain_test(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => plain_test(&p.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && plain_test(&u.expr),
        Expr::Binary(b) => match b.op {
            syn::BinOp::And(_) | syn::BinOp::Or(_) => plain_test(&b.left) && plain_test(&b.right),
            syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) => {
                plain_place(&b.left) && plain_place(&b.right)
            }
            _ => false,
        },
        _ => false,
    }
}
fn plain_place(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => plain_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && plain_place(&u.expr),
        Expr::Reference(r) => r.mutability.is_none() && plain_place(&r.expr),
        Expr::Field(f) => plain_place(&f.base),
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Lit(_) => true,
        _ => false,
    }
}

/// whether the expression is an Option that a lookup of std gives
fn is_option(e: &Expr, own: &BTreeSet<String>) -> bool {
    match e {
        Expr::Paren(p) => is_option(&p.expr, own),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "get" => m.args.len() == 1,
                "first" | "last" | "front" | "back" => m.args.is_empty(),
                "copied" | "cloned" | "map" | "and_then" => is_option(&m.receiver, own),
                _ => own.contains(&n),
            }
        }
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.last().map_or(false, |s| own.contains(&s.ident.to_string())),
            _ => false,
        },
        _ => false,
    }
}

/// a closure of one parameter whose body leaves it only at its end
fn one_param(e: &Expr) -> Option<(Pat, Expr)> {
    struct Leaves(bool);
    impl<'a> syn::visit::Visit<'a> for Leaves {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) { self.0 = true }
        fn visit_macro(&mut self, _: &'a syn::Macro) { self.0 = true }
    }
    if let Expr::Closure(c) = e {
        if c.inputs.len() != 1 || matches!(c.inputs[0], Pat::Type(_)) { return None }
        let mut l = Leaves(false);
        syn::visit::Visit::visit_expr(&mut l, &c.body);
        if !l.0 { return Some((c.inputs[0].clone(), (*c.body).clone())) }
    }
    None
}
fn no_param(e: &Expr) -> Option<Expr> {
    if let Expr::Closure(c) = e {
        if c.inputs.is_empty() {
            let body = (*c.body).clone();
            let one: Expr = parse_quote!(|vx_u| #body);
            return one_param(&one).map(|x| x.1);
        }
    }
    None
}

fn option_step(m: &syn::ExprMethodCall, own: &BTreeSet<String>) -> Option<Expr> {
    if !is_option(&m.receiver, own) || m.turbofish.is_some() { return None }
    let r = &m.receiver;
    let a: Vec<&Expr> = m.args.iter().collect();
    let n = m.method.to_string();
    match (n.as_str(), a.len()) {
        ("copied", 0) => Some(parse_quote!(match #r { Some(vx_some) => Some(*vx_some), None => None })),
        ("cloned", 0) => Some(parse_quote!(match #r { Some(vx_some) => Some(vx_some.clone()), None => None })),
        ("map", 1) => one_param(a[0]).map(|(p, b)| parse_quote!(match #r { Some(#p) => Some(#b), None => None })),
        ("and_then", 1) => one_param(a[0]).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => None })),
        ("map_or", 2) if plain_test(a[0]) || plain_place(a[0]) => {
            let d = a[0];
            one_param(a[1]).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => #d }))
        }
        ("is_some_and", 1) => one_param(a[0]).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => false })),
        ("ok_or_else", 1) => no_param(a[0]).map(|b| parse_quote!(match #r { Some(vx_some) => Ok(vx_some), None => Err(#b) })),
        _ => None,
    }
}

/// names of functions, with whether each gives an Option
pub struct Options { pub yes: BTreeSet<String>, pub no: BTreeSet<String> }
impl<'a> syn::visit::Visit<'a> for Options {
    fn visit_signature(&mut self, s: &'a syn::Signature) {
        let o = matches!(&s.output, syn::ReturnType::Type(_, t) if squash(&t.to_token_stream().to_string()).starts_with("Option<"));
        if o { self.yes.insert(s.ident.to_string()); } else { self.no.insert(s.ident.to_string()); }
    }
}
